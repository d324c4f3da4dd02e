"""Runs operation lists on the real code and records what happened.

An operation list is a list of JSON-able dicts (see ``Session.do``).  The
recording is a list of events in the form spec/Trace.tla reads: one event per
call, logged after the call returns or raises, with the state of every live
object.  Numbers are logged as big integers times 10^-40 (spec/Fix.tla).
"""
import copy
import datetime as dt
import hashlib
import json
import logging
import math
import os
import re
import signal
import sys
import tempfile
import warnings
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

SCALE = 10**40
KINDS = {"TL": "TwoLayerModel", "IR": "ImpulseResponseModel"}
PARS = {"TL": ("du", "dl", "lambda0", "a", "efficacy", "eta"), "IR": ("q1", "q2", "d1", "d2", "efficacy")}
BASE = {
    "du": "m", "dl": "m", "lambda0": "W/m^2/delta_degC", "a": "W/m^2/delta_degC^2", "efficacy": "dimensionless",
    "eta": "W/m^2/delta_degC", "q1": "delta_degC/(W/m^2)", "q2": "delta_degC/(W/m^2)", "d1": "s", "d2": "s",
    "delta_t": "s", "erf": "W/m^2", "hc": "J/delta_degC/m^2",
}
ARR = {"TL": ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"), "IR": ("_temp1_mag", "_temp2_mag", "_rndt_mag")}

np = pd = pint = ur = otl = ScmRun = None


def load():
    """Import the code under test (kept out of module import: workers fork after it)"""
    global np, pd, pint, ur, otl, ScmRun  # pylint: disable=global-statement
    import numpy
    import pandas
    import pint as _pint
    from openscm_units import unit_registry
    import openscm_twolayermodel
    import openscm_twolayermodel.utils  # noqa: F401
    from scmdata.run import ScmRun as _ScmRun

    logging.disable(logging.CRITICAL)
    np, pd, pint, ur, otl, ScmRun = numpy, pandas, _pint, unit_registry, openscm_twolayermodel, _ScmRun
    where = os.path.abspath(otl.__file__)
    if not where.startswith(os.path.join(os.path.abspath(REPO), "src") + os.sep):
        raise RuntimeError("imported from " + where)
    # the first use of some units and of scmdata is slow: do it once, before forking
    (1.0 * ur("W/m^2")).to("mW/m^2")


def limbs(n):
    """Big integer as [sign, base 10^4 digits, least significant first]"""
    if n == 0:
        return [0]
    s, n = (1, n) if n > 0 else (-1, -n)
    out = [s]
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def fx(x):
    """Number as logged for spec/Fix.tla"""
    try:
        if isinstance(x, Fraction):
            f = x
        else:
            x = float(x)
            if math.isnan(x):
                return []
            if math.isinf(x):
                return [8]
            f = Fraction(x)
    except Exception:  # not a number at all
        return []
    if abs(f) > 10**100:
        return [9]
    return limbs(round(f * SCALE))


def fxs(a):
    try:
        return [fx(v) for v in list(a)]
    except TypeError:
        return [[]]


def si(q, name):
    """Magnitude of a quantity in base units, NaN if it is none"""
    try:
        return q.to(BASE[name]).magnitude
    except Exception:
        return float("nan")


def meta_text(v):
    if v is None:
        return "#nan"
    if isinstance(v, str):
        return v
    if isinstance(v, (bool, np.bool_)):
        return "?" + str(bool(v))
    try:
        return "#" + repr(float(v))
    except (TypeError, ValueError):
        return "?" + str(v)


def time_point(t):
    """[day number, second of the day]"""
    if not isinstance(t, dt.datetime):
        if hasattr(t, "astype"):
            t = t.astype("datetime64[s]").item()
    return [dt.date(t.year, t.month, t.day).toordinal() - 719163, t.hour * 3600 + t.minute * 60 + t.second]


class Timeout(BaseException):
    """A trace took too long"""


class Session:
    """Live objects of one trace"""

    def __init__(self):
        self.objs = {}
        self.kind = {}
        self.conv = {}
        self.src = {}
        self.held = {}
        self.shared = {}
        self.events = []

    # -- arguments ---------------------------------------------------------
    def arg(self, q):
        """(python value, logged value) of an argument"""
        if q.get("sh"):  # the same object whenever it is asked for
            key = repr(sorted((k, repr(v)) for k, v in q.items()))
            if key not in self.shared:
                self.shared[key] = self.arg({k: v for k, v in q.items() if k != "sh"})
            return self.shared[key]
        t = q["t"]
        if t == "q":
            v = q["v"]
            if isinstance(v, list):
                dtype = q.get("dtype")
                m = np.array(v, dtype=dtype) if dtype else np.array(v, dtype=float)
                m = ur.Quantity(m, q["u"]) if dtype else m * ur(q["u"])  # the product is in floats
                return m, {"t": "q", "v": fxs(v), "u": q["u"]}
            if q.get("np"):
                return ur.Quantity(getattr(np, q["np"])(v), q["u"]), {"t": "q", "v": fx(v), "u": q["u"]}
            return ur.Quantity(v, q["u"]), {"t": "q", "v": fx(v), "u": q["u"]}
        log = {"t": t}
        if t == "shape2":
            return np.array(q["v"], dtype=float) * ur(q["u"]), {"t": "shape"}
        if t == "shape0":
            return ur.Quantity(np.array(q["v"]), q["u"]), {"t": "shape"}
        if t == "array":
            return np.array(q["v"], dtype=float), log
        if t in ("float", "int", "str", "list"):
            return q["v"], log
        if t == "unit":
            return ur.Unit(q["v"]), log
        if t == "none":
            return None, log
        if t == "series":
            return pd.Series(q["v"]), log
        if t == "bool":
            return bool(q["v"]), log
        if t == "npfloat":
            return np.float64(q["v"]), log
        if t == "npbool":
            return np.bool_(q["v"]), log
        if t == "complex":
            return complex(q["v"]), log
        if t == "array0":
            return np.array(q["v"]), log
        if t == "tuple":
            return (q["v"], "W/m^2"), log
        if t == "objarr":  # quantities within an array
            a = np.empty(1, dtype=object)
            a[0] = ur.Quantity(1.0, q["u"])
            return a, log
        if t == "qlist":
            return [ur.Quantity(1.0, q["u"])], log
        if t == "fraction":
            return Fraction(q["v"]), log
        raise AssertionError(t)

    # -- observation -------------------------------------------------------
    def look(self, name, lite=False):
        m, kind = self.objs[name], self.kind[name]
        a, b, r = (fxs(getattr(m, n)) for n in ARR[kind])
        if lite:
            return {"A": a, "B": b, "R": r}
        erf = m.erf
        drv = fxs(si(erf, "erf")) if isinstance(erf, pint.Quantity) else fxs(erf)
        out = {
            "par": {n: fx(si(getattr(m, n), n)) for n in PARS[kind]},
            "dt": fx(si(m.delta_t, "delta_t")), "drv": drv, "A": a, "B": b, "R": r,
        }
        if kind == "TL":
            out["hc"] = [fx(si(m.heat_capacity_upper, "hc")), fx(si(m.heat_capacity_lower, "hc"))]
        return out

    def digest(self, h):
        x = self.held[h]
        s = hashlib.sha1()
        if isinstance(x, dict):
            for k in sorted(x):
                v = x[k]
                s.update(repr((k, np.asarray(v.magnitude).tolist(), str(v.units))).encode())
        elif isinstance(x, pd.DataFrame):
            self._digest_df(s, x)
        else:
            ts = x.timeseries(check_duplicated=False)
            self._digest_df(s, ts)
            s.update(repr(sorted(map(str, getattr(x, "metadata", {}).items()))).encode())
        return s.hexdigest()

    @staticmethod
    def _digest_df(s, df):
        s.update(repr([str(c) for c in df.columns]).encode())
        s.update(repr(list(df.index.names)).encode())
        s.update(repr(list(df.index)).encode())
        s.update(repr(df.values.tolist()).encode())

    def lite(self, op):
        """Whether to leave the objects alone after this operation (looking may change them)"""
        if op["op"] == "scen" or not op.get("lite"):
            return False
        return op["op"] != "new" or set(op["q"]) >= set(PARS[op["kind"]]) | {"delta_t"}

    # -- operations --------------------------------------------------------
    def do(self, op):
        ev = {"op": op["op"], "ok": True, "err": [], "crash": ""}
        if "o" in op:
            ev["o"] = op["o"]
        try:
            getattr(self, "op_" + op["op"])(op, ev)
            ev["obs"] = {n: self.look(n, self.lite(op)) for n in self.objs}
            ev["held"] = {h: self.digest(h) for h in self.held}
        except Timeout:
            ev = {"op": op["op"], "crash": "timeout"}
        except Exception as exc:  # the state could not be observed
            ev = {"op": op["op"], "crash": "observe: %s: %s" % (type(exc).__name__, exc)}
        self.events.append(ev)
        return not ev["crash"]

    def call(self, ev, f, *args, **kw):
        try:
            return f(*args, **kw)
        except Exception as exc:  # pylint: disable=broad-except
            ev["ok"] = False
            ev["err"] = [c.__name__ for c in type(exc).__mro__]
            ev["msg"] = str(exc)[:200]
            return None

    def op_new(self, op, ev):
        args, log = {}, {}
        if "from" in op:
            for n, q in self.conv.get(op["from"], {}).items():
                args[n] = q
                if n in BASE:
                    log[n] = {"t": "q", "v": fx(si(q, n)), "u": BASE[n]}
        for n, q in op.get("q", {}).items():
            args[n], log[n] = self.arg(q)
        ev["kind"], ev["q"] = op["kind"], log
        m = self.call(ev, getattr(otl, KINDS[op["kind"]]), **args)
        if ev["ok"]:
            self.objs[op["o"]], self.kind[op["o"]] = m, op["kind"]
            self.src[op["o"]] = op.get("from", "")

    def op_copy(self, op, ev):
        ev["src"] = op["src"]
        m = self.call(ev, copy.deepcopy, self.objs[op["src"]])
        if ev["ok"]:
            self.objs[op["o"]], self.kind[op["o"]] = m, self.kind[op["src"]]
            self.src[op["o"]] = self.src.get(op["src"], "")

    def augmented(self, op, name, ev):
        """x.name *= factor, as far as the assignment"""
        x = getattr(self.objs[op["o"]], name)
        v = si(x, name)
        ev["q"] = {"t": "q", "v": fx(v * op["aug"]) if np.ndim(v) == 0 else fxs(v * op["aug"]), "u": BASE[name]}
        try:
            x *= op["aug"]
        except TypeError:  # whole numbers
            x = x * op["aug"]
        return x

    def op_set(self, op, ev):
        if "aug" in op:
            v = self.augmented(op, op["n"], ev)
        else:
            v, ev["q"] = self.arg(op["q"])
        ev["n"] = op["n"]
        self.call(ev, setattr, self.objs[op["o"]], op["n"], v)

    def op_drive(self, op, ev):
        if "aug" in op:
            v = self.augmented(op, "erf", ev)
        else:
            v, ev["q"] = self.arg(op["q"])
        ev["via"] = op.get("via", "set_drivers")
        m = self.objs[op["o"]]
        if ev["via"] == "erf":
            self.call(ev, setattr, m, "erf", v)
        else:
            self.call(ev, m.set_drivers, v)

    def op_reset(self, op, ev):
        self.call(ev, self.objs[op["o"]].reset)

    def op_step(self, op, ev):
        ev["m"] = op.get("m", 1)
        for _ in range(ev["m"]):
            self.call(ev, self.objs[op["o"]].step)
            if not ev["ok"]:
                break

    def op_run(self, op, ev):
        self.call(ev, self.objs[op["o"]].run)

    def op_conv(self, op, ev):
        m = self.objs[op["o"]]
        f = m.get_impulse_response_parameters if self.kind[op["o"]] == "TL" else m.get_two_layer_parameters
        r = self.call(ev, f)
        ev["id"], ev["src"], ev["out"] = op["id"], self.src.get(op["o"], ""), {}
        if ev["ok"]:
            self.conv[op["id"]] = r
            ev["out"] = {n: fx(si(q, n)) if n in BASE else [] for n, q in r.items()}
            if op.get("hold"):
                self.held["par:" + op["id"]] = r

    def op_tamper(self, op, ev):
        """Their owner changes data handed to or by the code, after the call"""
        ev["h"] = op["h"]
        x = self.held.get(op["h"])
        if isinstance(x, dict):
            x.clear()
        elif isinstance(x, pd.DataFrame):
            for i, c in enumerate(x.columns):
                if not isinstance(c, str):
                    x.iloc[:, i] = 7.25
        elif x is not None:
            x["tampered"] = "yes"
            if isinstance(getattr(x, "_df", None), pd.DataFrame):
                x._df.iloc[:, :] = 7.25  # pylint: disable=protected-access

    def op_ecs(self, op, ev):
        lam, ev["lam"] = self.arg(op["lam"])
        if ev["lam"]["t"] == "q" and not isinstance(op["lam"]["v"], list):
            ev["lam"] = dict(ev["lam"], v=[ev["lam"]["v"]])
        ev["hasf"], ev["f"] = "f" in op, {"t": "q"}
        args = {}
        if "f" in op:
            args["f2x"], ev["f"] = self.arg(op["f"])
            if ev["f"]["t"] == "q" and not isinstance(op["f"]["v"], list):
                ev["f"] = dict(ev["f"], v=[ev["f"]["v"]])
        r = self.call(ev, otl.utils.convert_lambda_to_ecs, lam, **args)
        ev["out"] = []
        if ev["ok"]:
            try:
                ev["out"] = fxs(np.atleast_1d(r.to("delta_degC").magnitude))
            except Exception:
                ev["out"] = [[]]

    def _plain(self, op, ev):
        for k, v in op.items():
            if k != "op":
                ev[k] = fx(v) if isinstance(v, float) else v

    op_equiv = op_disc = op_lin = op_eq = _plain

    # -- scenarios ---------------------------------------------------------
    @staticmethod
    def build(tab):
        times = [dt.datetime.fromisoformat(t) for t in tab["times"]]
        cols = []
        for r in tab["rows"]:
            for k in r["meta"]:
                if k not in cols:
                    cols.append(k)
        vals = np.array([[float("nan") if v is None else v for v in r["vals"]] for r in tab["rows"]], dtype=float).T
        if not tab["rows"]:
            raise AssertionError("empty table")
        columns = {c: [r["meta"].get(c, float("nan")) for r in tab["rows"]] for c in cols}
        columns["unit"] = [r["unit"] for r in tab["rows"]]
        columns.setdefault("model", ["unspecified"] * len(tab["rows"]))
        columns.setdefault("scenario", ["unspecified"] * len(tab["rows"]))
        run = ScmRun(data=vals.reshape(len(times), len(tab["rows"])), index=times, columns=columns)
        c = tab.get("container", "scmrun")
        if c == "scmrun":
            return run
        if c == "ts":
            return run.timeseries()
        if c == "wide":
            return run.timeseries().reset_index()
        plain = all(1700 < t.year < 2200 for t in times) and len(tab["rows"]) > 0
        if c == "csv":
            if not plain:
                return run
            fd, path = tempfile.mkstemp(suffix=".csv", prefix="scenarios-")
            os.close(fd)
            run.timeseries().reset_index().to_csv(path, index=False)
            return path
        if c == "long":  # rows with gaps in values or metadata cannot be told apart in this form
            if not plain or np.isnan(vals).any() or any(set(r["meta"]) != set(cols) for r in tab["rows"]):
                return run
            df = run.timeseries().reset_index()
            ids = [x for x in df.columns if isinstance(x, str)]
            return df.melt(id_vars=ids, var_name="time", value_name="value")
        raise AssertionError(c)

    @staticmethod
    def read(run):
        """The log of a table of scenarios which is an earlier result"""
        ts = run.timeseries(check_duplicated=False)
        rows = []
        for label, vals in zip(ts.index, ts.values):
            lab = dict(zip(ts.index.names, label))
            rows.append({"unit": str(lab["unit"]), "vals": fxs(vals),
                         "meta": {k: meta_text(v) for k, v in lab.items() if k not in ("unit", "climate_model", "run_idx")}})
        return {"times": [time_point(c) for c in ts.columns], "rows": rows}

    @staticmethod
    def logged(tab):
        cols = []
        for r in tab["rows"]:
            cols += [k for k in r["meta"] if k not in cols]
        for k in ("model", "scenario"):
            if k not in cols:
                cols.append(k)
        skip = ("unit", "climate_model", "run_idx")
        rows = []
        for r in tab["rows"]:
            meta = {k: meta_text(r["meta"].get(k, "unspecified" if k in ("model", "scenario") and not any(
                k in q["meta"] for q in tab["rows"]) else None)) for k in cols if k not in skip}
            rows.append({"meta": meta, "unit": r["unit"], "vals": [fx(float("nan") if v is None else v) for v in r["vals"]]})
        return {"times": [time_point(dt.datetime.fromisoformat(t)) for t in tab["times"]], "rows": rows}

    def op_scen(self, op, ev):
        if "again" in op:
            inp = self.held[op["again"]]
            if op.get("frame"):
                inp = inp.timeseries()
            ev["tab"] = self.read(self.held[op["again"]])
        else:
            tab = op["tab"]
            if op.get("hold") and tab.get("container") == "csv":
                tab = dict(tab, container="scmrun")
            inp = self.build(tab)
            ev["tab"] = self.logged(tab)
        n = len([h for h in self.held if h.startswith("in:")])
        if op.get("hold"):
            self.held["in:%d" % n] = inp
            before = self.digest("in:%d" % n)
        ev["var"] = op.get("var", "Effective Radiative Forcing")
        kw = {"progress": op.get("progress", False)}
        if "var" in op:
            kw["driver_var"] = op["var"]
        m = self.objs[op["o"]]
        try:
            out = self.call(ev, m.run_scenarios, inp, **kw)
        finally:
            if isinstance(inp, str):
                os.remove(inp)
        ev["out"] = {"times": [], "rows": []}
        if ev["ok"]:
            ev["out"] = self.table(out, PARS[self.kind[op["o"]]])
            if op.get("hold"):
                self.held["out:%d" % n] = out
        if op.get("hold") and self.digest("in:%d" % n) != before:
            # logged as if it had been known before the call, so that the change shows
            self.events[-1]["held"]["in:%d" % n] = before

    @staticmethod
    def table(out, pars):
        ts = out.timeseries(check_duplicated=False)
        times = [time_point(c) for c in ts.columns]
        names = list(ts.index.names)
        vals = ts.values
        rows = []
        for i, label in enumerate(ts.index):
            lab = dict(zip(names, label))
            row = {"variable": str(lab.pop("variable", "")), "unit": str(lab.pop("unit", "")),
                   "model": str(lab.pop("climate_model", ""))}
            try:
                k = float(lab.pop("run_idx", -1))
                row["runidx"] = int(k) if k == int(k) else -1
            except (ValueError, TypeError):
                row["runidx"] = -1
            row["pars"] = []
            for c, v in lab.items():
                mt = re.match(r"^(%s) \((.+)\)$" % "|".join(pars), c)
                if mt:
                    try:
                        row["pars"].append({"n": mt.group(1), "col": c, "v": fx(si(ur.Quantity(float(v), mt.group(2)), mt.group(1)))})
                    except Exception:
                        pass
            row["meta"] = {c: meta_text(v) for c, v in lab.items()}
            row["vals"] = fxs(vals[i])
            rows.append(row)
        return {"times": times, "rows": rows}


def _alarm(*_):
    raise Timeout()


def elsewhere(ops, limit):
    """Events of an operation list in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w", encoding="utf-8") as fh:
                json.dump(record(ops, limit), fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, encoding="utf-8") as fh:
            text = fh.read()
        return json.loads(text) if text else [{"op": "apart", "crash": "died"}]
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def record(ops, limit=300):
    """Events of one operation list.  It may begin with parts that are run in processes of
    their own: what they do cannot reach the rest, nor the rest them."""
    events = []
    while ops and ops[0]["op"] == "apart":
        events += elsewhere(ops[0]["ops"], limit)
        ops = ops[1:]
        if events[-1]["crash"]:
            return events
        events.append({"op": "apart", "ok": True, "err": [], "crash": "", "obs": {}, "held": {}})
    s = Session()
    s.events = events
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        # the driver bar goes to stderr
        for op in ops:
            if op.get("o") is not None and op["op"] not in ("new", "copy", "equiv") and op["o"] not in s.objs:
                continue  # its construction was refused: nothing to operate on
            if op["op"] == "copy" and op["src"] not in s.objs:
                continue
            if "again" in op and op["again"] not in s.held:
                continue
            if op["op"] == "new" and "from" in op and op["from"] not in s.conv:
                continue
            if not s.do(op):
                break
    finally:
        signal.alarm(0)
    return s.events
