"""Operation lists for each property: seeded, deliberately diverse.

Every generator yields operation lists for ``recorder.record``.  They state
inputs only; what must come out is decided by spec/Trace.tla.
"""
import copy
import datetime as dt
import json
import math
import os
import random
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "spec", "units.json")) as fh:
    _U = json.load(fh)


def _int(l):
    return l[0] * sum(d * 10000**i for i, d in enumerate(l[1:]))


FACTOR = {u: Fraction(_int(x["num"]), _int(x["den"])) for u, x in _U.items()}
UNITS = {}
for _u, _x in _U.items():
    if not _u[0].isdigit():  # multiples are for tables only
        UNITS.setdefault(_x["dim"], []).append(_u)
DIM = {"du": "len", "dl": "len", "lambda0": "fb", "a": "fb2", "efficacy": "one", "eta": "fb", "q1": "sens",
       "q2": "sens", "d1": "time", "d2": "time", "delta_t": "time", "erf": "flux"}
NATIVE = {"len": "m", "time": "s", "flux": "W/m^2", "fb": "W/m^2/delta_degC", "fb2": "W/m^2/delta_degC^2",
          "sens": "delta_degC/(W/m^2)", "one": "dimensionless"}
YR = 31557600.0
MONTH = YR / 12
PARS = {"TL": ("du", "dl", "lambda0", "a", "efficacy", "eta"), "IR": ("q1", "q2", "d1", "d2", "efficacy")}
ERF = "Effective Radiative Forcing"


def q(rng, name, value, unit=None, mixed=True):
    """value (base units) as an argument, in a random unit if mixed"""
    dim = DIM[name]
    if unit is None:
        unit = rng.choice(UNITS[dim]) if mixed and rng.random() < 0.7 else NATIVE[dim]
        if dim == "time" and not mixed:
            unit = rng.choice(["s", "yr"])
    f = FACTOR[unit]
    if isinstance(value, list):
        return {"t": "q", "v": [float(Fraction(v) / f) for v in value], "u": unit}
    v = float(Fraction(value) / f)
    out = {"t": "q", "v": v, "u": unit}
    if v == int(v) and abs(v) < 10**6 and rng.random() < 0.4:
        out["v"] = int(v)
    elif rng.random() < 0.1:
        out["np"] = "float64"
    return out


def lu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def near(rng, v):
    """A value that is nearly the same"""
    return v * (1 + rng.choice([1, -1]) * 10.0 ** -rng.choice([4, 5, 6, 7, 8]))


def nice(rng, lo, hi):
    """log-uniform, often a round number"""
    x = lu(rng, lo, hi)
    return float("%.2g" % x) if rng.random() < 0.5 else x


def efficacy(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([1.0, 1.0, 2.0, 0.5, 1.3])
    if r < 0.5:  # close to one
        return 1.0 + rng.choice([-1, 1]) * rng.choice([0.005, 0.009, 0.02, 0.05, 1e-3, 1e-4, 1e-6])
    return nice(rng, 0.4, 2.5)


def tl_pars(rng, a=None, wild=False):
    p = {
        "du": nice(rng, 5, 400), "dl": nice(rng, 100, 5000), "lambda0": nice(rng, 0.3, 4),
        "a": 0.0, "efficacy": efficacy(rng), "eta": nice(rng, 0.1, 3),
    }
    r = rng.random()
    if r < 0.04:
        p["dl"] = p["du"]
    elif r < 0.08:
        p["eta"] = p["lambda0"]
    elif r < 0.1:
        p["eta"] = nice(rng, 1e-4, 1e-2)
    elif r < 0.12:
        p["lambda0"] = nice(rng, 1e-3, 0.05)
    elif r < 0.14:
        p["dl"] *= lu(rng, 3, 50)
    elif r < 0.16:
        p["efficacy"] = nice(rng, 2.5, 8)
    if a is None:
        if rng.random() < 0.6:
            p["a"] = rng.choice([-1, 1]) * (nice(rng, 0.001, 0.06) if rng.random() < 0.85 else nice(rng, 1e-12, 1e-5))
    else:
        p["a"] = a
    if wild:
        r = rng.random()
        if r < 0.15:
            p["eta"] = 0.0
        elif r < 0.25:
            p["lambda0"] = -p["lambda0"] / 3
        elif r < 0.35:
            p["du"] = nice(rng, 0.01, 1)
        elif r < 0.45:
            p["du"], p["dl"] = p["dl"], p["du"]
        elif r < 0.5:
            p["efficacy"] = 0.0
        elif r < 0.55:
            p["a"] *= 20
    return p


def tl_dt(rng, p, wild=False):
    """a timestep for which the explicit step is stable (unless wild)"""
    C = 4181000 * p["du"]
    CD = 4181000 * p["dl"]
    top = 0.7 / (abs(p["lambda0"] + p["efficacy"] * p["eta"]) / C + p["eta"] / CD + 1e-30)
    opts = [x for x in (YR, MONTH, 86400.0, 5 * YR, YR / 2, 3600.0, 10 * YR) if x < top]
    if rng.random() < 0.06:
        return rng.choice([1.0, 60.0, 3599.0, nice(rng, 0.5, 3600)])
    if wild:
        return rng.choice([YR, MONTH, 86400.0, 5 * YR, 20 * YR, nice(rng, 1e3, 1e10)])
    if opts and rng.random() < 0.7:
        return rng.choice(opts[:4])
    return lu(rng, top / 1000, top)


def ir_pars(rng, wild=False):
    d1 = nice(rng, 0.5, 30) * YR
    p = {"q1": nice(rng, 0.05, 1), "q2": nice(rng, 0.05, 1), "d1": d1, "d2": d1 * nice(rng, 1.6, 200),
         "efficacy": efficacy(rng)}
    r = rng.random()
    if r < 0.05:
        p["q2"] = p["q1"]
    elif r < 0.1:
        p["d2"] = 2 * p["d1"]
    elif r < 0.13:
        p["d2"] = p["d1"] * rng.uniform(1.02, 1.2)
    elif r < 0.18:
        p["d2"] *= lu(rng, 5, 1000)
    elif r < 0.2:
        p["q1"] = nice(rng, 1, 5)
    elif r < 0.22:
        p["efficacy"] = nice(rng, 2.5, 8)
    elif r < 0.25:
        p["q2"] = p["q1"] * lu(rng, 1e-4, 0.03)
    elif r < 0.28:
        p["q1"] = p["q2"] * lu(rng, 1e-4, 0.03)
    if wild:
        r = rng.random()
        if r < 0.1:
            p["q1"] *= 1e-6
        elif r < 0.2:
            p["q2"] *= 1e-6
        elif r < 0.35:
            p["d1"] *= 0.01
        elif r < 0.45:
            p["d2"] = p["d1"] * rng.uniform(1.01, 1.3)
    return p


def ir_dt(rng, p, wild=False):
    if rng.random() < 0.06:
        return rng.choice([1.0, 60.0, 3599.0, nice(rng, 0.5, 3600)])
    if wild and rng.random() < 0.3:
        return nice(rng, 1e4, 1e11)
    return rng.choice([YR, MONTH, YR / 2, 86400.0, 5 * YR, p["d1"] * rng.uniform(0.05, 2)])


def pars(rng, kind, **kw):
    return tl_pars(rng, **kw) if kind == "TL" else ir_pars(rng, wild=kw.get("wild", False))


def step_dt(rng, kind, p, wild=False):
    return tl_dt(rng, p, wild) if kind == "TL" else ir_dt(rng, p, wild)


def forcing(rng, n, shape=None):
    """Forcing values, now and then with special ones among them"""
    v = plain_forcing(rng, n, shape)
    return spice(rng, v) if shape in (None, "rand", "walk") and rng.random() < 0.15 else v


def spice(rng, v):
    if not v:
        return v
    v = list(v)
    r = rng.random()
    at = rng.choice([0, 0, len(v) - 1, max(len(v) - 2, 0), rng.randrange(len(v))])
    if r < 0.4:
        v[at] = rng.choice([1e-4, -1e-4, 1e-9, 5e-4, -2e-3])
    elif r < 0.65:
        v[at] = rng.choice([0.0, 0.0, -0.0])
    elif r < 0.75:
        v[at] = rng.choice([1e3, -1e3, 120.0, -60.0])
    elif r < 0.85:
        v = [v[0]] * (at + 1) + v[at + 1:]
    elif r < 0.93:
        v = [float(round(x)) for x in v]
    else:
        v = [abs(x) for x in v]
    return v


def plain_forcing(rng, n, shape=None):
    shape = shape or rng.choice(["ramp", "walk", "const", "pulse", "zero", "neg", "sine", "rand", "late", "tiny"])
    if shape == "ramp":
        f = rng.choice([0.05, 0.1, 3.74 / 70, -0.02])
        return [f * (i + rng.choice([0, 1])) for i in range(n)]
    if shape == "walk":
        out, x = [], rng.uniform(-1, 1)
        for _ in range(n):
            out.append(x)
            x += rng.gauss(0, 0.3)
        return out
    if shape == "const":
        return [rng.choice([3.74, 7.48, 1.0, -2.0, 4.0])] * n
    if shape == "pulse":
        out = [0.0] * n
        for _ in range(max(1, n // 6)):
            if n:
                out[rng.randrange(n)] = rng.uniform(-5, 8)
        return out
    if shape == "zero":
        return [0.0] * n
    if shape == "neg":
        return [-abs(rng.gauss(0, 3)) for _ in range(n)]
    if shape == "sine":
        return [3 * math.sin(i / rng.uniform(1.5, 4)) for i in range(n)]
    if shape == "late":
        return [0.0 if i < n // 2 else 4.0 for i in range(n)]
    if shape == "tiny":
        return [rng.gauss(0, 1e-6) for _ in range(n)]
    return [rng.uniform(-10, 10) for _ in range(n)]


def drv(rng, values, mixed=True, unit=None):
    if unit is None and all(v == int(v) for v in values) and values and rng.random() < 0.5:
        return {"t": "q", "v": [int(v) for v in values], "u": "W/m^2", "dtype": "int64"}
    if unit is None and rng.random() < 0.1:  # whole numbers of another unit
        u = rng.choice(["mW/m^2", "kW/km^2", "kJ/day/m^2"])
        try:
            return {"t": "q", "v": [int(Fraction(v) / FACTOR[u]) for v in values], "u": u, "dtype": rng.choice(["int64", "int64", "int32"])}
        except ValueError:
            pass
    if unit is not None and values and rng.random() < 0.5:
        v = [Fraction(x) / FACTOR[unit] for x in values]
        if all(x.denominator == 1 and abs(x) < 2**53 for x in v):
            return {"t": "q", "v": [int(x) for x in v], "u": unit, "dtype": "int64"}
    return q(rng, "erf", values, unit=unit, mixed=mixed)


def new(rng, o, kind, p, step=None, mixed=True, omit=()):
    qs = {n: q(rng, n, v, mixed=mixed) for n, v in p.items() if n not in omit}
    if step is not None:
        qs["delta_t"] = q(rng, "delta_t", step, mixed=mixed)
    return {"op": "new", "o": o, "kind": kind, "q": qs}


def whole(rng, p):
    """Makes one of the parameters a whole number of some unit: its name and the argument"""
    names = [k for k in ("du", "dl", "d1", "d2", "delta_t") if k in p]
    rng.shuffle(names)
    for k in names:
        us = [u for u in UNITS[DIM[k]] if u != NATIVE[DIM[k]] and 12 <= Fraction(p[k]) / FACTOR[u] < 10**6]
        if us:
            u = rng.choice(us)
            v = int(Fraction(p[k]) / FACTOR[u])
            p[k] = float(v * FACTOR[u])
            return k, {"t": "q", "v": v, "u": u}
    return None, None


def dri(rng, o, values, mixed=True, unit=None, via=None):
    return {"op": "drive", "o": o, "q": drv(rng, values, mixed, unit),
            "via": via or ("erf" if rng.random() < 0.15 else "set_drivers")}


def act(o, *names):
    return [{"op": n, "o": o} for n in names]


def go(rng, o, n, how=None):
    """reset and compute all n points, by running or stepping"""
    how = how or rng.choice(["run", "run", "step"])
    return act(o, "reset") + (act(o, "run") if how == "run" else act(o, *["step"] * n))


def length(rng, big=60):
    return rng.choice([1, 2, 3, 4, 5, 8, 12, 20, rng.randrange(2, 30), rng.randrange(20, big)])


def kinds(rng):
    return rng.choice(["TL", "TL", "IR"])


# ---------------------------------------------------------------------------
# time axes and scenario tables

def iso(*a):
    return dt.datetime(*a).isoformat()


def axis(rng, n, typ=None):
    """(times, what it is); may be unsorted"""
    typ = typ or rng.choice(["yearly", "yearly", "monthly", "midyear", "yearend", "mid-month", "month-end", "loose"])
    y0 = rng.choice([1750, 1850, 1999, 2000, 2015, 1900, 1896, 2095])
    if typ == "yearly":
        t = [dt.datetime(y0 + i, 1, 1) for i in range(n)]
    elif typ == "midyear":
        t = [dt.datetime(y0 + i, 7, 1, 12) for i in range(n)]
    elif typ == "yearend":
        t = [dt.datetime(y0 + i, 12, 31) for i in range(n)]
    elif typ == "loose":  # anywhere in consecutive years, more than 31 days apart
        t, last = [], None
        for i in range(n):
            while True:
                x = dt.datetime(y0 + i, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24))
                if last is None or x - last > dt.timedelta(days=31):
                    break
                if last.month == 12 and last.day > 20:
                    x = dt.datetime(y0 + i, 6, 1)
                    break
            t.append(x)
            last = x
    elif typ in ("monthly", "mid-month", "month-end"):
        m0 = rng.randrange(12)
        t = []
        for i in range(n):
            y, m = y0 + (m0 + i) // 12, (m0 + i) % 12 + 1
            if typ == "month-end":
                nxt = dt.datetime(y + (m == 12), m % 12 + 1, 1)
                t.append(nxt - dt.timedelta(days=1))
            else:
                t.append(dt.datetime(y, m, 1 if typ == "monthly" else 15, 0 if typ == "monthly" else 12))
    elif typ == "28days":
        t = [dt.datetime(y0, 1, 1) + dt.timedelta(days=28 * i) for i in range(n)]
    elif typ == "31days":
        t = [dt.datetime(y0, 1, 1) + dt.timedelta(days=31 * i) for i in range(n)]
    elif typ == "far":
        y = rng.choice([1, 200, 1500, 2300, 5000, 9000])
        t = [dt.datetime(y + i, 1, 1) for i in range(n)]
    elif typ == "newyear":  # consecutive years, just over 31 days
        t = [dt.datetime(y0, 12, 15), dt.datetime(y0 + 1, 1, 15, 1)]
    else:
        t = bad_axis(rng, n, typ, y0)
    out = [x.isoformat() for x in t]
    return out, typ


BAD_AXES = ["daily", "weekly", "27days", "31d1h", "27d23h", "32days", "quarterly", "biennial", "decadal", "mixed-my",
            "mixed-ym", "year-gap", "month-gap", "same-year", "hourly", "long-month", "twice-a-year"]


def bad_axis(rng, n, typ, y0):
    n = max(n, 3)
    b = dt.datetime(y0, 1, 1)
    td = dt.timedelta
    if typ == "daily":
        return [b + td(days=i) for i in range(n)]
    if typ == "weekly":
        return [b + td(days=7 * i) for i in range(n)]
    if typ == "27days":
        return [b + td(days=27 * i) for i in range(n)]
    if typ == "31d1h":
        return [b + td(days=31 * i, hours=i) for i in range(3)]
    if typ == "27d23h":
        return [b + td(days=28 * i, hours=-i) for i in range(3)]
    if typ == "32days":
        return [b + td(days=32 * i) for i in range(4)]
    if typ == "quarterly":
        return [dt.datetime(y0 + i // 4, 3 * (i % 4) + 1, 1) for i in range(n)]
    if typ == "biennial":
        return [dt.datetime(y0 + 2 * i, 1, 1) for i in range(n)]
    if typ == "decadal":
        return [dt.datetime(y0 + 10 * i, 1, 1) for i in range(n)]
    if typ == "mixed-my":
        t = [dt.datetime(y0, i + 1, 1) for i in range(10)]
        return t + [dt.datetime(y0 + 1 + i, 1, 1) for i in range(3)]
    if typ == "mixed-ym":
        t = [dt.datetime(y0 + i, 1, 1) for i in range(4)]
        return t + [dt.datetime(y0 + 3, i + 2, 1) for i in range(3)]
    if typ == "year-gap":
        k = rng.randrange(1, n)
        return [dt.datetime(y0 + i + (i >= k), 1, 1) for i in range(n)]
    if typ == "month-gap":
        k = rng.randrange(1, min(n, 10))
        return [dt.datetime(y0, i + 1 + (i >= k), 1) for i in range(min(n, 11))]
    if typ == "same-year":
        return [dt.datetime(y0, 1, 1), dt.datetime(y0, 12, 31)] + [dt.datetime(y0 + 1 + i, 12, 31) for i in range(2)]
    if typ == "hourly":
        return [b + td(hours=i) for i in range(n)]
    if typ == "twice-a-year":
        return [dt.datetime(y0 + i // 2, 1 + 6 * (i % 2), 1) for i in range(n)]
    if typ == "long-month":  # all but one step is a month
        t = [dt.datetime(y0, i + 1, 1) for i in range(min(n, 8))]
        return t[:-1] + [t[-1] + td(days=rng.choice([4, 9]))]
    raise AssertionError(typ)


EXTRA = [("ensemble_member", lambda r, i: i), ("source", lambda r, i: "v%d" % (i % 2)), ("stage", lambda r, i: 1.5 * i),
         ("mip_era", lambda r, i: "CMIP6"), ("note", lambda r, i: "a b, c|d"), ("du (meter)", lambda r, i: 12.5),
         ("climate_model", lambda r, i: r.choice(["other", "other %d" % i])), ("run_idx", lambda r, i: 7 + i),
         ("activity (x)", lambda r, i: "nothing"), ("scenario_id", lambda r, i: "ssp%d" % i),
         ("exceedance", lambda r, i: r.random() < 0.5)]


FLUXES = ["W/m^2", "W/m^2", "mW/m^2", "kW/m^2", "W/cm^2"] * 3 + ["10 W/m^2", "100 mW/m^2", "0.5 W/m^2", "W m^-2", "GJ/yr/km^2", "J/s/m^2"]


def row_vals(rng, n, ints=False):
    v = forcing(rng, n)
    if rng.random() < 0.5:
        v = [round(x, 2) for x in v]
    return v


def table(rng, nrows=None, n=None, typ=None, units=True, extra=True, other=True, container=None, var=ERF):
    """A table the model can run"""
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 14])
    times, typ = axis(rng, n, typ)
    n = len(times)
    nrows = nrows or rng.choice([1, 1, 2, 3, 3, 4] * 5 + [11])
    ex = rng.sample(EXTRA, rng.choice([0, 0, 1, 2, 3])) if extra else []
    partial = rng.random() < 0.25
    rows = []
    for i in range(nrows):
        meta = {"variable": var, "region": "World", "model": rng.choice(["m", "m2", "IAM x"]), "scenario": "scen %d" % i}
        if rng.random() < 0.2:
            meta["scenario"] = "zz%02d" % (nrows - i)
        for k, f in ex:
            if k == "exceedance" or not (partial and rng.random() < 0.4):
                meta[k] = f(rng, i)
        u = rng.choice(FLUXES) if units else "W/m^2"
        rows.append({"meta": meta, "unit": u, "vals": [float(Fraction(v) / FACTOR[u]) for v in row_vals(rng, n)]})
    twins(rng, rows, units)
    if other:
        rows += other_rows(rng, n, rng.choice([0, 0, 1, 2, 3]), var)
    order = list(range(len(rows)))
    rng.shuffle(order)
    tab = {"times": times, "rows": [rows[i] for i in order], "container": container or rng.choice(["scmrun"] * 8 + ["ts", "wide", "csv", "long"])}
    if rng.random() < 0.15 and n > 2:
        shuffle_times(rng, tab)
    return tab


def twins(rng, rows, units=True):
    """Makes scenarios agree in all but one thing"""
    if len(rows) < 2:
        return
    r = rng.random()
    if r < 0.2:  # names: all differ in one column only
        k = rng.choice(["model", "model", "ensemble_member", "version"])
        for i, x in enumerate(rows):
            x["meta"].update({"model": "m", "scenario": "scen"})
            x["meta"][k] = "m%d" % i if k == "model" else i
    r = rng.random()
    i, j = rng.sample(range(len(rows)), 2)
    if r < 0.15:  # the same numbers in other units
        us = ["W/m^2", "mW/m^2", "kW/m^2"]
        rng.shuffle(us)
        for x in rows:
            x["vals"] = list(rows[i]["vals"])
            if units:
                x["unit"] = us.pop() if us else "W/m^2"
    elif r < 0.25:  # the same forcing
        rows[j].update(unit=rows[i]["unit"], vals=list(rows[i]["vals"]))
    elif r < 0.32 and units:  # the same forcing in another unit
        u = rng.choice(["W/m^2", "mW/m^2", "kW/m^2"])
        rows[j].update(unit=u, vals=[float(Fraction(v) * FACTOR[rows[i]["unit"]] / FACTOR[u]) for v in rows[i]["vals"]])
    elif r < 0.4 and len(rows[i]["vals"]) > 1:  # the same but for one value
        k = rng.randrange(len(rows[i]["vals"]))
        rows[j].update(unit=rows[i]["unit"], vals=[v + (m == k) for m, v in enumerate(rows[i]["vals"])])
    elif r < 0.46:  # nearly the same
        rows[j].update(unit=rows[i]["unit"], vals=[near(rng, v) for v in rows[i]["vals"]])
    elif r < 0.56:  # the same values in another order, all or those between the ends
        v = list(rows[i]["vals"])
        k = len(v) > 3 and rng.random() < 0.6
        mid = v[1:-1] if k else v
        if rng.random() < 0.5:
            mid.reverse()
        else:
            rng.shuffle(mid)
        rows[j].update(unit=rows[i]["unit"], vals=v[:1] + mid + v[-1:] if k else mid)
        if rng.random() < 0.7:  # next to each other
            rows.insert(rows.index(rows[i]) + 1, rows.pop(j)) if i != j else None


def shuffle_times(rng, tab):
    o = list(range(len(tab["times"])))
    if rng.random() < 0.4:
        o.reverse()
    else:
        rng.shuffle(o)
    tab["times"] = [tab["times"][i] for i in o]
    for r in tab["rows"]:
        r["vals"] = [r["vals"][i] for i in o]


def other_rows(rng, n, k, var=ERF):
    """Rows that are no scenarios"""
    out = []
    for i in range(k):
        v, r = rng.choice([(var, "World|Northern Hemisphere"), (var, "world2"), (var + "|Aerosols", "World"),
                           ("Surface Temperature", "World"), ("Emissions|CO2", "World"), (var, "R5ASIA"),
                           (var + " (adjusted)", "World"), (var + "2", "World"), ("Net " + var, "World"),
                           (var.lower(), "World"), (var, "world"), (var, "World (R5)"), (var, "New World"),
                           (var.split("|")[0] + "|Solar", "World")])
        vals = [rng.uniform(-3, 3) for _ in range(n)]
        if n > 2 and rng.random() < 0.4:
            vals[rng.randrange(n)] = None
            vals[0] = 1.0 if vals[0] is None else vals[0]
        out.append({"meta": {"variable": v, "region": r, "model": "m", "scenario": "other %d" % i},
                    "unit": {"Surface Temperature": "K", "Emissions|CO2": "GtC/yr"}.get(v, "W/m^2"), "vals": vals})
    return out


def chosen(tab, var=ERF):
    return [r for r in tab["rows"] if r["meta"]["variable"] == var and r["meta"]["region"] == "World"]


def order_of(tab):
    return sorted(range(len(tab["times"])), key=lambda i: tab["times"][i])


def alone(rng, o, row, tab, exact=True):
    """The same scenario driven by hand"""
    v = [row["vals"][i] for i in order_of(tab) if row["vals"][i] is not None]
    return [{"op": "drive", "o": o, "q": {"t": "q", "v": v, "u": row["unit"]}, "via": "set_drivers"}] + act(o, "reset", "run")


def scen(o, tab, **kw):
    return dict({"op": "scen", "o": o, "tab": tab}, **kw)


def is_monthly(typ):
    return typ in ("monthly", "mid-month", "month-end", "28days", "31days")


def tab_dt(tab):
    """Timestep of a good table, base units"""
    t = sorted(dt.datetime.fromisoformat(x) for x in tab["times"])
    if len(t) > 1 and (t[1] - t[0]) <= dt.timedelta(days=31):
        return MONTH
    return YR


def use_before(rng, o, kind):
    """Earlier use of a model"""
    n = rng.choice([2, 3, 7])
    ops = [dri(rng, o, forcing(rng, n, "rand"))]
    ops += go(rng, o, n)
    if rng.random() < 0.5:
        ops += act(o, "reset", *["step"] * rng.randrange(0, n + 2))
    return ops


BADVALS = [{"t": "bool", "v": True}, {"t": "bool", "v": False}, {"t": "npfloat", "v": 1.0}, {"t": "npbool", "v": True}, {"t": "series", "v": [1.0]},
           {"t": "complex", "v": 1.0}, {"t": "array0", "v": 1.0}, {"t": "tuple", "v": 1.0}, {"t": "fraction", "v": 3.0},
           {"t": "float", "v": 1.5}, {"t": "int", "v": 2}, {"t": "str", "v": "3 m"}, {"t": "none"}, {"t": "array", "v": [1.0, 2.0]},
           {"t": "objarr", "u": "W/m^2"}, {"t": "objarr", "u": "yr"}, {"t": "qlist", "u": "m"}, {"t": "list", "v": [1.0]}, {"t": "unit", "v": "m"}, {"t": "float", "v": float("nan")}, {"t": "int", "v": 0}]


def bad_value(rng):
    return dict(rng.choice(BADVALS))


def wrong_dim(rng, name):
    other = [u for u, x in _U.items() if x["dim"] != DIM[name] and not u[0].isdigit()]
    # a few near misses more often than chance
    near_ = {"lambda0": ["W/m^2", "W/m^2/delta_degC^2", "delta_degC/(W/m^2)"], "a": ["W/m^2/delta_degC"], "eta": ["W/m^2"],
            "q1": ["W/m^2/delta_degC"], "q2": ["delta_degC"], "erf": ["W/m^2/delta_degC", "W", "J", "J/m^2", "dimensionless", "PW"], "efficacy": ["m"],
            "delta_t": ["m/s"], "d1": ["m"], "d2": ["speed"], "du": ["m^3"], "dl": ["kg"]}.get(name, [])
    near_ = [u for u in near_ if u in _U]
    u = rng.choice(near_) if near_ and rng.random() < 0.5 else rng.choice(other)
    return {"t": "q", "v": rng.choice([1.0, 0.0, -2.5, 50, 3, 1.0, float("nan"), float("inf")]), "u": u}


# ---------------------------------------------------------------------------
# properties

def laws(rng, i, kind, only=None):
    """Random parameters, timestep, forcing; stepping, running, scenarios, changes on the way"""
    wild = rng.random() < 0.4
    p = pars(rng, kind, wild=wild)
    d = step_dt(rng, kind, p, wild)
    n = length(rng) if i % 12 else rng.randrange(100, 200 if kind == "IR" else 300)
    if i % 60 == 24:
        n = rng.choice([260, 520, 750, 1100]) if kind == "TL" else rng.choice([260, 520])
    if i % 400 == 133:
        n = rng.randrange(2050, 2700) if kind == "TL" else rng.randrange(1100, 1400)
    omit = rng.sample(sorted(p), rng.choice([0, 0, 1, 2])) if rng.random() < 0.3 and kind == "TL" else ()
    wk, wq = whole(rng, p) if rng.random() < 0.1 else (None, None)
    if kind == "IR" and i % 30 == 9 and only == "boxes":  # timescales as good as the same
        p["d2"] = p["d1"] * (1 + lu(rng, 1e-6, 1e-2))
    ops = [new(rng, "x", kind, p, d, omit=omit)]
    if wk in ops[0]["q"]:
        ops[0]["q"][wk] = wq if wk != "d2" else ops[0]["q"][wk]
    ops += [dri(rng, "x", forcing(rng, n))] + go(rng, "x", n, "run" if n > 60 else None)
    r = rng.random()
    if r < 0.3:
        ops += reuse(rng, "x", kind, n)
    elif r < 0.6 or i % 200 == 77:
        tab = table(rng) if i % 200 != 77 else table(rng, nrows=1, n=rng.randrange(1100, 1900), typ="monthly", other=False)
        ops += [scen("x", tab)]
        if rng.random() < 0.3:
            ops += [dri(rng, "x", forcing(rng, 4))] + go(rng, "x", 4)
    elif r < 0.75:
        p2 = pars(rng, kind)
        for name in rng.sample(sorted(set(p2) - {"d1"}), 2):
            if name == "d2":
                p2["d2"] = p["d1"] * rng.uniform(1.5, 300)
            ops.append({"op": "set", "o": "x", "n": name, "q": q(rng, name, p2[name])})
        ops += go(rng, "x", n, "run")
    elif r < 0.92:
        ops += changing(rng, kind, p, d)
    return ops


def changing(rng, kind, p, d):
    """A run during which parameters, the timestep or the forcing are replaced"""
    n = rng.choice([4, 6, 9, 15])
    now = dict(p)
    ops = [dri(rng, "x", forcing(rng, n))] + act("x", "reset", "step", "step")
    for j in range(2, n):
        r = rng.random()
        if r < 0.25:
            ops.append({"op": "set", "o": "x", "n": "delta_t", "q": q(rng, "delta_t", d * rng.choice([0.5, 0.3, 1.0, 0.9, 2.0]))})
        elif r < 0.5:
            p2 = pars(rng, kind)
            k = rng.choice(sorted(p2))
            if k in ("d1", "d2"):
                p2[k] = now[k] * (rng.uniform(0.3, 0.99) if k == "d1" else rng.uniform(1.01, 5))
            now[k] = p2[k]
            ops.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, p2[k])})
        elif r < 0.55:
            ops.append(dri(rng, "x", forcing(rng, n)))
        ops += act("x", "step")
    return ops


def reuse(rng, o, kind, n):
    ops = []
    for _ in range(rng.choice([1, 2])):
        m = rng.choice([n, n, max(1, n - 2), n + 3, 1])
        r = rng.random()
        if r < 0.5:
            ops.append(dri(rng, o, forcing(rng, m)))
        elif r < 0.65:
            f = [round(4 * x) / 4 for x in forcing(rng, m)]
            ops += [dri(rng, o, f, unit="W/m^2")] + go(rng, o, m, "run" if m > 30 else None) + [dri(rng, o, permuted(rng, f), unit="W/m^2")]
        else:
            m = n
        ops += go(rng, o, m, "run" if m > 30 else None)
        n = m
    return ops


def g_C01(rng, i):
    return laws(rng, i, "TL")


def g_C02(rng, i):
    return laws(rng, i, "IR", "boxes")


def g_C03(rng, i):
    return laws(rng, i, "TL" if i % 2 else "IR")


def g_C04(rng, i):
    """Drivers that share a beginning"""
    kind = kinds(rng)
    p = pars(rng, kind)
    d = step_dt(rng, kind, p)
    n = rng.choice([2, 3, 5, 8, 13, 30])
    ops = [new(rng, "x", kind, p, d)]
    long_ = i % 16 == 5
    if long_:  # long series
        n = rng.choice([70, 130, 170, 260]) if kind == "TL" else rng.choice([70, 130, 170])
    base = forcing(rng, n, rng.choice(["rand", "walk", "ramp", "pulse", "const"]))
    drivers = [base]
    for _ in range(1 if long_ else rng.choice([2, 3, 4])):
        k = rng.choice([0, 1, n - 1, n - 1, rng.randrange(n), n])
        m = max(k, rng.choice([n, n, k, k + 1, n + 4, n + 11, 1]))
        m = max(m, 1)
        tail = forcing(rng, m, rng.choice(["rand", "const", "zero", "neg"]))
        big = rng.choice([1, 1, 50, -7])
        drivers.append((base[:k] + [big * x for x in tail])[:m])
    rng.shuffle(drivers)
    u = rng.choice(["W/m^2", "mW/m^2"])
    fresh = rng.random() < 0.3
    for j, v in enumerate(drivers):
        o = "x"
        if fresh and j:
            o = "x%d" % j
            ops.append(dict(ops[0], o=o))
        ops += [dri(rng, o, v, unit=u)] + go(rng, o, len(v))
    if rng.random() < 0.3:
        # the same through scenarios, including differing ends within one set
        n = rng.choice([3, 5, 8])
        tab = table(rng, nrows=3, n=n, units=False, extra=False, other=False, typ="yearly")
        rows = chosen(tab)
        k = rng.randrange(n)
        o = order_of(tab)
        for r in rows[1:]:
            for j in o[:k]:
                r["vals"][j] = rows[0]["vals"][j]
        ops.append(scen("x", tab))
    return ops


def g_C05(rng, i):
    """One model, expressed in several units"""
    kind = rng.choice(["TL", "IR"])
    p = pars(rng, kind, a=0.0 if rng.random() < 0.5 else None)
    d = step_dt(rng, kind, p)
    n = rng.choice([3, 5, 9, 20])
    v = forcing(rng, n, rng.choice(["rand", "walk", "ramp", "const"]))
    if rng.random() < 0.4:  # whole numbers in some units
        v = [round(4 * x) / 4 for x in v]
    ops = []
    conv = p.get("a", 0.0) == 0.0
    wk = None
    if rng.random() < 0.3:
        pd_ = dict(p, delta_t=d)
        wk, wq = whole(rng, pd_)
        d = pd_.pop("delta_t")
        p = pd_
    names = ["x%d" % j for j in range(rng.choice([2, 3]))]
    for j, o in enumerate(names):
        if j == 0:
            ops.append({"op": "new", "o": o, "kind": kind, "q": dict(
                {k: {"t": "q", "v": x, "u": NATIVE[DIM[k]]} for k, x in p.items()}, delta_t={"t": "q", "v": d, "u": "s"})})
            ops.append(dri(rng, o, v, unit="W/m^2", via="set_drivers"))
        else:
            one = rng.random() < 0.5  # only one argument in another unit
            which = rng.choice(sorted(p) + ["delta_t"])
            qs = {}
            for k, x in dict(p, delta_t=d).items():
                qs[k] = q(rng, k, x) if (not one or k == which) else {"t": "q", "v": x, "u": NATIVE[DIM[k]]}
                if one and k == which:
                    us = [u for u in UNITS[DIM[k]] if u != NATIVE[DIM[k]]]
                    if us:
                        qs[k] = q(rng, k, x, unit=rng.choice(us))
            if wk and (j == 1 or rng.random() < 0.5):
                qs[wk] = wq
            if rng.random() < 0.4:  # by assignment instead of at construction
                ops.append({"op": "new", "o": o, "kind": kind, "q": {}})
                order = sorted(qs)
                rng.shuffle(order)
                for k in order:
                    ops.append({"op": "set", "o": o, "n": k, "q": qs[k]})
            else:
                ops.append({"op": "new", "o": o, "kind": kind, "q": qs})
            ops.append(dri(rng, o, v, unit=rng.choice(UNITS["flux"])))
        ops += go(rng, o, n)
        if conv:
            ops.append({"op": "conv", "o": o, "id": "c%d" % j})
    if rng.random() < 0.5:
        # the same values in different units within one set, and alone
        n = rng.choice([3, 4, 7])
        vals = forcing(rng, n, "rand")
        times, typ = axis(rng, n, rng.choice(["yearly", "monthly"]))
        rows = []
        for j, u in enumerate(rng.sample([x for x in _U if _U[x]["dim"] == "flux"], 3) + ["W/m^2"]):
            rows.append({"meta": {"variable": ERF, "region": "World", "scenario": "s%d" % j, "model": "m"}, "unit": u,
                         "vals": [float(Fraction(x) / FACTOR[u]) for x in vals]})
        rng.shuffle(rows)
        o = rng.choice(names)
        ops.append(scen(o, {"times": times, "rows": rows}))
        for o2 in names:
            if o2 != o and rng.random() < 0.5:
                ops.append(scen(o2, {"times": times, "rows": rows}))
    return ops


def g_C06(rng, i):
    kind = kinds(rng)
    p = pars(rng, kind)
    d = step_dt(rng, kind, p)
    n = rng.choice([2, 3, 5])
    attrs = list(PARS[kind]) + ["delta_t", "erf"]
    ops = []
    # refused constructions
    for j in range(2):
        name = attrs[(i + j) % (len(attrs) - 1)]
        bad = bad_value(rng) if rng.random() < 0.5 else wrong_dim(rng, name)
        o = new(rng, "bad%d" % j, kind, p, d)
        if rng.random() < 0.5:
            o["q"] = {}
        o["q"][name] = bad
        ops.append(o)
    if kind == "IR":
        p2 = dict(p)
        r = rng.random()
        if r < 0.35:
            p2["d1"], p2["d2"] = p2["d2"], p2["d1"]
        elif r < 0.6:
            p2["d1"] = p2["d2"] = 10 * YR
        else:
            p2["d1"] = p2["d2"] * rng.choice([1.0001, 1.5, 40])
        o = new(rng, "bad9", kind, p2, d)
        if p2["d1"] == p2["d2"]:
            o["q"]["d1"] = {"t": "q", "v": 10.0, "u": "yr"}
            o["q"]["d2"] = {"t": "q", "v": 10.0, "u": "yr"}
        ops.append(o)
        if rng.random() < 0.5:  # only one of them given
            ops.append({"op": "new", "o": "bad8", "kind": kind, "q": {"d1": q(rng, "d1", rng.choice([400, 401, 900]) * YR, unit="yr")}})
            ops.append({"op": "new", "o": "bad7", "kind": kind, "q": {"d2": q(rng, "d2", rng.choice([9, 8.5, 1]) * YR, unit="yr")}})
    mine = new(rng, "x", kind, p, d)
    forced = forcing(rng, n)
    twin = [dict(mine, o="r"), dri(rng, "r", forced)] + go(rng, "r", n)  # never sees an unusable value
    first = rng.random() < 0.5
    if first:
        ops += twin
    ops.append(mine)
    if rng.random() < 0.8:
        ops += [dri(rng, "x", forced)]
        ops += act("x", "reset")
        k = rng.choice([0, 1, n])
        ops += act("x", *["step"] * k)
    else:
        k = n

    def attempts(m):
        out = []
        for _ in range(m):
            name = rng.choice(attrs)
            if rng.random() < 0.25:
                name = "erf"
            if name == "erf":
                r = rng.random()
                if r < 0.25:
                    b = {"t": "shape2", "v": [[1.0, 2.0], [3.0, 4.0]], "u": rng.choice(["W/m^2", "m"])}
                elif r < 0.4:
                    b = {"t": "shape0", "v": 1.5, "u": rng.choice(["W/m^2", "K"])}
                elif r < 0.5:
                    b = {"t": "shape2", "v": [[1.0], [3.0]], "u": "W/m^2"}
                elif r < 0.7:
                    b = {"t": "array", "v": [1.0, 2.0, 3.0][: rng.choice([2, 3])]}
                else:
                    w = wrong_dim(rng, "erf")
                    b = {"t": "q", "v": [float(w["v"])] * rng.choice([n, n, n, 0, 1]), "u": w["u"]}
                out.append({"op": "drive", "o": "x", "q": b, "via": "set_drivers"})
                if r > 0.5 and rng.random() < 0.5:
                    out.append({"op": "drive", "o": "x", "via": "erf", "q": bad_value(rng) if rng.random() < 0.5 else b})
            else:
                b = bad_value(rng) if rng.random() < 0.5 else wrong_dim(rng, name)
                out.append({"op": "set", "o": "x", "n": name, "q": b})
        return out

    ops += attempts(4)
    if k < n:
        ops += act("x", "step")
    ops += attempts(2)
    if rng.random() < 0.5:
        for j in range(len(attrs) - 1):
            b = bad_value(rng) if (i + j) % 2 else wrong_dim(rng, attrs[j])
            ops.append({"op": "set", "o": "x", "n": attrs[j], "q": b})
    if k < n:
        ops += act("x", *["step"] * max(0, n - k - 1))  # ends the run begun above
    if rng.random() < 0.7:
        ops += [dri(rng, "x", forced)] + go(rng, "x", n)
    if not first:
        ops += twin
    ops += [dict(new(rng, "y", kind, p, d)), dri(rng, "y", forced)] + go(rng, "y", n)
    return ops


def g_C07(rng, i):
    kind = kinds(rng)
    p = pars(rng, kind)
    d = step_dt(rng, kind, p)
    if i % 200 == 61:  # many steps
        n = rng.randrange(1030, 1300)
        ops = [new(rng, "x", kind, p, d), dri(rng, "x", forcing(rng, n, "walk"))] + act("x", "reset")
        while n > 0:
            m = min(n, rng.choice([1, 100, 254, 255, 256, 511, 512, 999, rng.randrange(1, 700)]))
            ops.append({"op": "step", "o": "x", "m": m})
            n -= m
        return ops + act("x", "step")
    n = rng.choice([1, 2, 3, 4, 6])
    v = forcing(rng, n, "rand")
    u = rng.choice(["W/m^2", "mW/m^2"])
    ref = new(rng, "r", kind, p, d)
    ops = [ref] + [dri(rng, "r", v, unit=u)] + go(rng, "r", n, "run")
    ops.append(dict(ref, o="x"))
    if rng.random() < 0.3:
        ops += act("x", "reset")  # no drivers yet
    for _ in range(rng.choice([2, 3, 4])):
        r = rng.random()
        if r < 0.15:
            m = rng.choice([1, 2, 5])
            w = forcing(rng, m, "rand")
            w[rng.randrange(m)] = float("nan")
            ops += [{"op": "drive", "o": "x", "q": {"t": "q", "v": w, "u": "W/m^2"}, "via": rng.choice(["erf", "set_drivers"])}]
            ops += act("x", "reset")
        elif r < 0.5:
            m = rng.choice([0, 1, 2, 3, 7, 15])
            ops += [dri(rng, "x", forcing(rng, m))]
            ops += act("x", "reset")
            ops += act("x", *["step"] * rng.choice([0, 1, max(m - 1, 0), m, m + 1, m + 3]))
            if rng.random() < 0.3:
                ops += act("x", "reset", "run")
        elif r < 0.6:
            m = rng.choice([2, 5])
            ops += [dri(rng, "x", forcing(rng, m))] + act("x", "reset", "run", "step", "step")
        elif r < 0.75:
            ops += [dri(rng, "x", v, unit=u)] + act("x", "reset", "run", "run")
        else:
            ops += [scen("x", table(rng, nrows=1, extra=False))]
            ops += [{"op": "set", "o": "x", "n": "delta_t", "q": ref["q"]["delta_t"]}]
        if rng.random() < 0.6:
            ops += [dri(rng, "x", v, unit=u)] + go(rng, "x", n)
            if rng.random() < 0.4:
                ops += act("x", *["step"] * rng.choice([1, 2]))
            if rng.random() < 0.4:
                ops += go(rng, "x", n)
    ops += [dri(rng, "x", v, unit=u)] + go(rng, "x", n)
    return ops


def g_C08(rng, i):
    """Assignments before, between and after the steps of runs"""
    kind = kinds(rng)
    p = pars(rng, kind)
    d = step_dt(rng, kind, p)
    n = rng.choice([2, 4, 6, 10])
    names = list(PARS[kind]) + ["delta_t"]
    zeros = ("lambda0", "efficacy", "eta", "a") if kind == "TL" else ("efficacy",)
    nil = rng.random() < 0.3  # zeros among the values
    if nil:
        p[rng.choice(zeros)] = 0.0
    ops = [new(rng, "x", kind, p, d)]
    now = dict(p, delta_t=d)

    def change(name=None, m=1):
        out = []
        for _ in range(m):
            k = name or rng.choice(names)
            p2 = pars(rng, kind)
            if kind == "IR":
                if rng.random() < 0.7:
                    p2["d1"], p2["d2"] = min(p2["d1"], 30 * YR), max(p2["d2"], 45 * YR)
            val = step_dt(rng, kind, dict(p, **{k: p2[k]}) if k in p2 else p) if k == "delta_t" else p2[k]
            if k == "delta_t":
                val = min(val, d)
            if k == "efficacy" and rng.random() < 0.4:
                val = 1.0
            if k == "a" and rng.random() < 0.5 or nil and k in zeros and rng.random() < 0.6:
                val = 0.0
            if rng.random() < 0.12:  # x.du *= 2 and the like
                f = rng.choice([2.0, 0.5, 1.25])
                if not (kind == "IR" and k in ("d1", "d2")) and not (k == "delta_t" and f > 1):
                    ops_aug = {"op": "set", "o": "x", "n": k, "aug": f, "q": q(rng, k, now[k])}
                    now[k] *= f
                    out.append(ops_aug)
                    continue
            if rng.random() < 0.2:  # nearly what it was
                val = near(rng, now[k])
            now[k] = val
            out.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, val)})
            if rng.random() < 0.15:
                out.append(dict(out[-1]))  # the same value again
            if rng.random() < 0.15 and k in p and not (kind == "IR" and k in ("d1", "d2")):
                out.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, p[k])})  # back
                now[k] = p[k]
        return out

    first = names[i % len(names)]
    ops += change(first)
    more = {"op": "drive", "o": "x", "via": "erf", "aug": rng.choice([2.0, 0.5]), "q": {"t": "none"}}
    ops += [dri(rng, "x", forcing(rng, n, rng.choice(["rand", "walk", "ramp", "const"])))]
    if rng.random() < 0.15:
        ops += [more] + act("x", "reset", "run") + [dict(more)]
    ops += act("x", "reset")
    for j in range(n):
        if rng.random() < 0.4 and j:
            ops += change(rng.choice([first, None]), rng.choice([1, 1, 2]))
        if rng.random() < 0.05 and j:  # the forcing scaled on the way
            ops += [dict(more)]
        if rng.random() < 0.1 and j:  # new forcing of the same length on the way
            ops += [dri(rng, "x", forcing(rng, n, "rand"))]
        ops += act("x", "step")
    ops += change(first)
    if rng.random() < 0.5:
        ops += act("x", "reset", "run")
    if rng.random() < 0.4:
        ops += change() + [scen("x", table(rng, nrows=rng.choice([1, 2]), extra=False))] + change()
        if rng.random() < 0.5:
            ops += [scen("x", table(rng, nrows=1, extra=False))]
    if rng.random() < 0.4 and not nil:
        ops += [{"op": "set", "o": "x", "n": "a", "q": q(rng, "a", 0.0)}] if kind == "TL" else []
        ops += [{"op": "conv", "o": "x", "id": "c"}] if kind == "IR" or ops[-1].get("n") == "a" else []
    return ops


def script(rng, o, kind, n, p=None, d=None, v=None, omit=None, share=False, plain=False):
    """What one instance does, for interleaving"""
    p = p or pars(rng, kind)
    d = d or step_dt(rng, kind, p)
    if omit is None:
        omit = rng.sample(sorted(p), rng.choice([0, 1, len(p) - 1])) if kind == "TL" else ()
    first = new(rng, o, kind, p, d, omit=omit, mixed=not share)
    if share:  # the quantities themselves are shared with other instances
        first["q"] = {k: dict(x, sh=True) for k, x in first["q"].items()}
    out = [first]
    conv = [{"op": "conv", "o": o, "id": "c" + o}] if kind == "IR" or p["a"] == 0 or "a" in omit else []
    if rng.random() < 0.5:
        out += conv
    x = drv(rng, v or forcing(rng, n, "rand"), mixed=not share, unit="W/m^2" if plain else None)
    out += [{"op": "drive", "o": o, "q": dict(x, sh=True) if share else x, "via": "set_drivers"}]
    out += act(o, "reset") + (act(o, *["step"] * n) if rng.random() < 0.7 else act(o, "run"))
    if rng.random() < 0.4:
        p2 = pars(rng, kind)
        k = rng.choice(["efficacy", "dl" if kind == "TL" else "q1"])
        out.append({"op": "set", "o": o, "n": k, "q": q(rng, k, p2[k])})
        out += act(o, "reset", "run")
        out += conv
    if rng.random() < 0.3:
        out.append(scen(o, table(rng, nrows=rng.choice([1, 2]), extra=False, n=rng.choice([2, 4]))))
        out += [{"op": "set", "o": o, "n": "delta_t", "q": first["q"]["delta_t"]}]
    if rng.random() < 0.4:
        out += conv
    out += [dri(rng, o, forcing(rng, n, "walk"))] + act(o, "reset", "run")
    return out


def permuted(rng, v):
    """The same values in another order, or the same ends"""
    v = list(v)
    r = rng.random()
    if r < 0.25 and len(v) > 2:
        v[1:-1] = [x + rng.choice([1.0, -0.5]) for x in v[1:-1]]
    elif r < 0.65:
        v.reverse()
    else:
        rng.shuffle(v)
    return v


def family(rng, kind, k, n):
    """Scripts of instances that differ in one parameter, or not at all"""
    close = rng.random() < 0.35
    p = pars(rng, kind, **({"a": 0.0} if close or rng.random() < 0.5 else {}))
    d = step_dt(rng, kind, p)
    v = forcing(rng, n, "rand")
    if rng.random() < 0.5:
        v = [round(4 * x) / 4 for x in v]
    plain = rng.random() < 0.4
    out = []
    one = rng.choice(["efficacy", "efficacy", None] + [x for x in PARS[kind] if x not in ("d1", "d2")])
    share = rng.random() < 0.4
    alike = rng.choice(["lambda0", "eta", "du", "dl"] if kind == "TL" else ["q1", "q2"]) if not close and rng.random() < 0.25 else None
    if alike and kind == "TL":
        p["a"] = 0.0
    if close and rng.random() < 0.7:
        one = rng.choice(["efficacy", "lambda0", "eta", "du", "dl"] if kind == "TL" else ["efficacy", "q1", "q2"])
    for j in range(k):
        p2, d2, v2 = dict(p), d, v
        if j and one:
            p2[one] = pars(rng, kind)[one] if one != "a" else rng.choice([0.0, 0.01])
            if close:
                p2[one] = near(rng, p[one])
        if j and rng.random() < 0.15:
            d2 = near(rng, d) if close else d / 2
        r = rng.random()
        if j and r < 0.25:
            v2 = [near(rng, x) for x in v] if close else forcing(rng, n, "rand")
        elif j and r < 0.55:
            v2 = permuted(rng, v)
        out.append(script(rng, "x%d" % j, kind, n, p2, d2, v2, omit=(), share=share, plain=plain))
        if j and alike:
            out[j][0]["q"] = json.loads(json.dumps(out[0][0]["q"]))
            x = out[j][0]["q"][alike]
            us = [u for u in UNITS[DIM[alike]] if u != x["u"] and 0.25 < FACTOR[u] / FACTOR[x["u"]] < 4]
            x["u"] = rng.choice(us or [x["u"]])
    return out


def rename(ops, o, o2):
    out = []
    for x in ops:
        y = dict(x)
        if y.get("o") == o:
            y["o"] = o2
        if y.get("id") == "c" + o:
            y["id"] = "c" + o2
        out.append(y)
    return out


def unshared(ops):
    out = []
    for op in ops:
        op = dict(op)
        if op["op"] == "new":
            op["q"] = {n: {k: v for k, v in x.items() if k != "sh"} for n, x in op["q"].items()}
        elif op["op"] == "drive":
            op["q"] = {k: v for k, v in op["q"].items() if k != "sh"}
        out.append(op)
    return out


def copied(rng, ops, k):
    """Deep copies made on the way, which go on as their source does, or otherwise, later"""
    for m in range(rng.choice([1, 1, 2])):
        src, name = "x%d" % rng.randrange(k), "k%d" % m
        mine = [j for j, x in enumerate(ops) if x.get("o") == src]
        if not mine:
            continue
        at = rng.choice(mine) + 1
        rest = [x for x in rename(ops[at:], src, name) if x.get("o") == name]
        for x in rest:
            if x["op"] == "conv":
                x["id"] = "c" + name
        new_ = [{"op": "copy", "o": name, "src": src}]
        r = rng.random()
        if r < 0.3:
            new_ += act(name, *["step"] * rng.choice([0, 1, 2]))
        elif r < 0.5:
            rest = [dri(rng, name, forcing(rng, 3))] + act(name, "reset", "run") + rest
        ops = ops[:at] + new_ + ops[at:]
        at += len(new_)
        for x in rest:  # in their order, anywhere among the others'
            at = rng.randint(at, len(ops)) if rng.random() < 0.5 else at
            ops.insert(at, x)
            at += 1
    return ops


def g_C09(rng, i):
    k = rng.choice([2, 2, 3])
    n = rng.choice([1, 1, 2, 3, 5])
    ks = [rng.choice(["TL", "IR"]) for _ in range(k)]
    if rng.random() < 0.6:
        ks = [ks[0]] * k
    if rng.random() < 0.5:
        ks = [ks[0]] * k
        scripts = family(rng, ks[0], k, n)
    else:
        scripts = [script(rng, "x%d" % j, ks[j], n) for j in range(k)]
    ops = []
    solo = rng.random() < 0.6
    pre = [{"op": "new", "o": "d0", "kind": ks[0], "q": {}}] if rng.random() < 0.6 else []
    ops += pre
    if solo and rng.random() < 0.5:
        for j in range(k):
            ops += unshared(rename(scripts[j], "x%d" % j, "y%d" % j))
        solo = False
    at = [0] * k
    while any(at[j] < len(scripts[j]) for j in range(k)):
        j = rng.choice([j for j in range(k) if at[j] < len(scripts[j])])
        m = rng.choice([1, 1, 2, 4])
        ops += scripts[j][at[j]: at[j] + m]
        at[j] += m
        if pre and rng.random() < 0.05:
            ops.append({"op": "set", "o": "d0", "n": "efficacy", "q": q(rng, "efficacy", 1.7)})
    if solo:
        for j in range(k):
            ops += unshared(rename(scripts[j], "x%d" % j, "y%d" % j))
    if rng.random() < 0.6:
        ops = copied(rng, ops, k)
    ops.append({"op": "new", "o": "d1", "kind": ks[0], "q": {}})
    ops.append({"op": "new", "o": "d2", "kind": ks[-1], "q": {}})
    if rng.random() < 0.5:
        ops += [dri(rng, "d1", forcing(rng, 3))] + act("d1", "reset", "run")
    return ops


def odd_values(rng, kind, p):
    """Values which are usable though nothing physical has them"""
    for k in rng.sample(["lambda0", "efficacy", "eta", "a"] if kind == "TL" else ["q1", "q2", "efficacy"], rng.choice([1, 1, 2])):
        p[k] = rng.choice([-1.0, -0.3, 0.0, -1.2]) if k != "a" else rng.choice([-0.3, 0.1, 1e-12])
    return p


def scen_model(rng, o="x", kind=None, used=True, stable=True, odd=False):
    kind = kind or rng.choice(["TL", "TL", "IR"])
    p = pars(rng, kind)
    if kind == "TL":
        p["du"] = max(p["du"], 30.0)  # stable with yearly steps
        p["efficacy"] = min(p["efficacy"], 1.8)
        p["eta"] = min(p["eta"], 1.2)
        p["lambda0"] = min(p["lambda0"], 2.5)
    d = step_dt(rng, kind, p)
    if odd:
        odd_values(rng, kind, p)
    if rng.random() < 0.2:  # nearly what the scenarios will ask for
        d = rng.choice([365 * 86400.0, 366 * 86400.0, 360 * 86400.0, 30 * 86400.0, 31 * 86400.0, 365.2425 * 86400, near(rng, YR), near(rng, MONTH)])
    ops = [new(rng, o, kind, p, d, mixed=rng.random() < 0.5)]
    if used and rng.random() < 0.4:
        ops += use_before(rng, o, kind)
    return kind, ops


def g_C10(rng, i):
    kind, ops = scen_model(rng, odd=rng.random() < 0.1)
    var = rng.choice([None, None, None, "Radiative Forcing", "Effective Radiative Forcing|CO2"])
    nrows = rng.choice([None, None, 2, 3, 12, 13]) if i % 3 == 0 else None
    tab = table(rng, var=var or ERF, nrows=nrows, n=3 if nrows and nrows > 5 else None)
    kw = {"var": var} if var else {}
    if var and rng.random() < 0.5:  # rows of the standard variable, not asked for
        tab["rows"].insert(rng.randrange(len(tab["rows"])), {
            "meta": {"variable": ERF if var != ERF else "x", "region": "World", "scenario": "not asked", "model": "m"},
            "unit": "W/m^2", "vals": [1.0] * len(tab["times"])})
    if rng.random() < 0.3:
        r = rng.choice(chosen(tab, var or ERF))
        edge_nan(rng, r, tab)
    again = rng.random() < 0.2
    ops.append(scen("x", tab, progress=rng.random() < 0.1, **dict(kw, hold=True) if again else kw))
    if again:  # results as scenarios, of the same or another model
        o = "x"
        if rng.random() < 0.6:
            _, o2 = scen_model(rng, "w")
            ops += o2
            o = "w"
        ops.append(dict({"op": "scen", "o": o, "again": "out:0", "frame": rng.random() < 0.4}, **kw))
        if rng.random() < 0.3 and not var:
            ops.append({"op": "scen", "o": o, "again": "out:0", "var": "Surface Temperature"})
    if rng.random() < 0.5:
        p2 = pars(rng, kind)
        k = rng.choice(sorted(set(p2) - {"d1", "d2", "du"}))
        ops.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, p2[k])})
        ops.append(scen("x", table(rng)))
    return ops


def abut(rng, tab):
    """Makes scenarios follow each other in time: historical and future ones"""
    rows, n, o = chosen(tab), len(tab["times"]), order_of(tab)
    if len(rows) < 2 or n < 4:
        return
    k = rng.randrange(2, n - 1)
    for j, r in enumerate(rows):
        hist = j == 0 or len(rows) > 2 and rng.random() < 0.2
        over = rng.choice([0, 0, 0, 1, -1])
        for m in range(n):
            if hist == (m >= (k if hist else k + over)):
                r["vals"][o[m]] = None
        if j == 0 and rng.random() < 0.5:
            r["meta"]["scenario"] = "historical"


def edge_nan(rng, row, tab, most=None):
    """Missing values before the first or after the last value"""
    o = order_of(tab)
    n = len(o)
    if n < 2:
        return
    lead = rng.choice([0, 0, 1, 2, n - 1])
    trail = rng.choice([0, 0, 1, 2, n - 1])
    if lead + trail == 0:
        lead = 1
    if n > 4 and rng.random() < 0.3:  # any part of it
        lead, trail = sorted(rng.sample(range(n + 1), 2))
        trail = n - trail
        if lead + trail == 0:
            lead = 1
    if lead + trail >= n:
        lead, trail = (n - 1, 0) if rng.random() < 0.5 else (0, n - 1)
    for j in o[:lead] + (o[n - trail:] if trail else []):
        row["vals"][j] = None


def g_C11(rng, i):
    kind, ops = scen_model(rng)
    first = ops[0]
    tab = table(rng, nrows=rng.choice([1, 2, 3, 4, 11]) if i % 5 == 0 else None, n=rng.choice([2, 3, 5, 9]))
    if i % 200 == 33:  # a long axis
        tab = table(rng, nrows=1, n=rng.randrange(1100, 1700), typ=rng.choice(["monthly", "month-end"]))
    if rng.random() < 0.2:
        abut(rng, tab)
    elif rng.random() < 0.3:
        edge_nan(rng, rng.choice(chosen(tab)), tab)
    d = {"t": "q", "v": tab_dt(tab), "u": "s"}

    def by_hand():
        o = "h"
        out = [dict(first, o=o)]
        out.append({"op": "set", "o": o, "n": "delta_t", "q": d})
        rows = chosen(tab)
        for r in rng.sample(rows, min(len(rows), 4)):
            out += alone(rng, o, r, tab)
        return out

    before = rng.random() < 0.5
    if before:
        ops += by_hand()
    ops.append(scen("x", tab, progress=rng.random() < 0.2))
    r = rng.random()
    tab2 = json.loads(json.dumps(tab))
    rng.shuffle(tab2["rows"])
    if r < 0.35:
        tab2["container"] = rng.choice(["ts", "wide", "scmrun", "csv", "long"])
        ops.append(scen("x", tab2, progress=True))
    elif r < 0.7:
        keep = rng.sample(chosen(tab2), 1)
        tab2["rows"] = keep + [x for x in other_rows(rng, len(tab["times"]), 2)]
        rng.shuffle(tab2["rows"])
        ops.append(scen("x", tab2))
    elif len(tab["times"]) > 2:
        shuffle_times(rng, tab2)
        ops.append(scen("x", tab2))
    if not before:
        ops += by_hand()
    return ops


def g_C12(rng, i):
    odd = rng.random() < 0.15
    kind, ops = scen_model(rng, odd=odd)
    if kind == "TL" and not odd:
        ops[0]["q"]["a"] = q(rng, "a", 0.0)
    tab = table(rng)
    ops += [{"op": "conv", "o": "x", "id": "c0", "hold": True}]
    if rng.random() < 0.3:
        edge_nan(rng, rng.choice(chosen(tab)), tab)
    ops.append(scen("x", tab, hold=True))
    r = rng.random()
    if rng.random() < 0.4:
        ops.append({"op": "tamper", "h": rng.choice(["out:0", "out:0", "in:0", "par:c0"])})
        if ops[-1]["h"] == "par:c0" and rng.random() < 0.7:
            ops.append({"op": "conv", "o": "x", "id": "c8"})
    if r < 0.3:
        ops.append(scen("x", tab, hold=True))
        if rng.random() < 0.6:
            ops.append({"op": "tamper", "h": rng.choice(["out:0", "out:1", "in:1"])})
    elif r < 0.7:
        ops.append(scen("x", table(rng), hold=True))
    elif r < 0.85:
        ops.append({"op": "scen", "o": "x", "again": "out:0", "hold": True, "frame": rng.random() < 0.4})
    p2 = pars(rng, kind)
    for k in rng.sample(sorted(set(p2) - {"a"}), 2):
        if k not in ("d1", "d2"):
            ops.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, p2[k])})
    n = len(tab["times"])
    ops += [dri(rng, "x", forcing(rng, n))] + act("x", "reset", "run")
    # a call that fails must not touch its input either
    bad = table(rng, container="scmrun")
    rr = rng.random()
    if rr < 0.4:
        bad["times"], _ = axis(rng, len(bad["times"]), rng.choice(BAD_AXES))
        bad["rows"] = [dict(r, vals=(r["vals"] * 30)[: len(bad["times"])]) for r in bad["rows"]]
        bad["rows"] = [r for r in bad["rows"] if any(v is not None for v in r["vals"])]
    elif rr < 0.7:
        rng.choice(chosen(bad))["unit"] = rng.choice(["K", "W", "GtC/yr"])
    else:
        for r in bad["rows"]:
            r["meta"] = dict(r["meta"], region="World|X")
    ops.append(scen("x", bad, hold=True))
    ops += [{"op": "conv", "o": "x", "id": "c1", "hold": True}]
    if rng.random() < 0.5:
        ops.append(scen("x", tab, hold=True))
    if odd:
        ops = [o for o in ops if o["op"] != "conv" and o.get("h") != "par:c0"]
    return ops


def stray(rng, times):
    """An axis with one point moved, left out or added: usable or not"""
    t = [dt.datetime.fromisoformat(x) for x in times]
    k = rng.randrange(len(t))
    r = rng.random()
    if r < 0.7:
        by = rng.choice([1, -1]) * rng.choice([dt.timedelta(days=rng.randrange(1, 25)), dt.timedelta(hours=rng.randrange(1, 30)),
                                               dt.timedelta(seconds=1), dt.timedelta(days=rng.choice([1, 2, 3]))])
        if dt.datetime(2, 1, 1) < t[k] < dt.datetime(9990, 1, 1):
            t[k] += by
    elif r < 0.85:
        del t[k]
    else:
        t.insert(k, t[k] + dt.timedelta(days=rng.choice([1, 14, 30, 40])))
    return [x.isoformat() for x in sorted(set(t))]


def g_C13(rng, i):
    kind, ops = scen_model(rng, kind=rng.choice(["TL", "TL", "TL", "IR"]))
    r = rng.random()
    for _ in range(rng.choice([2, 3])):
        if rng.random() < 0.5:
            n = rng.choice([1, 2, 3, 5, 13, 26])
            typ = rng.choice(["yearly", "midyear", "yearend", "loose", "monthly", "mid-month", "month-end", "28days", "31days",
                              "far", "newyear", "monthly", "mid-month"])
        else:
            n = rng.choice([3, 4, 6])
            typ = rng.choice(BAD_AXES)
        times, typ = axis(rng, n, typ)
        if len(times) > 2 and rng.random() < 0.25:
            times, typ = stray(rng, times), "stray"
        n = len(times)
        rows = [{"meta": {"variable": ERF, "region": "World", "scenario": "s%d" % j, "model": "m"}, "unit": "W/m^2",
                 "vals": forcing(rng, n, "rand")} for j in range(rng.choice([1, 2]))]
        tab = {"times": times, "rows": rows}
        if rng.random() < 0.2 and n > 2:
            shuffle_times(rng, tab)
        if typ not in BAD_AXES and typ != "stray" and rng.random() < 0.2:
            edge_nan(rng, rows[0], tab)
        ops.append(scen("x", tab))
        if typ not in BAD_AXES and typ != "stray" and n > 1:  # by hand, with the timestep the axis asks for
            hand = [dict(ops[0], o="h")] if not any(x.get("o") == "h" for x in ops) else []
            hand += [{"op": "set", "o": "h", "n": "delta_t", "q": {"t": "q", "v": MONTH if is_monthly(typ) else YR, "u": "s"}}]
            ops += hand + alone(rng, "h", rows[0], tab)
        if rng.random() < 0.3:
            ops.append({"op": "set", "o": "x", "n": "delta_t", "q": q(rng, "delta_t", rng.choice([YR, MONTH, 86400.0]))})
    return ops


def g_C14(rng, i):
    kind, ops = scen_model(rng)
    first = ops[0]
    tab = table(rng, n=rng.choice([3, 4, 5, 8, 14, 25]), nrows=rng.choice([1, 2, 3]), typ=rng.choice(["yearly", "yearly", "monthly", "midyear"]))
    rows = chosen(tab)
    gap = rng.random() < 0.35
    for r in rows:
        if rng.random() < 0.7:
            edge_nan(rng, r, tab)
    if not gap and all(r["vals"][0] is not None for r in rows):
        edge_nan(rng, rows[0], tab)
    if gap:
        r = rng.choice(rows)
        n = len(tab["times"])
        o = order_of(tab)
        r["vals"] = forcing(rng, n, "rand")
        k = rng.randrange(1, n - 1)
        r["vals"][o[k]] = None
        if n > 4 and rng.random() < 0.3:
            r["vals"][o[0]] = None
            k = 2
            r["vals"][o[1]] = 1.5
            r["vals"][o[2]] = None
            r["vals"][o[3]] = 0.5
    d = {"t": "q", "v": tab_dt(tab), "u": "s"}
    hand = [dict(first, o="h"), {"op": "set", "o": "h", "n": "delta_t", "q": d}]
    if not gap:
        for r in rows:
            hand += alone(rng, "h", r, tab)
    before = rng.random() < 0.5
    if before:
        ops += hand
    ops.append(scen("x", tab))
    if not before:
        ops += hand
    if not gap and rng.random() < 0.5:
        # only the points that have values
        r = rng.choice(rows)
        keep = [j for j in order_of(tab) if r["vals"][j] is not None]
        t2 = {"times": [tab["times"][j] for j in keep], "rows": [dict(r, vals=[r["vals"][j] for j in keep])], "container": "scmrun"}
        if len(keep) > 1:  # the time axis of a single point says nothing
            ops.append(scen("x", t2))
    return ops


def g_C15(rng, i):
    kind, ops = scen_model(rng)
    first = ops[0]
    fresh = "h"
    for _ in range(rng.choice([1, 2])):
        tab = table(rng, nrows=rng.choice([1, 2, 3, 4]), container=rng.choice(["scmrun", "scmrun", "ts"]))
        rows = chosen(tab)
        r = rng.random()
        if r < 0.35:
            how = rng.choice(["region", "variable", "both", "case"])
            for x in rows:
                if how in ("region", "both"):
                    x["meta"]["region"] = rng.choice(["World|Land", "R5OECD"])
                if how in ("variable", "both"):
                    x["meta"]["variable"] = rng.choice(["Forcing", ERF + "|CO2", "Surface Temperature"])
                if how == "case":
                    x["meta"]["region"] = "world"
        elif r < 0.75:
            x = rng.choice(rows)
            x["unit"] = rng.choice(["K", "W", "GtC/yr", "kg", "W/m^2/delta_degC", "m", "dimensionless", wrong_dim(rng, "erf")["u"]])
            if len(rows) > 1:
                x = rows[-1]
        elif r < 0.9 and len(tab["times"]) > 2:
            o = order_of(tab)
            x = rng.choice(rows)
            x["vals"] = forcing(rng, len(o), "rand")
            x["vals"][o[1]] = None
        else:
            tab["times"], _ = axis(rng, 4, rng.choice(BAD_AXES))
            for x in tab["rows"]:
                x["vals"] = forcing(rng, len(tab["times"]), "rand")
        ops.append(scen("x", tab))
    n = rng.choice([2, 4])
    v = forcing(rng, n, "rand")
    good = table(rng, nrows=rng.choice([1, 2]))
    if rng.random() < 0.6:
        ops += [dict(first, o=fresh), scen("x", good), scen(fresh, good)]
    else:
        ops += [dict(first, o=fresh), {"op": "set", "o": "x", "n": "delta_t", "q": first["q"]["delta_t"]}]
        for o in ("x", fresh):
            ops += [dri(rng, o, v, unit="W/m^2")] + go(rng, o, n)
    return ops


def g_C16(rng, i):
    kind = "TL" if i % 2 else "IR"
    p = pars(rng, kind, a=0.0)
    mixed = rng.random() < 0.7
    omit = rng.sample(sorted(p), rng.choice([1, 2, 4])) if rng.random() < 0.3 and kind == "TL" else ()
    if kind == "TL" and rng.random() < 0.15:
        p["du"], p["dl"] = p["dl"], p["du"]
    ops = [new(rng, "x", kind, p, step_dt(rng, kind, p), mixed=mixed, omit=omit)]
    if kind == "TL" and rng.random() < 0.5:
        av = rng.choice([1, -1]) * rng.choice([0.05, 1e-9, 3.0])
        ops += [{"op": "set", "o": "x", "n": "a", "q": q(rng, "a", av)}, {"op": "conv", "o": "x", "id": "c9"}]
        ops += [{"op": "set", "o": "x", "n": "a", "q": q(rng, "a", 0.0)}]
    if rng.random() < 0.4:
        ops += [dri(rng, "x", forcing(rng, 3))] + act("x", "reset", "step", "step")
    if rng.random() < 0.2:  # the owner empties what an earlier conversion returned
        ops += [{"op": "conv", "o": "x", "id": "cc", "hold": True}, {"op": "tamper", "h": "par:cc"}]
    other = "IR" if kind == "TL" else "TL"
    ops += [{"op": "conv", "o": "x", "id": "c0"}, {"op": "new", "o": "y", "kind": other, "from": "c0", "q": {}},
            {"op": "conv", "o": "y", "id": "c1"}, {"op": "new", "o": "z", "kind": kind, "from": "c1", "q": {}},
            {"op": "conv", "o": "z", "id": "c2"}]
    p2 = pars(rng, kind, a=0.0)
    ks = ["efficacy", rng.choice(["dl", "eta", "lambda0", "du"] if kind == "TL" else ["q1", "q2"])]
    for k in rng.sample(ks, rng.choice([1, 2])):
        ops.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, p2[k])})
        ops.append({"op": "conv", "o": "x", "id": "e" + k})
        if rng.random() < 0.3:
            ops.append({"op": "set", "o": "x", "n": k, "q": q(rng, k, near(rng, p2[k]))})
            ops.append({"op": "conv", "o": "x", "id": "n" + k})
    if rng.random() < 0.3:
        ops.append(scen("x", table(rng, nrows=1, extra=False)))
        ops.append({"op": "conv", "o": "x", "id": "c7"})
    if rng.random() < 0.3:  # two of them exchanged
        one, two = ("q1", "q2") if kind == "IR" else rng.choice([("du", "dl"), ("lambda0", "eta")])
        p3 = dict(p)
        p3[one], p3[two] = p[two], p[one]
        if kind == "IR" or p3["du"] < 4 * p3["dl"]:
            for j, v in enumerate((p, p3)):
                ops += [{"op": "set", "o": "x", "n": k, "q": {"t": "q", "v": v[k], "u": NATIVE[DIM[k]]}} for k in sorted(p) if k not in ("d1", "d2", "a")]
                ops.append({"op": "conv", "o": "x", "id": "s%d" % j})
    return ops


def g_C17(rng, i):
    kind = "TL" if i % 3 else "IR"
    p = pars(rng, kind, a=0.0)
    d = rng.choice([YR, MONTH, 5 * YR, YR / 4, 86400.0 * 10])
    n = rng.choice([2, 3, 6, 15, 40])
    v = forcing(rng, n, rng.choice(["rand", "walk", "ramp", "const", "pulse"]))
    step = q(rng, "delta_t", d)
    other = "IR" if kind == "TL" else "TL"
    ops = [new(rng, "x", kind, p, d), {"op": "conv", "o": "x", "id": "c0"},
           {"op": "new", "o": "y", "kind": other, "from": "c0", "q": {"delta_t": step}}]
    ir, tl = ("y", "x") if kind == "TL" else ("x", "y")
    if rng.random() < 0.4:
        # through scenarios: the impulse response run is the first one recorded
        tab = table(rng, nrows=1, extra=False)
        ops += [scen(ir, tab), {"op": "equiv", "ir": 1, "tl": tl}]
    else:
        ops += [dri(rng, ir, v)] + go(rng, ir, n, "run") + [{"op": "equiv", "ir": 1, "tl": tl}]
        if n <= 15 and rng.random() < 0.5:
            # the two models come together as the timestep is refined
            slow = {"du": max(p["du"], 40.0)} if kind == "TL" else {}
            C = 4181000 * (p["du"] if kind == "TL" else 100)
            if kind == "TL":
                dd = 0.1 * C / (p["lambda0"] + p["efficacy"] * p["eta"])
                dd = min(dd, 0.1 * 4181000 * p["dl"] / p["eta"])
                n = 12
                v = forcing(rng, n, rng.choice(["ramp", "const"]))
                v = [x + 0.5 for x in v] if not any(v) else v
                v2 = [x for x in v for _ in (0, 1)]
                ops += [{"op": "set", "o": o, "n": "delta_t", "q": q(rng, "delta_t", dd)} for o in ("x", "y")]
                for o in ("x", "y"):
                    ops += [dri(rng, o, v, unit="W/m^2")] + act(o, "reset", "run")
                ops += [{"op": "set", "o": o, "n": "delta_t", "q": q(rng, "delta_t", dd / 2)} for o in ("x", "y")]
                for o in ("x", "y"):
                    ops += [dri(rng, o, v2, unit="W/m^2")] + act(o, "reset", "run")
                ops += [{"op": "disc", "x": 2, "y": 3, "x2": 4, "y2": 5}]
    return ops


def g_C18(rng, i):
    kind = "TL" if i % 2 else "IR"
    p = pars(rng, kind, a=0.0)
    ops = []
    if i % 4 < 2:  # linearity
        d = step_dt(rng, kind, p)
        n = rng.choice([3, 6, 15, 40])
        ops.append(new(rng, "x", kind, p, d))
        f, g = forcing(rng, n, "rand"), forcing(rng, n, rng.choice(["ramp", "pulse", "const", "neg"]))
        al, be = rng.choice([2.0, -1.0, 0.5, 1.0, 100.0, -0.001]), rng.choice([1.0, 0.0, -3.0, 0.25])
        if rng.random() < 0.2:
            al = be = 0.0
        h = [al * a + be * b for a, b in zip(f, g)]
        for v in (f, g, h):
            ops += [dri(rng, "x", v, unit="W/m^2")] + go(rng, "x", n, "run")
        ops.append({"op": "lin", "i": 1, "j": 2, "k": 3, "al": al, "be": be})
        if rng.random() < 0.5:
            ops += [dri(rng, "x", [0.0] * n)] + go(rng, "x", n, "run")
            ops.append({"op": "lin", "i": 1, "j": 1, "k": 4, "al": 0.0, "be": 0.0})
    else:  # constant forcing
        n = rng.choice([60, 150, 250]) if kind == "TL" else rng.choice([40, 80])
        F = rng.choice([3.74, 1.0, 8.5, -2.0, 0.01])
        if kind == "TL":
            p["dl"] = nice(rng, p["du"], 20 * p["du"])
            C, CD = 4181000 * p["du"], 4181000 * p["dl"]
            b = (p["lambda0"] + p["efficacy"] * p["eta"]) / C + p["eta"] / CD
            d = rng.uniform(0.1, 0.45) / b
            slow = (p["lambda0"] * p["eta"] / C / CD) / b
            if rng.random() < 0.5:
                n = min(int(45 / (slow * d)) + 2, 700)
        else:
            d = p["d2"] * rng.choice([1.2, 0.05, 0.3])
        ops.append(new(rng, "x", kind, p, d))
        ops += [dri(rng, "x", [F] * n)] + go(rng, "x", n, "run")
        ops.append({"op": "eq", "i": 1})
    return ops


def g_C19(rng, i):
    ops = []

    def lam():
        r = rng.random()
        u = rng.choice(UNITS["fb"])
        if r < 0.12:
            return {"t": "q", "v": [float(Fraction(rng.choice([-1, 1]) * nice(rng, 0.05, 8)) / FACTOR[u]) for _ in range(rng.choice([1, 2, 3]))], "u": u}
        if r < 0.2:  # whole numbers
            return {"t": "q", "v": [rng.choice([-1, -2, -3, 1, 4, -7]) for _ in range(rng.choice([1, 3]))], "u": u, "dtype": rng.choice(["int64", "int32"])}
        if r < 0.3:
            return {"t": "q", "v": rng.choice([-1, -2, -3, 1, 4, -7]), "u": u}
        x = rng.choice([-1, -1, -1, 1]) * rng.choice([nice(rng, 0.05, 8), nice(rng, 1e-6, 1e3), 1.0, 3.74 / 3])
        return q(rng, "lambda0", x)

    for _ in range(8):
        op = {"op": "ecs", "lam": lam()}
        if rng.random() < 0.6:
            op["f"] = q(rng, "erf", rng.choice([-1, 1, 1, 1, 1, 0]) * nice(rng, 0.01, 20))
        if rng.random() < 0.2:
            u = rng.choice(UNITS["flux"])
            if isinstance(op["lam"]["v"], list):
                m = len(op["lam"]["v"])
            else:
                m = rng.choice([1, 2, 4])
            op["f"] = {"t": "q", "v": [float(Fraction(nice(rng, 0.01, 20)) / FACTOR[u]) for _ in range(m)], "u": u}
        if rng.random() < 0.5:  # the same objects in several calls
            op["lam"] = dict(op["lam"], sh=True)
            if "f" in op:
                op["f"] = dict(op["f"], sh=True)
            ops.append(dict(op))
            if rng.random() < 0.5:
                ops.append(dict({k: v for k, v in op.items() if k != "f"}))
            if "f" in op and not isinstance(op["f"]["v"], list):
                ops.append(dict(op, lam=lam()))
        ops.append(op)
    bad = lambda: rng.choice([{"t": "float", "v": 1.1}, {"t": "int", "v": 1}, {"t": "str", "v": "a"}, {"t": "none"},
                              {"t": "array", "v": [1.0]}, {"t": "int", "v": 0}, {"t": "unit", "v": "W/m^2"}])
    ops.append({"op": "ecs", "lam": bad()})
    ops.append({"op": "ecs", "lam": lam(), "f": bad()})
    ops.append({"op": "ecs", "lam": bad(), "f": q(rng, "erf", 3.7)})
    ops.append({"op": "ecs", "lam": lam()})
    if i % 6 == 0:
        # the warming a model approaches under constant doubling
        p = tl_pars(rng, a=0.0)
        p["dl"] = nice(rng, p["du"], 5 * p["du"])
        C, CD = 4181000 * p["du"], 4181000 * p["dl"]
        b = (p["lambda0"] + p["efficacy"] * p["eta"]) / C + p["eta"] / CD
        d = 0.4 / b
        n = min(int(45 / (p["lambda0"] * p["eta"] / C / CD / b * d)) + 2, 600)
        ops.append(new(rng, "x", "TL", p, d))
        ops += [dri(rng, "x", [3.74] * n)] + go(rng, "x", n, "run") + [{"op": "eq", "i": 1}]
        ops.append({"op": "ecs", "lam": q(rng, "lambda0", -p["lambda0"])})
    return ops


# ---------------------------------------------------------------------------
# behaviours of the specification

def from_life(walk, kinds, rng):
    """A behaviour of spec/Lifecycle.tla as operations on the real objects"""
    ops, used = [], {}
    scale = rng.choice([1.0, 1.0, -0.4, 2.5])
    unit = rng.choice(UNITS["flux"][:4] + ["W/m^2"])
    for o, kind in kinds.items():
        p = pars(rng, kind)
        d = step_dt(rng, kind, p)
        knob = rng.choice(PARS[kind])
        p2 = pars(rng, kind)
        alt = p2[knob]
        if knob == "d1":
            alt = p["d1"] * rng.uniform(0.3, 1.4)
        elif knob == "d2":
            alt = p["d2"] * rng.uniform(1.1, 3)
        if alt == p[knob]:
            alt = p[knob] * 1.25 + (0.01 if knob == "a" else 0)
        used[o] = {"kind": kind, "p": p, "d": d, "knob": knob, "alt": alt, "on": False, "half": False, "mixed": rng.random() < 0.5}
    for a in walk:
        o, op = a["o"], a["op"]
        u = used[o]
        if op == "new":
            ops.append(new(rng, o, u["kind"], u["p"], u["d"], mixed=u["mixed"]))
        elif op == "newbad":
            x = new(rng, o, u["kind"], u["p"], u["d"], mixed=u["mixed"])
            n = rng.choice(list(PARS[u["kind"]]) + ["delta_t"])
            x["q"][n] = bad_value(rng) if rng.random() < 0.5 else wrong_dim(rng, n)
            ops.append(x)
        elif op == "copy":
            used[o] = dict(used[a["src"]])
            ops.append({"op": "copy", "o": o, "src": a["src"]})
        elif op == "setpar":
            u["on"] = not u["on"]
            ops.append({"op": "set", "o": o, "n": u["knob"], "q": q(rng, u["knob"], u["alt"] if u["on"] else u["p"][u["knob"]], mixed=u["mixed"])})
        elif op == "setdt":
            u["half"] = not u["half"]
            ops.append({"op": "set", "o": o, "n": "delta_t", "q": q(rng, "delta_t", u["d"] / 2 if u["half"] else u["d"], mixed=u["mixed"])})
        elif op == "drive":
            v = [float("nan") if x == 99 else scale * x for x in a["d"]]
            ops.append({"op": "drive", "o": o, "q": q(rng, "erf", v, unit=unit) if not any(map(math.isnan, v)) else
                        {"t": "q", "v": v, "u": "W/m^2"}, "via": rng.choice(["set_drivers", "set_drivers", "erf"])})
        elif op in ("reset", "step", "run"):
            ops.append({"op": op, "o": o})
        elif op == "setbadshape":
            b = rng.choice([{"t": "shape2", "v": [[1.0, 2.0]], "u": "W/m^2"}, {"t": "shape0", "v": 2.0, "u": "W/m^2"}])
            ops.append({"op": "drive", "o": o, "q": b, "via": "set_drivers"})
        else:
            n = rng.choice(list(PARS[u["kind"]]) + ["delta_t", "erf"])
            b = bad_value(rng) if op == "setbadtype" else wrong_dim(rng, n)
            if n == "erf":
                if b["t"] == "q":
                    b = dict(b, v=[float(b["v"])] * 2)
                elif b["t"] != "array":
                    b = {"t": "array", "v": [1.0]}
                ops.append({"op": "drive", "o": o, "q": b, "via": rng.choice(["set_drivers", "erf"])})
            else:
                ops.append({"op": "set", "o": o, "n": n, "q": b})
    return unlooked(rng, ops)


def system_tables(rng):
    """One concrete table for each name in spec/System.tla"""
    good, month = (table(rng, nrows=rng.choice([1, 2, 3]), n=rng.choice([2, 4, 6]), typ=t, extra=rng.random() < 0.3)
                   for t in (rng.choice(["yearly", "midyear"]), rng.choice(["monthly", "mid-month"])))
    nodata = copy.deepcopy(good)
    for r in nodata["rows"]:
        if r["meta"]["region"] == "World":
            r["meta"]["region"] = rng.choice(["World|Land", "world", "R5ASIA"])
    axis_ = copy.deepcopy(good)
    axis_["times"], _ = axis(rng, len(axis_["times"]), rng.choice(BAD_AXES))
    for r in axis_["rows"]:
        r["vals"] = ([1.0 if v is None else v for v in r["vals"]] * 30)[: len(axis_["times"])]
    unit2 = table(rng, nrows=rng.choice([2, 3]), n=4, typ="yearly", units=False, extra=False)
    chosen(unit2)[-1]["unit"] = rng.choice(["K", "W", "GtC/yr"])
    gap2 = table(rng, nrows=2, n=5, typ="yearly", extra=False)
    row = chosen(gap2)[-1]
    row["vals"] = [1.0 + j for j in range(len(gap2["times"]))]
    row["vals"][order_of(gap2)[2]] = None
    return {"good": good, "month": month, "nodata": nodata, "axis": axis_, "unit2": unit2, "gap2": gap2}


def from_system(walk, kinds, rng):
    """A behaviour of spec/System.tla as operations on the real objects"""
    used, tabs, ops, n, slot = {}, system_tables(rng), [], 0, None
    for o, kind in kinds.items():
        (first,) = scen_model(rng, o, kind, used=False)[1]
        knob = rng.choice(["lambda0", "dl", "efficacy", "eta"] if kind == "TL" else ["q1", "q2", "efficacy"])
        alt = pars(rng, kind)[knob]
        used[o] = {"first": first, "knob": knob, "alt": q(rng, knob, min(alt, 2.0) if kind == "TL" and knob != "dl" else alt), "on": False,
                   "a": [q(rng, "a", rng.choice([0.02, -0.01, 1e-6])), q(rng, "a", 0.0)], "aon": True,
                   "drv": drv(rng, forcing(rng, rng.choice([1, 3, 5])))}
        if kind == "TL":
            first["q"]["a"] = used[o]["a"][0]
    hold = rng.random() < 0.6
    for a in walk:
        o, op = a["o"], a["op"]
        u = used[o]
        if op in ("new", "newfrom"):
            u["on"], u["aon"] = False, op == "new"
            ops.append(u["first"] if op == "new" else
                       {"op": "new", "o": o, "kind": kinds[o], "from": slot, "q": {"delta_t": u["first"]["q"]["delta_t"]}})
        elif op == "knob":
            u["on"] = not u["on"]
            ops.append({"op": "set", "o": o, "n": u["knob"], "q": u["alt"] if u["on"] else u["first"]["q"][u["knob"]]})
        elif op == "a":
            u["aon"] = not u["aon"]
            ops.append({"op": "set", "o": o, "n": "a", "q": u["a"][0 if u["aon"] else 1]})
        elif op == "hand":
            ops += [{"op": "drive", "o": o, "q": u["drv"], "via": "set_drivers"}] + go(rng, o, len(u["drv"]["v"]))
        elif op == "scen":
            ops.append(scen(o, tabs[a["x"]], hold=hold))
        elif op == "conv":
            n += 1
            ops.append({"op": "conv", "o": o, "id": "c%d" % n, "hold": hold})
            if a["res"] == "ok":
                slot = "c%d" % n
        else:
            raise AssertionError(op)
    return unlooked(rng, ops)


def num(l):
    """logged number as a float"""
    return float(Fraction(_int(l), 10**40)) if l and l[0] in (-1, 0, 1) else None


def from_scenarios(group, rng):
    """Calls of spec/Scenarios.tla, one after the other on one model"""
    kind, prior = group[0]["kind"], group[0]["prior"]
    p = pars(rng, kind)
    if kind == "TL":
        p["du"], p["efficacy"], p["eta"], p["lambda0"] = max(p["du"], 30.0), min(p["efficacy"], 1.8), min(p["eta"], 1.2), min(p["lambda0"], 2.5)
    ops = [new(rng, "x", kind, p, step_dt(rng, kind, p), mixed=False)]
    if prior == "used":
        ops += use_before(rng, "x", kind)
    for g in group:
        epoch = dt.datetime(1970 + 4 * rng.choice([0, 5, -18]), 1, 1)
        # whole four-year periods keep leap years where they are
        times = [(epoch + dt.timedelta(days=d, seconds=s)).isoformat() for d, s in g["tab"]["times"]]
        rows = [{"meta": dict(r["meta"], model="m"), "unit": r["unit"], "vals": [num(v) for v in r["vals"]]} for r in g["tab"]["rows"]]
        if not rows:
            continue
        ops.append(scen("x", {"times": times, "rows": rows}))
    return ops


def twist(rng, ops):
    """Now and then assigns the magnitude an attribute has already, in another unit"""
    cur, kind, out = {}, {}, []

    def other(q_, dim):
        us = [u for u in UNITS[dim] if u != q_["u"] and 0.25 < FACTOR[u] / FACTOR[q_["u"]] < 4]
        return rng.choice(us) if us else None

    for op in ops:
        o = op.get("o")
        if op["op"] == "new":
            kind[o] = op["kind"]
            for n in PARS[op["kind"]] + ("delta_t", "erf"):
                cur.pop((o, n), None)
            if not any(x["t"] != "q" for x in op["q"].values()):
                cur.update({(o, n): x for n, x in op["q"].items() if op.get("from") is None or n == "delta_t"})
        if "aug" in op:
            cur.pop((o, op.get("n", "erf")), None)
        elif op["op"] in ("set", "drive"):
            n = op.get("n", "erf")
            x, old = op["q"], cur.get((o, n))
            if x["t"] == "q" and x["u"] in UNITS[DIM[n]]:
                u = other(old, DIM[n]) if old and rng.random() < 0.2 else None
                if u and n in ("d1", "d2"):
                    e = cur.get((o, "d2" if n == "d1" else "d1"))
                    mine = Fraction(old["v"]) * FACTOR[u]
                    if e is None or (Fraction(e["v"]) * FACTOR[e["u"]] > mine) != (n == "d1"):
                        u = None
                if u:
                    op = dict(op, q=dict(old, u=u))
                cur[(o, n)] = op["q"]
        if op["op"] == "scen":
            cur.pop((o, "erf"), None)
            cur.pop((o, "delta_t"), None)
        out.append(op)
    return out


TWIST = {"C01", "C02", "C03", "C08", "C09", "C12"}
GEN = {k[2:]: v for k, v in list(globals().items()) if k.startswith("g_C")}


def unlooked(rng, ops):
    """Leaves the objects unobserved after some operations (all but the last)"""
    if rng.random() < 0.5:
        return ops
    share = rng.choice([0.3, 0.7, 0.95])
    return [dict(op, lite=True) if rng.random() < share and i < len(ops) - 1 else op for i, op in enumerate(ops)]


def apart(rng, ops, which):
    """Moves what some objects do to processes of their own, done first"""
    mine, rest = {}, []
    for op in ops:
        if op.get("o", "")[:1] in which:
            mine.setdefault(op["o"], []).append(op)
        else:
            rest.append(op)
    return [{"op": "apart", "ops": unlooked(rng, x)} for _, x in sorted(mine.items())] + unlooked(rng, rest)


# objects that show what the others would do on their own
REFERENCE = {"C06": "ry", "C07": "r", "C09": "y", "C11": "h", "C13": "h", "C14": "h", "C15": "h"}


def trace(prop, seed, i):
    rng = random.Random("%s/%s/%d" % (prop, seed, i))
    ops = GEN[prop](rng, i)
    if prop in TWIST and rng.random() < 0.7:
        ops = twist(rng, ops)
    if prop in REFERENCE and rng.random() < 0.5:
        return apart(rng, ops, REFERENCE[prop])
    return unlooked(rng, ops)


def traces(prop, seed, count, start=0):
    return [trace(prop, seed, i) for i in range(start, start + count)]
