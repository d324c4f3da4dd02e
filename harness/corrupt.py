"""Corrupts recorded traces: the specification must reject them.  Every check does this on
each run, so that a check that has stopped looking is an error and not a pass."""
import copy
from fractions import Fraction

from recorder import SCALE, limbs


def _int(l):
    n = 0
    for d in reversed(l[1:]):
        n = n * 10000 + d
    return n * l[0] if len(l) > 1 else 0


def finite(l):
    return bool(l) and l[0] in (-1, 0, 1)


def bump(l, rel=Fraction(1, 10**4), abs_=Fraction(1, 10**3)):
    x = Fraction(_int(l), SCALE)
    return limbs(round((x + abs(x) * rel + abs_) * SCALE))


def _output(ev, key, which):
    """Bump an output of the event's object"""
    b = ev["obs"][ev["o"]]
    js = [j for j, v in enumerate(b[key]) if finite(v)]
    if not js:
        return False
    j = js[which]
    b[key][j] = bump(b[key][j])
    return True


def first(key):
    def f(ev, tr, i):
        if ev["op"] not in ("step", "run") or not ev["ok"]:
            return False
        if ev["op"] == "step" and sum(map(finite, ev["obs"][ev["o"]][key])) != 1:
            return False  # not the first step
        return _output(ev, key, 0)
    return f


def last(key):
    def f(ev, tr, i):
        if ev["op"] not in ("step", "run") or not ev["ok"] or not all(finite(v) for v in ev["obs"][ev["o"]][key]):
            return False
        return len(ev["obs"][ev["o"]][key]) > 1 and _output(ev, key, -1)
    return f


def later(key):
    """The last value of a run that is not the first of its object's model"""
    def f(ev, tr, i):
        before = [e for e in tr[:i] if e["op"] == "run" and e["ok"]]
        return ev["op"] == "run" and bool(before) and last(key)(ev, tr, i)
    return f


def refused(ev, tr, i):
    """A refused assignment that was not refused"""
    if ev["op"] in ("set", "new") and not ev["ok"]:
        ev["err"] = ["KeyError", "Exception"]
        return True
    return False


def effect(ev, tr, i):
    """A refused assignment that had an effect"""
    if ev["op"] == "set" and not ev["ok"] and "dt" in ev["obs"][ev["o"]]:
        b = ev["obs"][ev["o"]]
        b["dt"] = bump(b["dt"])
        return True
    return False


def undone(ev, tr, i):
    """A reset that leaves a value"""
    if ev["op"] == "reset" and ev["ok"] and ev["obs"][ev["o"]]["A"]:
        ev["obs"][ev["o"]]["A"][-1] = limbs(SCALE)
        return True
    return False


def skipped(ev, tr, i):
    """A step that computes nothing"""
    if ev["op"] == "step" and ev["ok"]:
        b = ev["obs"][ev["o"]]
        js = [j for j, v in enumerate(b["A"]) if v != []]
        if js:
            b["A"][js[-1]] = []
            return True
    return False


def other_par(ev, tr, i):
    """An assignment that changes another parameter too"""
    if ev["op"] == "set" and ev["ok"] and "par" in ev["obs"][ev["o"]]:
        b = ev["obs"][ev["o"]]["par"]
        for n in b:
            if n != ev["n"]:
                b[n] = bump(b[n])
                return True
    return False


def ignored(ev, tr, i):
    """An assignment that is not read back"""
    if ev["op"] == "set" and ev["ok"] and "par" in ev["obs"][ev["o"]]:
        b = ev["obs"][ev["o"]]
        if ev["n"] == "delta_t":
            b["dt"] = bump(b["dt"])
        else:
            b["par"][ev["n"]] = bump(b["par"][ev["n"]])
        return True
    return False


def neighbour(ev, tr, i):
    """An operation that changes an output of another object"""
    if "o" not in ev:
        return False
    for n, b in ev["obs"].items():
        if n != ev["o"] and any(finite(v) for v in b["A"]):
            j = [j for j, v in enumerate(b["A"]) if finite(v)][-1]
            b["A"][j] = bump(b["A"][j])
            return True
    return False


def unlike(ev, tr, i):
    """A copy that is not in its source's state"""
    if ev["op"] == "copy" and ev["ok"] and "par" in ev["obs"][ev["o"]]:
        ev["obs"][ev["o"]]["dt"] = bump(ev["obs"][ev["o"]]["dt"])
        return True
    return False


def _scen(ev):
    return ev["op"] == "scen" and ev["ok"] and ev["out"]["rows"]


def dropped(ev, tr, i):
    if _scen(ev):
        ev["out"]["rows"].pop()
        return True
    return False


def mislabelled(ev, tr, i):
    if _scen(ev):
        ev["out"]["rows"][-1]["model"] = "someone"
        return True
    return False


def scen_value(ev, tr, i):
    """A result of a scenario that has been run by hand before"""
    if _scen(ev) and any(e["op"] == "run" and e["ok"] for e in tr[:i]):
        for r in ev["out"]["rows"]:
            if r["variable"].startswith("Surface"):
                js = [j for j, v in enumerate(r["vals"]) if finite(v)]
                if len(js) > 1:
                    r["vals"][js[-1]] = bump(r["vals"][js[-1]])
                    return True
    return False


def twin(ev, tr, i):
    """A run by hand of a scenario, before or after the scenarios are run"""
    return any(_scen(e) for e in tr) and ev["op"] == "run" and ev["o"] == "h" and last("A")(ev, tr, i)


def scen_gap(ev, tr, i):
    """A missing result"""
    if _scen(ev):
        r = ev["out"]["rows"][-1]
        js = [j for j, v in enumerate(r["vals"]) if finite(v)]
        if len(js) > 1:
            r["vals"][js[-1]] = []
            return True
    return False


def scen_dt(ev, tr, i):
    if _scen(ev):
        b = ev["obs"][ev["o"]]
        b["dt"] = bump(b["dt"])
        return True
    return False


def scen_par(ev, tr, i):
    if ev["op"] == "scen":
        b = ev["obs"][ev["o"]]["par"]
        n = sorted(b)[0]
        b[n] = bump(b[n])
        return True
    return False


def scen_error(ev, tr, i):
    if ev["op"] == "scen" and not ev["ok"] and "NotImplementedError" not in ev["err"]:
        ev["err"] = ["KeyError", "Exception"]
        return True
    return False


def scen_axis(ev, tr, i):
    if ev["op"] == "scen" and not ev["ok"] and "NotImplementedError" in ev["err"]:
        ev["err"] = ["KeyError", "Exception"]
        return True
    return False


def held(ev, tr, i):
    if i and tr[i - 1].get("held") and ev.get("held"):
        for h in ev["held"]:
            if h in tr[i - 1]["held"]:
                ev["held"][h] = "0" * 40
                return True
    return False


def converted(ev, tr, i):
    if ev["op"] == "conv" and ev["ok"]:
        n = sorted(ev["out"])[-1]
        for n in sorted(ev["out"]):
            if finite(ev["out"][n]):
                ev["out"][n] = bump(ev["out"][n])
                return True
    return False


def before(op):
    """The last output of a run that is compared later on"""
    def f(ev, tr, i):
        return any(e["op"] == op for e in tr[i:]) and last("A")(ev, tr, i)
    return f


def ecs(ev, tr, i):
    if ev["op"] == "ecs" and ev["ok"] and ev["out"] and finite(ev["out"][0]):
        ev["out"][0] = bump(ev["out"][0])
        return True
    return False


def version(ev, tr, i):
    for o in ev.get("obs", []):
        if o["version"] and o["src"] != "dir":
            o["version"] += "0"
            return True
    return False


def dirty(ev, tr, i):
    for o in ev.get("obs", []):
        if o["src"] == "checkout":
            o["dirty"] = "no" if o["dirty"] == "yes" else "yes"
            return True
    return False


def dated(ev, tr, i):
    for o in ev.get("obs", []):
        if o["src"] == "checkout":
            o["date"] = o["date"][:-1] + ("1" if o["date"].endswith("0") else "0")
            return True
    return False


KINDS = {
    "C01": [first("A"), last("A"), last("B")],
    "C02": [first("A"), last("A"), last("B")],
    "C03": [first("R"), last("R")],
    "C04": [first("A"), first("R"), later("A"), later("R")],
    "C05": [later("A"), later("R")],
    "C06": [refused, effect],
    "C07": [undone, skipped, later("A")],
    "C08": [other_par, ignored, last("A")],
    "C09": [neighbour, unlike],
    "C10": [dropped, mislabelled, scen_gap],
    "C11": [scen_value],
    "C12": [held, scen_par],
    "C13": [scen_dt, scen_axis, twin],
    "C14": [scen_gap, scen_axis],
    "C15": [scen_error, scen_par],
    "C16": [converted],
    "C17": [before("equiv")],
    "C18": [before("lin"), before("eq")],
    "C19": [ecs],
    "C20": [version, dirty, dated],
}


def corrupted(prop, traces, rng, each=6):
    """(kind, trace) pairs: each kind of corruption applied to some of the traces"""
    out = []
    for k, f in enumerate(KINDS[prop]):
        n = 0
        order = list(range(len(traces)))
        rng.shuffle(order)
        for t in order:
            if n >= each:
                break
            tr = traces[t]
            if any(e["crash"] for e in tr):
                continue
            places = list(range(len(tr)))
            rng.shuffle(places)
            for i in places[:40]:
                new = tr[:i] + [copy.deepcopy(tr[i])] + tr[i + 1:]
                if f(new[i], new, i):
                    # what follows would be judged against the corrupted state: cut there, unless the comparison comes later
                    keep = new if prop in ("C13", "C17", "C18") else new[:i + 1]
                    out.append((k, keep))
                    n += 1
                    break
    return out
