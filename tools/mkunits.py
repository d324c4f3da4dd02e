"""Writes spec/units.json: the units the specification knows, by dimension,
with the exact factor to the specification's own unit of that dimension.
The factors are stated here by hand from the definitions of the units (SI
brochure; Julian year of 365.25 days; month = year / 12), not taken from pint."""
import json, os
from fractions import Fraction as Fr

YR = Fr(31557600)
U = {}


def add(dim, name, f):
    U[name] = (dim, Fr(f))


for n, f in dict(m=1, km=1000, cm="1/100", mm="1/1000", dm="1/10", ft="381/1250", mile="1609344/1000",
                 inch="127/5000", hm=100, yard="1143/1250").items():
    add("len", n, f)
for n, f in {"s": 1, "min": 60, "hour": 3600, "day": 86400, "week": 604800, "month": YR / 12, "yr": YR,
             "ms": "1/1000", "kyr": YR * 1000, "ks": 1000, "century": YR * 100}.items():
    add("time", n, f)
P = {"W": 1, "kW": 1000, "mW": "1/1000", "J/s": 1, "J/yr": 1 / YR, "kJ/day": Fr(1000, 86400), "GJ/yr": Fr(10**9) / YR}
A = {"m^2": 1, "cm^2": "1/10000", "km^2": 10**6, "hm^2": 10**4}
T = {"delta_degC": 1, "K": 1, "mK": "1/1000", "delta_degF": "5/9", "kK": 1000}
flux = {}
for p, a in [("W", "m^2"), ("mW", "m^2"), ("kW", "m^2"), ("W", "cm^2"), ("kW", "km^2"), ("J/s", "m^2"),
             ("J/yr", "m^2"), ("kJ/day", "m^2"), ("GJ/yr", "km^2"), ("mW", "cm^2")]:
    flux[f"{p}/{a}"] = Fr(P[p]) / Fr(A[a])
for n, f in flux.items():
    add("flux", n, f)
add("flux", "W*m^-2", 1)
add("flux", "kg/s^3", 1)
add("flux", "mW m^-2", "1/1000")
# multiples, as a table of scenarios may state its values in
for n, f in {"10 W/m^2": 10, "100 mW/m^2": "1/10", "0.5 W/m^2": "1/2"}.items():
    add("flux", n, f)
add("flux", "W m^-2", 1)
for n, f in flux.items():
    if n in ("W/m^2", "mW/m^2", "kW/km^2", "J/yr/m^2", "W/cm^2", "kJ/day/m^2"):
        for t in ("delta_degC", "K", "mK", "delta_degF"):
            add("fb", f"{n}/{t}", f / Fr(T[t]))
for n in ("W/m^2", "mW/m^2", "kW/km^2", "J/yr/m^2"):
    for t in ("delta_degC", "K", "mK", "delta_degF"):
        add("fb2", f"{n}/{t}^2", flux[n] / Fr(T[t]) ** 2)
for t in ("delta_degC", "K", "mK", "delta_degF"):
    for n in ("W/m^2", "mW/m^2", "kW/m^2", "W/cm^2"):
        add("sens", f"{t}/({n})", Fr(T[t]) / flux[n])
    add("temp", t, T[t])
add("sens", "K*m^2/W", 1)
add("sens", "delta_degC*m^2/kW", "1/1000")
for n, f in {"dimensionless": 1, "m/km": "1/1000", "km/m": 1000, "cm/m": "1/100"}.items():
    add("one", n, f)
add("heatcap", "J/delta_degC/m^2", 1)
add("mass", "kg", 1)
add("mass", "g", "1/1000")
add("energy", "J", 1)
add("energy", "MJ", 10**6)
add("power", "W", 1)
add("power", "PW", 10**15)
add("fluence", "J/m^2", 1)
add("volume", "m^3", 1)
add("speed", "m/s", 1)


def limbs(n):
    s = (n > 0) - (n < 0)
    n = abs(n)
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return [s] + out


out = {k: {"dim": d, "num": limbs(f.numerator), "den": limbs(f.denominator)} for k, (d, f) in sorted(U.items())}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "units.json")
with open(p, "w") as fh:
    fh.write("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v, separators=(',', ':'))}" for k, v in out.items()) + "\n}\n")
print(len(out))
