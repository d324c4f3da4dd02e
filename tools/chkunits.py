import json
from openscm_units import unit_registry as ur
base=dict(len="m",time="s",flux="W/m^2",fb="W/m^2/delta_degC",fb2="W/m^2/delta_degC^2",sens="delta_degC/(W/m^2)",temp="delta_degC",one="dimensionless",heatcap="J/delta_degC/m^2",mass="kg",energy="J",power="W",volume="m^3",speed="m/s",fluence="J/m^2")
for k,v in json.load(open('/verif/spec/units.json')).items():
    L=lambda l: l[0]*sum(d*10000**i for i,d in enumerate(l[1:]))
    f=L(v["num"])/L(v["den"])
    try:
        g=(1*ur(k)).to(base[v["dim"]]).magnitude
    except Exception as e:
        print(k,type(e),e);continue
    if abs(g/f-1)>1e-13: print(k,f,g)
    q=3.5*ur(k)
    if v["dim"]=="temp": continue
