"""What each check consists of."""

OPS = {"crash", "ok.new", "ok.set", "ok.drive", "ok.reset", "ok.step", "ok.run"}
LAWS = {"zero.temp", "zero.uptake", "tl.upper", "tl.lower", "tl.uptake", "tl.budget", "ir.box1", "ir.box2", "ir.uptake"}

# clauses of spec/Trace.tla (spec/VersionTrace.tla for C20) that belong to each property; "x.*" is a family
CLAUSES = {
    "C01": {"zero.temp", "tl.upper", "tl.lower", "step.computed", "ok.scen"},
    "C02": {"zero.temp", "ir.box1", "ir.box2", "ir.total", "step.computed", "ok.scen"},
    "C03": {"zero.uptake", "tl.uptake", "tl.budget", "ir.uptake", "step.computed", "ok.scen"},
    "C04": {"fun", "zero.temp", "zero.uptake"},
    "C05": {"fun", "fun.conv", "scen.units", "scen.driver", "set.readback", "set.heatcap", "ok.conv", "ok.scen", "scen.rows", "scen.times"},
    "C06": {"rej.*", "fun", "set.other", "iso.default"},
    "C07": {"reset.*", "step.*", "end.*", "fun", "zero.temp", "zero.uptake"},
    "C08": {"set.*", "step.others", "fun", "reset.config", "step.config"} | LAWS,
    "C09": {"iso.*", "fun", "fun.conv"},
    "C10": {"scen.rows", "scen.times", "scen.units", "scen.driver", "scen.model", "scen.runidx", "scen.pars", "scen.extra",
            "scen.points", "scen.outside", "ir.total", "ok.scen"},
    "C11": {"fun", "ok.scen", "scen.rows", "scen.times"},
    "C12": {"held", "scen.config", "conv.pure"},
    "C13": {"scen.timestep", "scen.bad.timestep", "scen.effect.timestep", "scen.effect.dt", "fun", "ok.scen", "scen.rows", "scen.times"},
    "C14": {"scen.bad.gap", "scen.points", "scen.outside", "scen.driver", "fun", "ok.scen", "scen.rows", "scen.times"},
    "C15": {"scen.bad.nodata", "scen.bad.unit", "scen.effect.*", "scen.config", "fun", "ok.scen"},
    "C16": {"conv.*", "fun.conv", "ok.conv"},
    "C17": {"equiv.*", "ok.conv", "conv.rates", "conv.equilibrium", "conv.heatcap", "conv.efficacy", "conv.roundtrip"},
    "C18": {"lin.*", "eq.*"},
    "C19": {"ecs.*", "ok.ecs", "eq.reached", "eq.norun"},
    "C20": {"ver.*"},
}


def relevant(prop, clause):
    if clause in OPS:
        return True
    return any(c == clause or (c.endswith("*") and clause.startswith(c[:-1])) for c in CLAUSES[prop])


# exhaustively explored configurations: (module, configuration)
LIFE1 = [("MC_Life1", "MC_LifeTL.cfg"), ("MC_Life1", "MC_LifeIR.cfg")]
LIFE2 = [("MC_Life1", "MC_LifePair.cfg"), ("MC_Life1", "MC_LifePairTT.cfg"), ("MC_Life1", "MC_LifePairII.cfg")]
SCEN = [("MC_Scen", "MC_Scen.cfg")]
SCEN3 = [("MC_Scen", "MC_Scen3.cfg")]
ARITH = [("MC_Arith", "MC_Arith.cfg")]
UNITS = [("MC_Units", "MC_Units.cfg")]
CAL = [("MC_Calendar", "MC_Calendar.cfg")]
THEORY = [("MC_Theory", "MC_Theory.cfg")]
THEORY_L = [("MC_Theory", "MC_TheoryL.cfg")]
THEORY_C = [("MC_Theory", "MC_TheoryC.cfg")]
SYSTEM = [("MC_System", "MC_System.cfg")]
SYSTEM_L = [("MC_System", "MC_SystemL.cfg")]
VERSION = [("MC_Version", "MC_Version.cfg")]
VERSION_L = [("MC_Version", "MC_VersionL.cfg")]

OBJS = {
    "MC_LifeTL.cfg": {"x": "TL"}, "MC_LifeIR.cfg": {"y": "IR"}, "MC_LifePair.cfg": {"x": "TL", "y": "IR"},
    "MC_LifePairTT.cfg": {"x": "TL", "y": "TL"}, "MC_System.cfg": {"x": "TL", "y": "IR"}, "MC_SystemL.cfg": {"x": "TL", "y": "IR"}, "MC_LifePairII.cfg": {"x": "IR", "y": "IR"},
}

# specification runs, and how many steps of their graphs are replayed (None: every edge)
#   walks: cfg -> limit of steps per tier; calls: cfg -> number of calls per tier
QUICK, THOROUGH = 0, 1
PLAN = {
    "C01": dict(mc=[ARITH + LIFE1[:1], ARITH + LIFE1[:1] + LIFE2[:2]], walks={"MC_LifeTL.cfg": (1000, None), "MC_LifePairTT.cfg": (0, None)}),
    "C02": dict(mc=[LIFE1[1:], ARITH + LIFE1[1:] + LIFE2[2:]], walks={"MC_LifeIR.cfg": (1000, None), "MC_LifePairII.cfg": (0, None)}),
    "C03": dict(mc=[THEORY, ARITH + THEORY + THEORY_L + LIFE1], walks={"MC_LifeTL.cfg": (0, None), "MC_LifeIR.cfg": (0, None)}),
    "C04": dict(mc=[LIFE1, LIFE1 + LIFE2], walks={"MC_LifeTL.cfg": (500, None), "MC_LifeIR.cfg": (500, None)}),
    "C05": dict(mc=[UNITS, UNITS + ARITH + LIFE1], walks={"MC_LifeTL.cfg": (0, None), "MC_LifeIR.cfg": (0, None)}),
    "C06": dict(mc=[LIFE1, LIFE1 + LIFE2], walks={"MC_LifeTL.cfg": (None, None), "MC_LifeIR.cfg": (None, None), "MC_LifePair.cfg": (0, None)}),
    "C07": dict(mc=[LIFE1, LIFE1 + LIFE2], walks={"MC_LifeTL.cfg": (None, None), "MC_LifeIR.cfg": (None, None), "MC_LifePair.cfg": (0, None)}),
    "C08": dict(mc=[LIFE1, LIFE1 + LIFE2], walks={"MC_LifeTL.cfg": (None, None), "MC_LifeIR.cfg": (None, None), "MC_LifePair.cfg": (0, None)}),
    "C09": dict(mc=[LIFE2 + SYSTEM, LIFE2 + SYSTEM + SYSTEM_L],
                walks=dict({c: (2000, None) for c in ("MC_LifePair.cfg", "MC_LifePairTT.cfg", "MC_LifePairII.cfg")},
                           **{"MC_System.cfg": (500, 4000), "MC_SystemL.cfg": (0, 6000)})),
    "C10": dict(mc=[SCEN, SCEN + SCEN3], calls={"MC_Scen.cfg": (600, None), "MC_Scen3.cfg": (0, None)}),
    "C11": dict(mc=[SCEN, SCEN + SCEN3], calls={"MC_Scen.cfg": (600, None), "MC_Scen3.cfg": (0, None)}),
    "C12": dict(mc=[SCEN + SYSTEM, SCEN + SCEN3 + SYSTEM + SYSTEM_L], walks={"MC_System.cfg": (500, 4000), "MC_SystemL.cfg": (0, 6000)},
                calls={"MC_Scen.cfg": (600, None), "MC_Scen3.cfg": (0, None)}),
    "C13": dict(mc=[CAL + SCEN, CAL + SCEN + SCEN3], calls={"MC_Scen.cfg": (600, None), "MC_Scen3.cfg": (0, None)}),
    "C14": dict(mc=[SCEN, SCEN + SCEN3], calls={"MC_Scen.cfg": (600, None), "MC_Scen3.cfg": (0, None)}),
    "C15": dict(mc=[SCEN, SCEN + SCEN3 + SYSTEM_L], walks={"MC_SystemL.cfg": (0, 6000)},
                calls={"MC_Scen.cfg": (None, None), "MC_Scen3.cfg": (0, None)}),
    "C16": dict(mc=[THEORY + SYSTEM, THEORY + THEORY_L + ARITH + SYSTEM],
                walks={"MC_System.cfg": (600, 6000)}),
    "C17": dict(mc=[THEORY, THEORY + THEORY_L + ARITH]),
    "C18": dict(mc=[THEORY_C, THEORY_L + THEORY_C]),
    "C19": dict(mc=[THEORY_C, THEORY_C + UNITS]),
    "C20": dict(mc=[VERSION, VERSION + VERSION_L], walks={"MC_Version.cfg": (None, None)}),
}
COUNT = {p: (400, 2400) for p in PLAN}
COUNT.update({"C17": (500, 2400), "C18": (400, 2400), "C16": (600, 4000), "C20": (120, 1200), "C10": (250, 1500), "C09": (300, 2400),
              "C05": (300, 2400)})

RULE = "one trace = one list of calls on the real code with the observed state after each; distinct = different lists of calls; " \
       "non-trivial = at least one computed time point, conversion, refused call or reported version in it"
