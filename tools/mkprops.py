#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
B = "src/openscm_twolayermodel/base.py"
T = "src/openscm_twolayermodel/two_layer_model.py"
I = "src/openscm_twolayermodel/impulse_response_model.py"
U = "src/openscm_twolayermodel/utils.py"
C = "src/openscm_twolayermodel/constants.py"
V = "src/openscm_twolayermodel/_version.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))


prop("C01", "Two-layer temperatures follow the documented energy balance",
     "For every parameter set, timestep and forcing series, the first temperature of both layers is zero and every later "
     "value is the previous one plus one timestep of C dT/dt = F - (lambda0 - a T) T - efficacy eta (T - T_D) for the upper and "
     "C_D dT_D/dt = eta (T - T_D) for the lower layer. Both right-hand sides are evaluated with the temperatures and the forcing of the "
     "previous time point only, C and C_D being depth times the density (1000 kg/m^3) and specific heat (4181 J/delta_degC/kg) of water. "
     "This holds whatever route (stepping, running, running scenarios) computed the value.",
     ["inputs", "configurations", "histories"],
     "all finite parameter values (incl. a != 0, efficacy != 1, eta = 0, negative forcing), all timesteps, all series lengths",
     "The unit tests recompute one step with one parameter set and compare the code's private formula with itself; integration tests use defaults only.",
     [T, B, C],
     [("_step", T), ("_calculate_next_temp_upper", T), ("_calculate_next_temp_lower", T), ("heat_capacity_upper/lower", T)],
     [("_temp_upper_mag/_temp_lower_mag", "temperatures in delta_degC at each time point, NaN if not computed", T)],
     ["run_scenarios output rows 'Surface Temperature|Upper' and '|Lower'", "_temp_upper_mag, _temp_lower_mag after step()/run()"])
prop("C02", "Impulse-response boxes follow the exact exponential response",
     "For every parameter set, timestep and forcing series, the first temperature of each box is zero and every later value is "
     "T[i] = T[i-1] exp(-dt/d) + q F[i-1] (1 - exp(-dt/d)) with that box's own sensitivity q and timescale d. "
     "The total surface temperature reported for a scenario is the sum of the two boxes at every time point.",
     ["inputs", "configurations", "histories"],
     "all positive q1, q2, 0 < d1 < d2, all timesteps and forcing series of any length",
     "Tests evaluate the same private formula once and otherwise only the defaults; no test covers dt comparable to or larger than d.",
     [I, B],
     [("_step", I), ("_calculate_next_temp", I), ("_get_run_output_tss", I)],
     [("_temp1_mag/_temp2_mag", "box temperatures in delta_degC", I)],
     ["run_scenarios output rows 'Surface Temperature', '|Box 1', '|Box 2'", "_temp1_mag, _temp2_mag after step()/run()"])
prop("C03", "Reported heat uptake closes the energy budget in both models",
     "In the two-layer model, heat uptake times the timestep, summed up to any time point, equals the heat stored in the two layers at "
     "that time point (C T + C_D T_D), so that each value equals F - (lambda0 - a T) T - (efficacy - 1) eta (T - T_D) of the previous time point. "
     "In the impulse-response model each heat uptake value equals F - lambda0 T - (efficacy - 1) eta (T - T_D) of the previous time point, with lambda0, "
     "eta and the lower-layer temperature of the equivalent two-layer model. The first heat uptake value is zero.",
     ["inputs", "configurations", "histories"],
     "all parameters (any efficacy, any convertible units), all forcings, all time points of a run",
     "The only oracle in the tests for the impulse-response model is the code's own formula at one state in default units; conservation is never checked.",
     [T, I, B],
     [("_calculate_next_rndt", T), ("_calculate_next_rndt", I), ("_calculate_geoffroy_helper_parameters", B), ("get_two_layer_parameters", I)],
     [("_rndt_mag", "heat uptake in W/m^2", T)],
     ["run_scenarios output row 'Heat Uptake'", "_rndt_mag"])
prop("C04", "Outputs depend only on earlier forcing",
     "The output at a time point depends only on forcing at strictly earlier time points: two drivers agreeing before time point k give "
     "the same temperatures and heat uptake up to and including k, however they differ at or after k and however many points follow. "
     "In particular the first temperature and heat uptake values are zero and the last forcing value has no effect on any output.",
     ["inputs", "configurations"],
     "all pairs of drivers with a common prefix (different suffix values and lengths), both models, all parameters",
     "A relational (two-run) property; no test compares two runs with perturbed drivers.",
     [T, I, B],
     [("_step", T), ("_step", I), ("run loop", T)],
     [("_timestep_idx", "time point last computed", T)],
     ["pairs of runs of the same model"])
prop("C05", "Results do not depend on the units inputs are expressed in",
     "Replacing any parameter, timestep or driver by the same physical quantity expressed in another convertible unit changes neither "
     "temperatures nor heat uptake nor converted parameters, beyond rounding, in either model. "
     "Drivers of different scenarios may be in different units within one scenario set; outputs are always in delta_degC and W/m^2.",
     ["inputs", "configurations"],
     "all parameters and drivers, all convertible units (metric and imperial lengths, seconds to years, K / delta_degC / delta_degF, W and prefixes), in any mixture",
     "One test rescales the driver to kW/m^2 for the defaults; no test expresses parameters in other units and runs.",
     [B, T, I],
     [("property setters convert to model units", T), ("property setters", I), ("erf/delta_t setters", B), ("_calculate_next_rndt unit conversion", I)],
     [("_<name>_mag", "magnitude in the model's internal unit", T)],
     ["pairs of runs of equivalent models"])
prop("C06", "Unusable values are rejected with the right error and no effect",
     "Assigning (or constructing with) a value that is not a quantity raises TypeError, and a quantity of the wrong dimension raises UnitError, "
     "for every parameter, the timestep and the forcing of both models; a driver with more or less than one dimension is refused. "
     "A rejected assignment changes nothing: every parameter, the drivers and all outputs computed so far stay as they were. "
     "Constructing an impulse-response model with d1 >= d2 raises ValueError.",
     ["inputs", "histories", "fault_sequences"],
     "all attributes of both models, all non-quantities and wrong dimensions, at any point of any history of operations",
     "Tests try one bare float and kilograms in the constructor; what state a rejected assignment leaves behind mid-run is never examined.",
     [B, T, I, "src/openscm_twolayermodel/errors.py"],
     [("_assert_is_pint_quantity_with_units", B), ("property setters", T), ("property setters", I), ("set_drivers shape check", B)],
     [("public attributes", "quantities as last accepted", T)],
     ["exceptions of setters, constructors and set_drivers", "attributes and outputs after the exception"])
prop("C07", "Reset, step and run follow the life cycle whatever happened before",
     "Resetting without usable drivers (never set, or containing NaN) raises ModelStateError; otherwise it leaves every output undefined (NaN), one value per driver value. "
     "Each step after a reset computes exactly the next time point and leaves all others untouched, run after a reset computes all of them, and "
     "stepping past the end raises without altering results. "
     "Set drivers, reset, run gives the same outputs however often and after whatever earlier operations it is done.",
     ["histories"],
     "all sequences of construct / set / set drivers / reset / step / run, including drivers of different length, partial runs, repeated runs and failed operations in between",
     "Tests try one straight-line sequence per method; orders, repetitions and partial runs are a combinatorial space.",
     [B, T, I],
     [("reset/run/step", B), ("_reset", T), ("_step", T), ("_run", T), ("_reset/_step/_run", I)],
     [("_timestep_idx", "NaN before the first step, then index of the last computed point", T), ("_erf_mag", "driver in W/m^2", B)],
     ["output arrays and _timestep_idx after each call"])
prop("C08", "A parameter change takes effect at the next step, and only it",
     "After a successful assignment the attribute reads back the assigned quantity, derived quantities (heat capacities) and all values computed from then on "
     "use it, including when it is assigned between the steps of a run or between runs. "
     "No other parameter, no driver and no value already computed changes.",
     ["histories", "inputs"],
     "all parameters and the timestep of both models, any number of reassignments (also back to earlier values or in other units) at any point between operations",
     "Tests set each parameter once, in the constructor, before anything was computed.",
     [T, I, B],
     [("property setters keep quantity and magnitude in step", T), ("property setters", I), ("delta_t/erf setters", B)],
     [("_<name> and _<name>_mag", "quantity and its magnitude in model units", T), ("_heat_capacity_*_mag", "derived from depth", T)],
     ["attributes, heat_capacity_upper/lower and output arrays after each call"])
prop("C09", "Model instances do not influence each other",
     "Operations on one model instance (constructing, assigning, driving, resetting, stepping, running, running scenarios, converting) never change "
     "the parameters, drivers or outputs of any other instance nor the defaults used for instances constructed later. "
     "Interleaving the operations of several instances gives each the same outputs as running it on its own. "
     "This includes a deep copy (copy.deepcopy) of an instance: it starts in its source's state, in the middle of a run too, and the two do not influence each other from then on.",
     ["schedules", "histories"],
     "all interleavings of operations on several instances of both models, including instances built from each other's converted parameters sharing the same quantities, or deep-copied from each other",
     "No test has two live instances with interleaved operations.",
     [B, T, I],
     [("instance attributes only", T), ("immutable class-level defaults", T), ("instance attributes only", I)],
     [("instance __dict__", "all mutable state", T)],
     ["attributes and outputs of all instances after each call"])
prop("C10", "Scenario results are complete, correctly labelled and nothing more",
     "Running scenarios returns, for every World timeseries of the driver variable and no other input row, the driver itself plus exactly the model's output variables "
     "(two-layer: Surface Temperature|Upper, Surface Temperature|Lower, Heat Uptake; impulse response: Surface Temperature, its Box 1 and Box 2, Heat Uptake) "
     "in delta_degC or W/m^2 on the driver's time points. All the input's metadata is kept, except that climate_model names the model and run_idx numbers "
     "the scenario; every model parameter is recorded with its unit and the value used in the run.",
     ["inputs", "configurations"],
     "all scenario sets (any number of rows, extra or missing metadata columns, other variables, regions, units, sub-variables of the driver), all model parameters and units",
     "Tests look up known rows in results of one or two scenarios with one fixed set of metadata columns.",
     [B, T, I],
     [("run_scenarios", B), ("_create_ts", B), ("_get_run_output_tss", T), ("_get_run_output_tss", I)],
     [("result ScmRun", "timeseries and meta of the result", B)],
     ["run_scenarios return value"])
prop("C11", "Each scenario's results are those of running it on its own",
     "The outputs of a scenario equal those of driving the same model by hand with that scenario's values and the timestep of the time axis, starting from zero temperatures. "
     "They do not depend on which other scenarios or unrelated rows are present, on the order of rows, on what the model ran before, on the progress bar, "
     "or on whether the input is an ScmRun or a data frame.",
     ["inputs", "histories"],
     "all scenario sets, permutations, subsets and repetitions; both models; all parameters",
     "Tests compare at most two scenarios in one order with a fresh default model.",
     [B],
     [("run_scenarios loop: set_drivers, reset, run per row", B)],
     [("run_store", "per-scenario results in order", B)],
     ["run_scenarios return value, compared across calls"])
prop("C12", "Running scenarios alters neither its input, the configuration nor old results",
     "Running scenarios leaves the scenarios passed in (values, metadata, units, time axis) exactly as they were, and changes nothing in the model's "
     "configuration but its timestep and driver. Results already returned by earlier calls, and parameters obtained from the model, are not altered by any later operation.",
     ["inputs", "histories"],
     "all scenario sets passed as ScmRun or data frame, successful and failing calls, any later operations on the model",
     "No test inspects its input, the model's parameters, or earlier results after a call.",
     [B, T, I],
     [("driver copy in _ensure_scenarios_are_scmrun", B), ("_create_ts copies base", B), ("fresh output arrays in _reset", T)],
     [("scenarios argument", "caller's object", B)],
     ["input, attributes and earlier results before and after each call"])
prop("C13", "The timestep of a scenario run is that of its time axis, or it is refused",
     "If all consecutive time points lie in consecutive calendar years (more than 31 days apart) the scenarios are run with, and the model is left with, a timestep of one year; if all are 28 to 31 days apart, "
     "one month, whatever the model's timestep was before. Any other time axis is refused with NotImplementedError, leaving the model's timestep and drivers unchanged.",
     ["inputs", "configurations"],
     "all time axes: any start, leap years, month lengths, far past and future years, unsorted input, mixed gaps, sub-monthly and multi-year steps",
     "Tests use one annual axis and its monthly resampling; the refusal branch is never executed.",
     [B],
     [("_select_timestep", B), ("delta_t assignment in run_scenarios", B)],
     [("delta_t", "timestep of the model", B)],
     ["delta_t after run_scenarios", "run_scenarios exceptions", "outputs"])
prop("C14", "Missing driver values delimit a scenario's run and nothing else",
     "A scenario whose driver has missing values before its first or after its last value is run on the remaining points exactly as if only those had been given, "
     "with output values exactly where the driver has values; other scenarios in the set are unaffected. "
     "A driver with missing values between its first and last value is refused with NotImplementedError instead of being run as if the gap were not there.",
     ["inputs"],
     "all patterns of missing values over any set of scenarios with different time spans",
     "No test has a missing value in a driver.",
     [B],
     [("row.dropna in run_scenarios", B), ("gap check in run_scenarios", B), ("concat of per-scenario results", B)],
     [("row_no_nan", "driver values of one scenario", B)],
     ["run_scenarios return value and exceptions"])
prop("C15", "Scenario runs that cannot be done fail cleanly and leave the model usable",
     "If no World timeseries of the driver variable exists, ValueError is raised and the model is left unchanged; if a driver has the wrong dimension, UnitError is raised "
     "whichever scenario of the set it is. No result is returned by a failing call, the model's parameters are unchanged, and the model afterwards gives the same results as a fresh one.",
     ["inputs", "fault_sequences", "histories"],
     "all positions and kinds of faults (no driver rows, other regions only, wrong units, unusable time axis, gaps) in scenario sets of any size, followed by any further calls",
     "Tests cover one single-row case of each error and never use the model again.",
     [B, "src/openscm_twolayermodel/errors.py"],
     [("empty filter check in run_scenarios", B), ("erf setter", B), ("reset before each run", B)],
     [("delta_t/erf", "timestep and driver after the failure", B)],
     ["run_scenarios exceptions", "model state and later results"])
prop("C16", "Parameter conversions are exact inverses and satisfy the theory",
     "Converting a two-layer model with a = 0 gives 0 < d1 < d2 whose inverses are the decay rates of its equations, with q1 + q2 = 1/lambda0, q1/d1 + q2/d2 = 1/C and the same efficacy; converting an impulse-response "
     "model gives the two-layer parameters satisfying the same relations; and converting there and back returns the original parameters. "
     "Conversions do not change the model, reflect its current parameters, and a two-layer model with a != 0 is refused with ValueError.",
     ["inputs", "configurations", "histories"],
     "all positive parameters of both models in any convertible units, after any history of assignments",
     "One conversion each way with one parameter set in default units, compared with the code's own formulas.",
     [T, I, B],
     [("get_impulse_response_parameters", T), ("get_two_layer_parameters", I), ("_calculate_geoffroy_helper_parameters", B)],
     [("returned dict", "converted parameters", T)],
     ["returned parameters", "models constructed from them"])
prop("C17", "The two models are dynamically equivalent",
     "An impulse-response model built from a two-layer model's converted parameters reproduces, at every time point, the exact solution of the two-layer equations (a = 0) for forcing held constant over each step: "
     "its total temperature is the upper-layer temperature and its heat uptake that of the exact two-layer solution. "
     "Hence the two models' results differ only by the two-layer model's time discretisation error, and a two-layer model built from an impulse-response model's parameters behaves likewise.",
     ["inputs", "configurations"],
     "all positive two-layer parameters with a = 0 and any efficacy, all timesteps, all forcing series",
     "One test compares three configurations with an absolute tolerance of 0.1 degC and 0.1 W/m^2.",
     [T, I, B],
     [("get_impulse_response_parameters", T), ("_calculate_next_temp", I), ("_calculate_next_rndt", I)],
     [("outputs of both models", "temperatures and heat uptake", I)],
     ["run outputs of pairs of models"])
prop("C18", "Responses are linear, bounded and approach the right equilibrium",
     "With a = 0, both models' temperatures and heat uptake are linear in the forcing: responses to scaled or summed forcings are the scaled or summed responses, and zero forcing gives zero. "
     "Under constant forcing and a timestep short compared with the response times, the upper temperature moves monotonically from zero towards F/lambda0 (F (q1 + q2)) without passing it, with the lower layer between zero and the upper one, "
     "and in the long run reaches it while heat uptake vanishes.",
     ["inputs", "configurations"],
     "all positive parameters, all forcings, scalings and sums, runs of any length",
     "Relations between several runs and long-run limits; no test runs a model to equilibrium or compares scaled runs.",
     [T, I],
     [("_calculate_next_temp_upper/_lower", T), ("_calculate_next_temp", I), ("_calculate_next_rndt", I)],
     [("outputs", "temperatures and heat uptake", T)],
     ["outputs of groups of runs"])
prop("C19", "Climate sensitivity conversion is exact and unit-safe",
     "Converting a feedback value lambda to climate sensitivity gives -F2x/lambda as a temperature for every non-zero lambda and every F2x in any convertible units, with F2x = 3.74 W/m^2 when not given. "
     "A lambda or F2x that is not a quantity raises TypeError. The sensitivity of -lambda0 is the warming the models approach under constant forcing F2x.",
     ["inputs"],
     "all non-zero lambda and F2x values and convertible units, scalars and arrays, positional and keyword use",
     "Tests use a small grid, always passing F2x and always negative lambda; the default is never exercised.",
     [U],
     [("convert_lambda_to_ecs", U)],
     [("return value", "ECS quantity", U)],
     ["convert_lambda_to_ecs return value and exceptions"])
prop("C20", "The reported version identifies the source it was computed from",
     "In a checkout the reported version is the nearest v-tag of the history without its v when that commit is checked out unmodified, TAG+DISTANCE.gHASH[.dirty] otherwise, and 0+untagged.DISTANCE.gHASH[.dirty] without such a tag; "
     "in an exported archive it is the v-tag of the exported commit (of several the first in sorted order, so a release rather than its pre-releases) or 0+unknown, and in an unpacked release directory the version in the directory's name. "
     "The dirty flag, full revision and commit date reported with it are those of the checkout, and finding a version never fails: without any source of information it is 0+unknown.",
     ["histories", "configurations"],
     "all histories of commits, tags (v-prefixed and other), local modifications and exports of the source tree",
     "No test of the version logic exists beyond the import succeeding in one checkout.",
     [V, "src/openscm_twolayermodel/__init__.py"],
     [("get_versions", V), ("git_pieces_from_vcs", V), ("render_pep440", V), ("git_versions_from_keywords", V), ("versions_from_parentdir", V)],
     [("git history, tags, working tree", "what the version is computed from", V)],
     ["get_versions() of a copy of the module inside a scratch repository, archive or directory"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
