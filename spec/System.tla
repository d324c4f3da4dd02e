------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* A two-layer model and an impulse response model used for everything, in *)
(* any order: runs by hand, sets of scenarios (good ones, and bad ones     *)
(* that fail before or after something was done), conversions of           *)
(* parameters, models made from converted parameters, changes of           *)
(* parameters in between.                                                  *)
(*                                                                         *)
(* What a user has asked for is kept as a label; the state proper is       *)
(* compared with what the label says it must be, on every transition: the  *)
(* history beyond the label leaves no trace.                               *)
(***************************************************************************)
EXTENDS Tables, Json

CONSTANTS Objs, KindOf, Sets, MaxGen, MaxChanges

VARIABLES objs,     \* object name -> object record, or None
          lab,      \* object name -> label
          slot,     \* label of the parameters converted last, or None
          got,      \* the converted parameters themselves
          changes,  \* assignments so far
          last, out \* the operation just done; what it handed out (not in the view)

svars == <<objs, lab, slot, got, changes, last, out>>
None == [kind |-> "none"]
Alive(o) == objs[o].kind # "none"
Other(kind) == IF kind = "TL" THEN "IR" ELSE "TL"

(***************************************************************************)
(* Labels.  Parameters: those a model of kind rk starts with (knob turned  *)
(* or not), converted gen times, with a temperature dependent feedback or  *)
(* not.                                                                    *)
(***************************************************************************)
Orig(kind) == [rk |-> kind, knob |-> FALSE, gen |-> 0, a |-> kind = "TL"]
KindOfTag(g) == IF g.gen % 2 = 0 THEN g.rk ELSE Other(g.rk)
A0 == Par0("TL").a
NoA(p) == [p EXCEPT !.a = F0]

Convert(kind, p) == IF kind = "TL" THEN AsIR(p) ELSE AsTL(Equiv(p))

\* parameters of a label, from the beginning
RECURSIVE ParOf(_)
ParOf(g) ==
    IF g.gen = 0
    THEN LET p == IF g.knob THEN [Par0(g.rk) EXCEPT ![Knob(g.rk)] = Alt(g.rk)] ELSE Par0(g.rk)
         IN IF g.rk = "TL" /\ ~g.a THEN NoA(p) ELSE p
    ELSE LET h == [g EXCEPT !.gen = @ - 1, !.a = FALSE]
             p == Convert(KindOfTag(h), ParOf(h))
         IN IF g.a THEN [p EXCEPT !.a = A0] ELSE p

Tags == {g \in [rk : {"TL", "IR"}, knob : BOOLEAN, gen : 0..MaxGen, a : BOOLEAN] : g.a => KindOfTag(g) = "TL"}
ParTable == TLCEval([g \in Tags |-> ParOf(g)]          )           \* computed once

\* the tables
Tab(n) ==
    CASE n = "good"   -> [times |-> Axis("yearly"), rows |-> <<Row("plain", 1), Row("milli", 2)>>]
      [] n = "month"  -> [times |-> Axis("monthly"), rows |-> <<Row("variable", 1), Row("late", 2)>>]
      [] n = "nodata" -> [times |-> Axis("yearly"), rows |-> <<Row("region", 1)>>]
      [] n = "axis"   -> [times |-> Axis("daily"), rows |-> <<Row("plain", 1)>>]
      [] n = "unit2"  -> [times |-> Axis("yearly"), rows |-> <<Row("milli", 1), Row("kelvin", 2)>>]
      [] n = "gap2"   -> [times |-> Axis("midyear"), rows |-> <<Row("early", 1), Row("gap", 2)>>]

HandDrv == <<FInt(2), FInt(-1), FInt(3)>>
DrvOf(r) ==
    IF r.src = "hand" THEN HandDrv
    ELSE LET tab == Tab(r.src) IN Forcing(tab.rows[r.row], TimeOrder(tab.times))
DtOf(d) == CASE d = "dt0" -> Dt0 [] d = "yr" -> FInt(StepSeconds("yr")) [] d = "month" -> FInt(StepSeconds("month"))

NoRun == [src |-> "none"]
Rec(n, row, dts) == {[src |-> n, row |-> row, par |-> g, dt |-> d] : g \in Tags, d \in dts}
AllRuns == Rec("hand", 0, {"dt0", "yr", "month"}) \cup Rec("good", 2, {"yr"}) \cup Rec("month", 2, {"month"})
           \cup Rec("unit2", 1, {"yr"}) \cup Rec("gap2", 1, {"yr"})
RunTable_ == TLCEval([r \in AllRuns |-> Solo(KindOfTag(r.par), ParTable[r.par], DtOf(r.dt), DrvOf(r))])

\* the object a label stands for
Meant(l) ==
    LET kind == KindOfTag(l.par)
    IN IF l.run = NoRun THEN Fresh(kind, ParTable[l.par], DtOf(l.dt))
       ELSE LET s == RunTable_[l.run]
            IN [s EXCEPT !.par = ParTable[l.par], !.dt = DtOf(l.dt), !.clean = l.run.par = l.par /\ l.run.dt = l.dt]

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Did(o, op, res, x) == last' = [o |-> o, op |-> op, res |-> res, x |-> x]
Put(o, x, l) == objs' = [objs EXCEPT ![o] = x] /\ lab' = [lab EXCEPT ![o] = l]
Nothing == out' = <<>>

Init ==
    /\ objs = [o \in Objs |-> None] /\ lab = [o \in Objs |-> None]
    /\ slot = None /\ got = <<>> /\ changes = 0
    /\ last = [o |-> "", op |-> "init", res |-> "ok", x |-> ""] /\ out = <<>>

New(o) ==
    /\ ~Alive(o)
    /\ Put(o, Fresh(KindOf[o], Par0(KindOf[o]), Dt0), [par |-> Orig(KindOf[o]), dt |-> "dt0", run |-> NoRun])
    /\ Did(o, "new", "ok", "") /\ Nothing /\ UNCHANGED <<slot, got, changes>>

\* a model made from parameters converted before takes the place of an object
NewFrom(o) ==
    /\ slot # None /\ KindOfTag(slot) = KindOf[o]
    /\ Put(o, Fresh(KindOf[o], got, Dt0), [par |-> slot, dt |-> "dt0", run |-> NoRun])
    /\ Did(o, "newfrom", "ok", "") /\ Nothing /\ UNCHANGED <<slot, got, changes>>

TurnKnob(o) ==
    /\ Alive(o) /\ lab[o].par.gen = 0 /\ changes < MaxChanges
    /\ LET n == Knob(objs[o].kind)
           t == ~lab[o].par.knob
       IN Put(o, SetPar(objs[o], n, IF t THEN Alt(objs[o].kind) ELSE Par0(objs[o].kind)[n]), [lab[o] EXCEPT !.par = [@ EXCEPT !.knob = t]])
    /\ changes' = changes + 1
    /\ Did(o, "knob", "ok", "") /\ Nothing /\ UNCHANGED <<slot, got>>

TurnA(o) ==
    /\ Alive(o) /\ objs[o].kind = "TL" /\ changes < MaxChanges
    /\ LET t == ~lab[o].par.a
       IN Put(o, SetPar(objs[o], "a", IF t THEN A0 ELSE F0), [lab[o] EXCEPT !.par = [@ EXCEPT !.a = t]])
    /\ changes' = changes + 1
    /\ Did(o, "a", "ok", "") /\ Nothing /\ UNCHANGED <<slot, got>>

Hand(o) ==
    /\ Alive(o)
    /\ LET x == StepAll(Reset(Drive(objs[o], HandDrv)))
       IN Put(o, x, [lab[o] EXCEPT !.run = [src |-> "hand", row |-> 0, par |-> lab[o].par, dt |-> lab[o].dt]])
    /\ Did(o, "hand", "ok", "") /\ Nothing /\ UNCHANGED <<slot, got, changes>>

\* rows of a table one after the other: the object afterwards, the results, the error
RECURSIVE Rows(_, _, _, _, _)
Rows(x, tab, ord, sel, res) ==
    IF Len(res) = Len(sel) THEN [x |-> x, res |-> res, err |-> "ok"]
    ELSE LET row == tab.rows[sel[Len(res) + 1]]
         IN IF Gap(row.vals, ord) THEN [x |-> x, res |-> res, err |-> "gap"]
            ELSE IF WrongUnit(row.unit) THEN [x |-> x, res |-> res, err |-> "unit"]
            ELSE LET y == RunRow(x, row, ord) IN Rows(y, tab, ord, sel, Append(res, RunOf(y)))

RunTable(x, tab) ==
    LET ord == TimeOrder(tab.times)
        sel == Sel(tab.rows, Var)
        step == TimestepOf(Permute(tab.times, ord))
    IN IF sel = <<>> THEN [x |-> x, res |-> <<>>, err |-> "nodata", step |-> ""]
       ELSE IF step = "none" THEN [x |-> x, res |-> <<>>, err |-> "timestep", step |-> ""]
       ELSE LET r == Rows(SetDt(x, FInt(StepSeconds(step))), tab, ord, sel, <<>>)
            IN [x |-> r.x, res |-> r.res, err |-> r.err, step |-> step]

Scen(o, n) ==
    /\ Alive(o)
    /\ LET tab == Tab(n)
           r == RunTable(objs[o], tab)
           sel == Sel(tab.rows, Var)
           l == IF r.step = "" THEN lab[o]
                ELSE [lab[o] EXCEPT !.dt = r.step,
                        !.run = IF r.res = <<>> THEN @
                                ELSE [src |-> n, row |-> sel[Len(r.res)], par |-> lab[o].par, dt |-> r.step]]
       IN /\ Put(o, r.x, l)
          /\ out' = IF r.err = "ok" THEN r.res ELSE <<>>
          /\ Did(o, "scen", r.err, n)
    /\ UNCHANGED <<slot, got, changes>>

Conv(o) ==
    /\ Alive(o) /\ lab[o].par.gen < MaxGen
    /\ IF objs[o].kind = "TL" /\ objs[o].par.a # F0
       THEN Did(o, "conv", "refused", "") /\ UNCHANGED <<slot, got>>
       ELSE /\ got' = Convert(objs[o].kind, objs[o].par)
            /\ slot' = [lab[o].par EXCEPT !.gen = @ + 1]
            /\ Did(o, "conv", "ok", "")
    /\ Nothing /\ UNCHANGED <<objs, lab, changes>>

Next == \E o \in Objs :
    \/ New(o) \/ NewFrom(o) \/ TurnKnob(o) \/ TurnA(o) \/ Hand(o) \/ Conv(o)
    \/ \E n \in Sets : Scen(o, n)

Spec == Init /\ [][Next]_svars
View == <<lab, slot, changes>>

-----------------------------------------------------------------------------
T24 == FTiny(6)
SameObj(x, y) ==
    /\ x.kind = y.kind /\ x.par = y.par /\ x.dt = y.dt /\ x.drv = y.drv
    /\ x.A = y.A /\ x.B = y.B /\ x.R = y.R /\ x.st = y.st /\ x.k = y.k

\* the state is what the label says, whatever the way it was reached
AsMeant == [][\A o \in Objs : objs'[o] # objs[o] => SameObj(objs'[o], Meant(lab'[o]))]_svars
SlotMeant == [][slot' # None => got' = ParTable[slot']]_svars

\* scenarios give what each gives alone, on a new model with the present parameters
ScenAsAlone ==
    [][last'.op = "scen" /\ last'.res = "ok" =>
        LET o == last'.o
            tab == Tab(last'.x)
            sel == Sel(tab.rows, Var)
            ord == TimeOrder(tab.times)
        IN /\ Len(out') = Len(sel)
           /\ \A j \in 1..Len(sel) :
                LET s == Solo(objs[o].kind, ParTable[lab[o].par], TimestepValue(Permute(tab.times, ord)), Forcing(tab.rows[sel[j]], ord))
                IN out'[j].A = s.A /\ out'[j].B = s.B /\ out'[j].R = s.R]_svars

\* what goes wrong is what the table says, and goes wrong without results
RightEnd ==
    [][last'.op = "scen" =>
        LET f == Faults(Tab(last'.x), Var)
        IN IF f = {} THEN last'.res = "ok" ELSE last'.res \in f /\ out' = <<>>]_svars

\* running scenarios leaves the parameters alone, conversion leaves everything alone,
\* and nothing reaches the other model
ConfigKept == [][last'.op \in {"scen", "hand", "conv"} => \A o \in Objs : objs'[o].kind # "none" => objs'[o].par = objs[o].par]_svars
ConvPure == [][last'.op = "conv" => objs' = objs]_svars
Isolated == [][\A o \in Objs : o # last'.o => objs'[o] = objs[o] /\ lab'[o] = lab[o]]_svars
SlotKept == [][last'.op # "conv" => got' = got]_svars
Refusal == [][last'.op = "conv" => (last'.res = "refused") = (objs[last'.o].kind = "TL" /\ objs[last'.o].par.a # F0)]_svars

\* there and back again
RoundTrip ==
    slot # None /\ slot.gen >= 2 =>
        LET g == [slot EXCEPT !.gen = @ - 2]
            p == ParTable[[g EXCEPT !.a = FALSE]]
        IN \A n \in DOMAIN got : SameRel(got[n], p[n], T24)

\* a pair of models connected by a conversion follows the same course, up to the scheme:
\* equal equilibrium warming, and parameters in the defining relations
Connected ==
    \A o \in Objs : Alive(o) /\ lab[o].par.gen = 1 /\ ~lab[o].par.a =>
        LET src == ParTable[[lab[o].par EXCEPT !.gen = 0, !.a = FALSE]]
            r == IF objs[o].kind = "IR" THEN Relations(src, objs[o].par) ELSE Relations(objs[o].par, src)
        IN \A i \in 1..5 : Near(r[i][1], r[i][2], FMul(T24, FMax(F1, FAbs(r[i][1]))))

-----------------------------------------------------------------------------
Edge == [from |-> View, to |-> <<lab', slot', changes'>>, act |-> last']
PrintEdge == PrintT(ToJson(Edge))
=============================================================================
