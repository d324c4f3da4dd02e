----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life cycle of several model objects: construct, assign (usable and  *)
(* unusable values), set drivers, reset, step, run - in every order.       *)
(***************************************************************************)
EXTENDS Examples, TLC

CONSTANTS Objs,        \* object names
          KindOf,      \* the kind each may have
          Drivers,     \* driver series, small integers; 99 stands for NaN
          MaxChanges   \* bound on assignments per object

VARIABLES objs,        \* object name -> object record, or None
          changes,     \* number of assignments so far, per object
          last         \* the operation just done and its outcome (not in the view)

None == [kind |-> "none"]
Alive(o) == objs[o].kind # "none"

Drv(d) == [i \in 1..Len(d) |-> IF d[i] = 99 THEN NaN ELSE FInt(d[i])]

Did(o, op, res) == last' = [o |-> o, op |-> op, res |-> res]
Put(o, x) == objs' = [objs EXCEPT ![o] = x]
Same_ == UNCHANGED <<objs, changes>>

Init ==
    /\ objs = [o \in Objs |-> None]
    /\ changes = [o \in Objs |-> 0]
    /\ last = [o |-> "", op |-> "init", res |-> "ok"]

New(o) ==
    /\ ~Alive(o)
    /\ Put(o, Fresh(KindOf[o], Par0(KindOf[o]), Dt0))
    /\ Did(o, "new", "ok") /\ UNCHANGED changes

\* a constructor given an unusable value makes nothing
NewBad(o) == ~Alive(o) /\ Did(o, "newbad", "error") /\ Same_

SetPar1(o) ==
    /\ Alive(o) /\ changes[o] < MaxChanges
    /\ LET n == Knob(objs[o].kind)
           v == IF objs[o].par[n] = Alt(objs[o].kind) THEN Par0(objs[o].kind)[n] ELSE Alt(objs[o].kind)
       IN Put(o, SetPar(objs[o], n, v))
    /\ changes' = [changes EXCEPT ![o] = @ + 1]
    /\ Did(o, "setpar", "ok")

SetDt1(o) ==
    /\ Alive(o) /\ changes[o] < MaxChanges
    /\ Put(o, SetDt(objs[o], IF objs[o].dt = Dt0 THEN Dt1 ELSE Dt0))
    /\ changes' = [changes EXCEPT ![o] = @ + 1]
    /\ Did(o, "setdt", "ok")

SetBad(o, why) == Alive(o) /\ Did(o, "setbad" \o why, "error") /\ Same_

SetDriver(o, d) ==
    /\ Alive(o)
    /\ Put(o, Drive(objs[o], Drv(d)))
    /\ last' = [o |-> o, op |-> "drive", res |-> "ok", d |-> d] /\ UNCHANGED changes

DoReset(o) ==
    /\ Alive(o)
    /\ IF CanReset(objs[o])
       THEN Put(o, Reset(objs[o])) /\ Did(o, "reset", "ok")
       ELSE UNCHANGED objs /\ Did(o, "reset", "state")
    /\ UNCHANGED changes

DoStep(o) ==
    /\ Alive(o) /\ objs[o].st = "run"
    /\ IF CanStep(objs[o])
       THEN Put(o, Step(objs[o])) /\ Did(o, "step", "ok")
       ELSE UNCHANGED objs /\ Did(o, "step", "end")
    /\ UNCHANGED changes

DoRun(o) ==
    /\ Alive(o) /\ objs[o].st = "run" /\ objs[o].k = 0
    /\ Put(o, StepAll(objs[o])) /\ Did(o, "run", "ok") /\ UNCHANGED changes

\* o becomes a deep copy of p: the same state, a life of its own
Clone(o, p) ==
    /\ Alive(p) /\ ~Alive(o) /\ KindOf[o] = KindOf[p]
    /\ Put(o, objs[p]) /\ changes' = [changes EXCEPT ![o] = changes[p]]
    /\ last' = [o |-> o, op |-> "copy", res |-> "ok", src |-> p]

Next == \E o \in Objs :
    \/ \E p \in Objs \ {o} : Clone(o, p)
    \/ New(o) \/ NewBad(o) \/ SetPar1(o) \/ SetDt1(o) \/ DoReset(o) \/ DoStep(o) \/ DoRun(o)
    \/ SetBad(o, "type") \/ SetBad(o, "unit") \/ SetBad(o, "shape")
    \/ \E d \in Drivers : SetDriver(o, d)

vars == <<objs, changes, last>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Running(x) == x.kind # "none" /\ x.st = "run"

\* outputs are computed exactly up to point k
OutputsUpToK ==
    \A o \in Objs : Running(objs[o]) =>
        LET x == objs[o] IN
        /\ Len(x.A) = Len(x.drv) /\ Len(x.B) = Len(x.drv) /\ Len(x.R) = Len(x.drv)
        /\ \A i \in 1..Len(x.A) : (x.A[i] = NaN) = (i > x.k) /\ (x.R[i] = NaN) = (i > x.k)
        /\ \A i \in 1..x.k : Finite(x.A[i]) /\ Finite(x.B[i]) /\ Finite(x.R[i])

\* whatever happened before, an undisturbed run gives what a new object gives
HistoryIndependent ==
    \A o \in Objs : Running(objs[o]) /\ objs[o].clean =>
        LET x == objs[o] s == Solo(x.kind, x.par, x.dt, x.drv)
        IN \A i \in 1..x.k : x.A[i] = s.A[i] /\ x.B[i] = s.B[i] /\ x.R[i] = s.R[i]

\* ... and what any driver that agrees at the earlier points gives
Causal ==
    \A o \in Objs : Running(objs[o]) /\ objs[o].clean /\ objs[o].k > 0 =>
        \A d \in Drivers :
            LET x == objs[o]
                e == Drv(d)
            IN Len(e) >= x.k /\ (\A i \in 1..Len(e) : e[i] # NaN) /\ Agree(x.drv, e) >= x.k - 1 =>
                 LET s == Solo(x.kind, x.par, x.dt, e)
                 IN \A i \in 1..x.k : x.A[i] = s.A[i] /\ x.B[i] = s.B[i] /\ x.R[i] = s.R[i]

\* heat uptake over the timesteps adds up to the heat stored (timestep unchanged)
RECURSIVE UptakeSum(_, _)
UptakeSum(x, n) == IF n = 0 THEN F0 ELSE FAdd(UptakeSum(x, n - 1), x.R[n])
Budget ==
    \A o \in Objs : Running(objs[o]) /\ objs[o].kind = "TL" /\ objs[o].clean /\ objs[o].k > 0 =>
        LET x == objs[o]
        IN Near(FMul(UptakeSum(x, x.k), x.dt), Stored(x.par, x.A[x.k], x.B[x.k]), FTiny(5))

NoDriverNoReset ==
    \A o \in Objs : Running(objs[o]) => \A i \in 1..Len(objs[o].drv) : ~objs[o].clean \/ objs[o].drv[i] # NaN

Isolated == [][\A o \in Objs : last'.o # o => objs'[o] = objs[o]]_vars

\* an assignment changes what was assigned and nothing else
AssignFrame ==
    [][\A o \in Objs : last'.o = o /\ last'.op \in {"setpar", "setdt"} =>
          /\ objs'[o].A = objs[o].A /\ objs'[o].B = objs[o].B /\ objs'[o].R = objs[o].R
          /\ objs'[o].drv = objs[o].drv /\ objs'[o].k = objs[o].k
          /\ \A n \in ParsOf(objs[o].kind) :
                objs'[o].par[n] # objs[o].par[n] => last'.op = "setpar" /\ n = Knob(objs[o].kind)]_vars

ErrorFrame == [][last'.res \in {"error", "state", "end"} => UNCHANGED <<objs, changes>>]_vars

\* computed points stay as they are until the next reset
WriteOnce ==
    [][\A o \in Objs : Alive(o) /\ last'.op # "reset" =>
          \A i \in 1..Len(objs[o].A) :
             objs[o].A[i] # NaN => /\ objs'[o].A[i] = objs[o].A[i]
                                   /\ objs'[o].B[i] = objs[o].B[i]
                                   /\ objs'[o].R[i] = objs[o].R[i]]_vars

View == <<objs, changes>>

-----------------------------------------------------------------------------
(* Printing the state graph, for replay on the real objects: the abstract  *)
(* state says which values are in force and how far the run is.            *)
Abs(x) ==
    IF x.kind = "none" THEN [kind |-> "none"]
    ELSE [kind |-> x.kind, alt |-> x.par[Knob(x.kind)] = Alt(x.kind), half |-> x.dt = Dt1,
          drv |-> [i \in 1..Len(x.drv) |-> IF x.drv[i] = NaN THEN 99 ELSE Mag(x.drv[i])],
          st |-> x.st, k |-> x.k, n |-> Len(x.A)]
Edge == [from |-> [o \in Objs |-> Abs(objs[o])], to |-> [o \in Objs |-> Abs(objs'[o])], act |-> last']
PrintEdge == PrintT(ToJson(Edge))
=============================================================================
