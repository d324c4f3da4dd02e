---------------------------- MODULE VersionTrace ----------------------------
(* Recorded git histories with the versions reported at each point.        *)
EXTENDS Version, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, h
Init == t \in 1..Len(Traces) /\ l = 0 /\ h = NoHistory

Apply(e) ==
    CASE e.op = "init"     -> h
      [] e.op = "commit"   -> DoCommit(h, e.hash, e.date)
      [] e.op = "merge"    -> DoMerge(h, e.c, e.hash, e.date)
      [] e.op = "tag"      -> DoTag(h, e.c, e.t)
      [] e.op = "untag"    -> DoUntag(h, e.c, e.t)
      [] e.op = "checkout" -> DoCheckout(h, e.c)
      [] e.op \in {"modify", "stage", "delete"} -> DoModify(h)
      [] e.op = "restore"  -> DoRestore(h)
      [] e.op \in {"untracked", "branch", "ref"} -> h

C(ok, name) == IF ok THEN {} ELSE {name}

\* one look at a version: o.src says at what
Judge(g, o) ==
    IF o.raised # "" THEN {"ver.raise"}
    ELSE CASE o.src = "checkout" ->
              C(o.version \in CheckoutVersions(g), "ver.checkout")
              \cup C(o.full = g.hash[g.head], "ver.full")
              \cup C(o.dirty = (IF g.dirty THEN "yes" ELSE "no"), "ver.dirty")
              \cup C(o.date = g.date[g.head], "ver.date")
           \* another working tree of the same repository, at commit o.c
           [] o.src = "worktree" ->
              LET w == [g EXCEPT !.head = o.c, !.dirty = FALSE]
              IN C(o.version \in CheckoutVersions(w), "ver.checkout") \cup C(o.full = g.hash[o.c], "ver.full")
                 \cup C(o.dirty = "no", "ver.dirty") \cup C(o.date = g.date[o.c], "ver.date")
           [] o.src = "package" -> C(o.version \in CheckoutVersions(g), "ver.package")
           [] o.src = "archive" ->
              C(o.version \in ArchiveVersions(g, o.c), "ver.archive") \cup C(o.full = g.hash[o.c], "ver.full")
              \cup C(o.date = g.date[o.c] \/ (o.date = "" /\ VTags(g, o.c) = {}), "ver.date")
              \cup C(o.dirty = "no", "ver.dirty")
           [] o.src = "dir" -> C(o.version = DirVersion(o.dirs), "ver.dir") \cup C(o.dirty # "yes", "ver.dirty") \cup C(o.date = "", "ver.date")

RECURSIVE JudgeAll(_, _, _)
JudgeAll(g, os, i) == IF i = 0 THEN {} ELSE JudgeAll(g, os, i - 1) \cup Judge(g, os[i])

Next ==
    /\ l < Len(Traces[t])
    /\ LET e == Traces[t][l + 1]
           g == Apply(e)
           fails == IF e.crash # "" THEN {"crash"} ELSE JudgeAll(g, e.obs, Len(e.obs))
       IN /\ fails # {} => PrintT(ToJson([fail |-> fails, trace |-> t, line |-> l + 1, op |-> e.op]))
          /\ h' = g
    /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l, h>>
View == <<t, l>>
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Total(i - 1) + Len(Traces[i]) + 1
Consumed == TLCGet("stats").distinct = Total(Len(Traces))
=============================================================================
