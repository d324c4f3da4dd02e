------------------------------ MODULE Version ------------------------------
(***************************************************************************)
(* The version reported by a source tree, as a function of its git history *)
(* or of what was left of it when it was exported.                         *)
(*                                                                         *)
(* A history is a record: parents (a set of earlier commits per commit),   *)
(* tags (a set of names per commit), hash (40 hex digits per commit), date *)
(* (text per commit), head (0 before the first commit) and dirty (tracked  *)
(* files differ from head).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Prefix == "v"
DirPrefix == "openscm_twolayermodel-"

NoHistory == [parents |-> <<>>, tags |-> <<>>, hash |-> <<>>, date |-> <<>>, head |-> 0, dirty |-> FALSE]

DoCommit(h, hash, date) ==
    [h EXCEPT !.parents = Append(@, IF h.head = 0 THEN {} ELSE {h.head}), !.tags = Append(@, {}),
              !.hash = Append(@, hash), !.date = Append(@, date), !.head = Len(h.parents) + 1, !.dirty = FALSE]
DoMerge(h, c, hash, date) ==
    [h EXCEPT !.parents = Append(@, {h.head, c}), !.tags = Append(@, {}), !.hash = Append(@, hash),
              !.date = Append(@, date), !.head = Len(h.parents) + 1]
DoTag(h, c, t) == [h EXCEPT !.tags = [@ EXCEPT ![c] = @ \cup {t}]]
DoUntag(h, c, t) == [h EXCEPT !.tags = [@ EXCEPT ![c] = @ \ {t}]]
DoCheckout(h, c) == [h EXCEPT !.head = c]
DoModify(h) == [h EXCEPT !.dirty = TRUE]
DoRestore(h) == [h EXCEPT !.dirty = FALSE]

RECURSIVE Anc(_, _)
Anc(h, c) == {c} \cup UNION {Anc(h, q) : q \in h.parents[c]}

HasPrefix(t) == Len(t) > 1 /\ SubSeq(t, 1, 1) = Prefix
Bare(t) == SubSeq(t, 2, Len(t))
VTags(h, c) == {t \in h.tags[c] : HasPrefix(t)}
HasPlus(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = "+"

Tagged(h) == {c \in Anc(h, h.head) : VTags(h, c) # {}}
Dist(h, c) == Cardinality(Anc(h, h.head) \ Anc(h, c))
Nearest(h) == {c \in Tagged(h) : \A q \in Tagged(h) : Dist(h, c) <= Dist(h, q)}

\* an abbreviated hash identifies the commit: 7 digits or more of it
Short(h) == {SubSeq(h.hash[h.head], 1, k) : k \in 7..Len(h.hash[h.head])}
DirtyMark(h) == IF h.dirty THEN ".dirty" ELSE ""

\* what a checkout may report (several where the nearest tag is not unique)
CheckoutVersions(h) ==
    IF Tagged(h) = {}
    THEN {"0+untagged." \o ToString(Cardinality(Anc(h, h.head))) \o ".g" \o s \o DirtyMark(h) : s \in Short(h)}
    ELSE UNION {
           LET b == Bare(t) d == Dist(h, c)
           IN IF d = 0 /\ ~h.dirty THEN {b}
              ELSE {b \o (IF HasPlus(b) THEN "." ELSE "+") \o ToString(d) \o ".g" \o s \o DirtyMark(h) : s \in Short(h)}
           : <<c, t>> \in {<<q, u>> \in Nearest(h) \X UNION {VTags(h, x) : x \in Nearest(h)} : u \in VTags(h, q)}}

\* what an exported archive of commit c may report
\* (of several tags the first in sorted order: "2.0" before "2.0rc1")
Sorted == "+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rank(ch) == CHOOSE i \in 1..Len(Sorted) : SubSeq(Sorted, i, i) = ch
Before(s, t) ==
    \/ Len(s) < Len(t) /\ SubSeq(t, 1, Len(s)) = s
    \/ \E i \in 1..Len(s) : /\ i <= Len(t) /\ SubSeq(s, 1, i - 1) = SubSeq(t, 1, i - 1)
                           /\ Rank(SubSeq(s, i, i)) < Rank(SubSeq(t, i, i))
ArchiveVersions(h, c) ==
    IF VTags(h, c) = {} THEN {"0+unknown"}
    ELSE {Bare(t) : t \in {u \in VTags(h, c) : \A w \in VTags(h, c) \ {u} : Before(u, w)}}

\* the names of the directory unpacked into and of the two above it, innermost first
DirVersion(dirs) ==
    LET named == {i \in 1..3 : i <= Len(dirs) /\ Len(dirs[i]) >= Len(DirPrefix) /\ SubSeq(dirs[i], 1, Len(DirPrefix)) = DirPrefix}
    IN IF named = {} THEN "0+unknown"
       ELSE LET i == CHOOSE x \in named : \A y \in named : x <= y
            IN SubSeq(dirs[i], Len(DirPrefix) + 1, Len(dirs[i]))
=============================================================================
