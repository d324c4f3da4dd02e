------------------------------ MODULE Versions ------------------------------
(* Small git histories, in every order of operations.                      *)
EXTENDS Version, Json
CONSTANTS TagNames, MaxCommits
VARIABLES h, last
Hash(n) == <<"1111111", "2222222", "3333333", "4444444", "5555555">>[n]
Did(a) == last' = a
Init == h = NoHistory /\ last = [op |-> "init"]
N == Len(h.parents)
Used == UNION {h.tags[c] : c \in 1..N}

Commit == N < MaxCommits /\ h' = DoCommit(h, Hash(N + 1), "") /\ Did([op |-> "commit"])
Merge(c) == /\ N < MaxCommits /\ ~h.dirty /\ c \notin Anc(h, h.head) /\ h.head \notin Anc(h, c)
            /\ h' = DoMerge(h, c, Hash(N + 1), "") /\ Did([op |-> "merge", c |-> c])
Tag(t) == N > 0 /\ t \notin Used /\ h' = DoTag(h, h.head, t) /\ Did([op |-> "tag", t |-> t, c |-> h.head])
Checkout(c) == ~h.dirty /\ c # h.head /\ h' = DoCheckout(h, c) /\ Did([op |-> "checkout", c |-> c])
Modify == N > 0 /\ ~h.dirty /\ h' = DoModify(h) /\ Did([op |-> "modify"])
Restore == h.dirty /\ h' = DoRestore(h) /\ Did([op |-> "restore"])
Next == \/ Commit \/ Modify \/ Restore
        \/ \E c \in 1..N : Merge(c) \/ Checkout(c)
        \/ \E t \in TagNames : Tag(t)
Spec == Init /\ [][Next]_<<h, last>>

Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
V == CheckoutVersions(h)
\* there always is a version, and it says whether the tree is modified
Total == N > 0 => V # {} /\ \A v \in V : Len(v) > 0 /\ Ends(v, ".dirty") = h.dirty
\* a clean checkout of a tagged commit is that version; nothing else is
ExactlyTagged == N > 0 =>
    /\ VTags(h, h.head) # {} /\ ~h.dirty => V = {Bare(t) : t \in VTags(h, h.head)}
    /\ VTags(h, h.head) = {} \/ h.dirty =>
         \A v \in V : \E i \in 1..(Len(v) - 8) : SubSeq(v, i, i + 8) = ".g" \o h.hash[h.head]
\* a version belongs to one commit and one state of the tree
Identifies == N > 0 =>
    \A c \in 1..N, d \in BOOLEAN :
       (c # h.head \/ d # h.dirty) => CheckoutVersions([h EXCEPT !.head = c, !.dirty = d]) \cap V = {}
\* an archive of a tagged commit agrees with its clean checkout, and has one version only
ArchiveAgrees == N > 0 =>
    \A c \in 1..N : /\ Cardinality(ArchiveVersions(h, c)) = 1
                     /\ VTags(h, c) # {} => ArchiveVersions(h, c) \subseteq CheckoutVersions([h EXCEPT !.head = c, !.dirty = FALSE])
\* at most one separator between a tag without + and the rest
OnePlus == N > 0 => \A v \in V : Cardinality({i \in 1..Len(v) : SubSeq(v, i, i) = "+"}) <= 1

View == h
Edge == [from |-> h, to |-> h', act |-> last']
PrintEdge == PrintT(ToJson(Edge))
=============================================================================
