------------------------------- MODULE MCLib -------------------------------
(***************************************************************************)
(* C19: every history of calls of the two libraries, up to a length: each  *)
(* reads, writes and lists trees, over shared files.  A file is what it is *)
(* on disk, a sequence of records that say how many children follow; a     *)
(* library holds the tree it rebuilt from them.                            *)
(***************************************************************************)
EXTENDS VssLib, Json

CONSTANTS Size, Len1, Slots
VARIABLES disk, mem, calls
mvars == <<disk, mem, calls>>

At(p, A) == [p |-> p, a |-> A]
K(k, n) == {E("type", Str(k)), E("description", Str(n))}
V1 == <<At(<<"Vehicle">>, K("branch", "v")),
        At(<<"Vehicle", "A">>, K("branch", "a") \cup {E("validate", Str("read-write"))}),
        At(<<"Vehicle", "A", "X">>, K("sensor", "x") \cup {E("datatype", Str("uint8")), E("unit", Str("km")), E("min", Str("0")),
            E("max", Str("9")), E("default", Str("1")), E("allowed", List(<<Str("1"), Str("größer")>>)), E("uuid", Str("00aa"))}),
        At(<<"Vehicle", "A", "Y">>, K("actuator", "") \cup {E("validate", Str("write-only+consent")), E("uuid", Str("00bb"))}),
        At(<<"Vehicle", "B">>, K("branch", "empty")),
        At(<<"Vehicle", "C">>, K("attribute", "c") \cup {E("validate", Str("read-write+consent"))})>>
V2 == <<At(<<"W">>, K("branch", "w")), At(<<"W", "Z">>, K("sensor", "z") \cup {E("datatype", Str("string[]"))})>>
NonEmpty(t) == [i \in DOMAIN t |-> [p |-> t[i].p, a |-> {e \in t[i].a : e.v # Str("")}]]
Trees == {NonEmpty(V1), NonEmpty(V2)}

----------------------------------------------------------------------------
(* the format: a node, then its children, each followed by its own *)
ChildrenOf(t, i) == {j \in DOMAIN t : Len(t[j].p) = Len(t[i].p) + 1 /\ IsPfx(t[i].p, t[j].p)}
Records(t) == [i \in DOMAIN t |-> [name |-> t[i].p[Len(t[i].p)], a |-> t[i].a, v |-> t[i].v, n |-> Cardinality(ChildrenOf(t, i))]]
(* reading: the nodes whose children are still to come, with how many, and the tree so far *)
RECURSIVE PopFull(_)
PopFull(open) == IF open # <<>> /\ open[Len(open)].n = 0 THEN PopFull(SubSeq(open, 1, Len(open) - 1)) ELSE open
TakeRecord(acc, r) ==
  LET up == IF acc.open = <<>> THEN <<>> ELSE acc.open[Len(acc.open)].p
      less == [i \in DOMAIN acc.open |-> IF i = Len(acc.open) THEN [acc.open[i] EXCEPT !.n = @ - 1] ELSE acc.open[i]]
  IN [open |-> PopFull(Append(less, [p |-> Append(up, r.name), n |-> r.n])),
      tree |-> Append(acc.tree, [p |-> Append(up, r.name), a |-> r.a, v |-> r.v])]
ReadAll(rs) == FoldLeft(TakeRecord, [open |-> <<>>, tree |-> <<>>], rs)
Rebuilt(rs) == ReadAll(rs).tree

(* how the setting is written: the text of it, if there is one *)
TextOf(c) == (IF c % 10 = 1 THEN "write-only" ELSE IF c % 10 = 2 THEN "read-write" ELSE "") \o (IF c >= 10 THEN "+consent" ELSE "")

----------------------------------------------------------------------------
Libs == {"c", "go"}
MInit == /\ disk = ("a" :> Records(Loaded(NonEmpty(V1)))) @@ ("b" :> Records(Loaded(NonEmpty(V2))))
         /\ mem = EmptyFn /\ calls = <<>>
Do(e) == calls' = Append(calls, e)
Query == [root |-> 0, segs |-> <<"*", "*">>, limit |-> 9, any |-> FALSE, leaves |-> TRUE, scope |-> <<>>]
CallRead(l, s, f) == /\ mem' = Override(mem, <<l, s>> :> Rebuilt(disk[f]))
                     /\ Do([op |-> "read", lib |-> l, slot |-> s, file |-> f]) /\ UNCHANGED disk
CallWrite(l, s, f) == /\ <<l, s>> \in DOMAIN mem
                      /\ disk' = Override(disk, f :> Records(mem[<<l, s>>]))
                      /\ Do([op |-> "write", lib |-> l, slot |-> s, file |-> f]) /\ UNCHANGED mem
CallList(l, s, o) == /\ <<l, s>> \in DOMAIN mem /\ Do([op |-> o, lib |-> l, slot |-> s]) /\ UNCHANGED <<disk, mem>>
CallFind(l, s) == /\ <<l, s>> \in DOMAIN mem
                  /\ Do([op |-> "search", lib |-> l, slot |-> s] @@ Query) /\ UNCHANGED <<disk, mem>>
MNext == Len(calls) < Len1 /\ \E l \in Libs, s \in 1..Slots :
           \/ \E f \in DOMAIN disk : CallRead(l, s, f)
           \/ \E f \in {"a", "c"} : CallWrite(l, s, f)
           \/ \E o \in {"leaves", "uuids"} : CallList(l, s, o)
           \/ CallFind(l, s)
MEnd == Len(calls) = Len1 /\ PrintT(<<"@H", ToJson(calls)>>) /\ calls' = Append(calls, [op |-> "end"]) /\ UNCHANGED <<disk, mem>>
Spec == MInit /\ [][MNext \/ MEnd]_mvars

----------------------------------------------------------------------------
Given2 == {Loaded(t) : t \in Trees}
(* whatever was read and written, by whom and how often *)
RoundTrip == /\ \A f \in DOMAIN disk : Rebuilt(disk[f]) \in Given2 /\ ReadAll(disk[f]).open = <<>>
             /\ \A k \in DOMAIN mem : mem[k] \in Given2
(* a call changes nothing but what it is asked to change *)
Isolated == [][/\ Cardinality({f \in DOMAIN disk' : f \notin DOMAIN disk \/ disk'[f] # disk[f]}) +
                   Cardinality({k \in DOMAIN mem' : k \notin DOMAIN mem \/ mem'[k] # mem[k]}) <= 1
               /\ DOMAIN disk \subseteq DOMAIN disk' /\ DOMAIN mem \subseteq DOMAIN mem']_<<disk, mem>>
(* the settings survive being written as text *)
SettingsSurvive == \A c \in {0, 1, 2, 11, 12} : ValidateCode(TextOf(c)) = c
(* lists agree with the tree *)
ListsAgree == \A k \in DOMAIN mem : /\ Len(LeafUuids(mem[k])) = Len(LeafPaths(mem[k]))
                                    /\ Len(LeafPaths(mem[k])) = Cardinality({i \in DOMAIN mem[k] : ChildrenOf(mem[k], i) = {} /\ IsLeaf(mem[k][i])})
=============================================================================
