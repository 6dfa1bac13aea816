------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Exhaustive design checking.  An MC module names a finite set of         *)
(* Scenarios; TLC runs every one of them through every order of the        *)
(* pipeline's actions, checks the invariants (properties stated            *)
(* declaratively, independent of how the stages compute) and prints each   *)
(* scenario with its outcome, which the harness replays into the real      *)
(* tool.                                                                   *)
(***************************************************************************)
EXTENDS VssPipeline, Json

CONSTANT Size          \* 1: quick, 2: thorough

D(p, A) == [p |-> p, v |-> Dict(A)]
File(name, entries) == [name |-> name, entries |-> entries, incs |-> <<>>]
FileI(name, entries, incs) == [name |-> name, entries |-> entries, incs |-> incs]
Inc(target, prefix) == [target |-> target, prefix |-> prefix]

Desc(d)   == {E("description", Str(d))}
Type(k)   == {E("type", Str(k))}
Branch(d) == Type("branch") \cup Desc(d)
Leaf(kind, dt, d) == Type(kind) \cup Desc(d) \cup {E("datatype", Str(dt))}

S0 == [files |-> <<>>, main |-> "m.vspec", overlays |-> <<>>, idirs |-> <<>>, types |-> <<>>,
       quantities |-> <<>>, units |-> <<>>, strict |-> FALSE, aborts |-> {}, exts |-> {},
       extall |-> TRUE, uuid |-> FALSE, expand |-> TRUE]

If(c, x) == IF c THEN x ELSE <<>>
IfSet(c, x) == IF c THEN x ELSE {}

Final == pc = "done"
Dom == DOMAIN tree

Report ==
  /\ Ended
  /\ PrintT(<<"@S", ToJson(sc), ToJson(Outcome)>>)
  /\ pc' = "reported"
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, err>>

MCNext == Step \/ Report
TypeOK == pc \in {"options", "units", "types", "start", "load", "expand", "resolve", "delete",
                  "check", "done", "failed", "reported"}
FailsWithReason == (pc = "failed" => err # {}) /\ (pc = "done" => err = {})
=============================================================================
