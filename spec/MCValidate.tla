----------------------------- MODULE MCValidate -----------------------------
(***************************************************************************)
(* C17: every combination of edits to the nodes of a model between two     *)
(* versions.  What has to be reported follows from the edits themselves.   *)
(***************************************************************************)
EXTENDS VssValidate, Json

CONSTANT Size
D(p, A) == [p |-> p, v |-> Dict(A)]
Desc(d)   == {E("description", Str(d))}
Type(k)   == {E("type", Str(k))}
Leaf(kind, dt, d) == Type(kind) \cup Desc(d) \cup {E("datatype", Str(dt))}

VARIABLES edits       \* what was done to which node
mvars == <<valvars, edits>>

X == <<"R", "X">>
Y == <<"R", "B", "Y">>
B == <<"R", "B">>
X0 == Leaf("sensor", "uint8", "x") \cup {E("unit", Str("m")), E("deprecation", Str("soon"))}
Y0 == Leaf("actuator", "string", "y") \cup {E("allowed", List(<<Str("a"), Str("b")>>))}
B0 == Type("branch") \cup Desc("b")
Fka(names) == {E("fka", List([n \in DOMAIN names |-> Str(names[n])]))}

(* an edit: new path, new attributes ({} = deleted), reports for it *)
Edit(p, a, r) == [p |-> p, a |-> a, r |-> r]
XEdits(cs) ==
  [none |-> Edit(X, X0, {}),
   datatype |-> Edit(X, Put(X0, "datatype", Str("int8")), {<<"breaking", "R.X">>}),
   unit |-> Edit(X, Put(X0, "unit", Str("meter")), {<<"breaking", "R.X">>}),
   min |-> Edit(X, Put(X0, "min", IntV("0")), {<<"breaking", "R.X">>}),
   type |-> Edit(X, Put(X0, "type", Str("attribute")), {<<"breaking", "R.X">>}),
   description |-> Edit(X, Put(X0, "description", Str("other")), {<<"description", "R.X">>}),
   message |-> Edit(X, Put(X0, "deprecation", Str("now")), {<<"deprecation", "R.X">>}),
   undeprecated |-> Edit(X, Without(X0, {"deprecation"}), {}),
   comment |-> Edit(X, X0 \cup {E("comment", Str("c")), E("default", IntV("3")), E("e1", Str("v"))}, {}),
   both |-> Edit(X, Put(Put(X0, "description", Str("other")), "datatype", Str("uint16")), {<<"breaking", "R.X">>}),
   renamed |-> Edit(<<"R", "Xx">>, X0, {<<"deleted", "R.X">>, <<"added", "R.Xx">>}),
   kept |-> Edit(<<"R", "Xx">>, X0 \cup Fka(<<"R.X">>), {<<"semantic", "R.Xx", "R.X">>}),
   older |-> Edit(<<"R", "Xx">>, X0 \cup Fka(<<"R.X0", "R.X">>), {<<"semantic", "R.Xx", "R.X">>}),
   lower |-> Edit(<<"R", "Xx">>, X0 \cup Fka(<<"r.x">>),
                  IF cs THEN {<<"deleted", "R.X">>, <<"added", "R.Xx">>} ELSE {<<"semantic", "R.Xx", "R.X">>}),
   moved |-> Edit(<<"R", "C", "X">>, Put(X0, "description", Str("moved")) \cup Fka(<<"R.X">>),
                  {<<"semantic", "R.C.X", "R.X">>, <<"description", "R.C.X">>}),
   wrongfka |-> Edit(<<"R", "Xx">>, Put(X0, "datatype", Str("int8")) \cup Fka(<<"R.X">>), {<<"deleted", "R.X">>, <<"added", "R.Xx">>}),
   fkaonly |-> Edit(X, X0 \cup Fka(<<"R.Gone">>), {<<"breaking", "R.X">>}),
   const |-> Edit(X, X0 \cup {E("constUID", Str("0x00000001"))}, {<<"breaking", "R.X">>}),
   deleted |-> Edit(X, {}, {<<"deleted", "R.X">>})]
BEdits ==
  [none |-> Edit(B, B0, {}),
   description |-> Edit(B, Put(B0, "description", Str("other")), {<<"description", "R.B">>}),
   renamed |-> Edit(<<"R", "Bb">>, B0, {<<"deleted", "R.B">>, <<"added", "R.Bb">>}),
   kept |-> Edit(<<"R", "Bb">>, B0 \cup Fka(<<"R.B">>), {<<"semantic", "R.Bb", "R.B">>})]
(* edits of the leaf below the branch, given the path of the branch *)
YEdits(b) ==
  LET y == b \o <<"Y">>
      lost == {<<"deleted", "R.B.Y">>, <<"added", Fqn(y)>>}
  IN [none |-> Edit(y, Y0, IF b = B THEN {} ELSE lost),
      kept |-> Edit(y, Y0 \cup Fka(<<"R.B.Y">>), IF b = B THEN {} ELSE {<<"semantic", Fqn(y), "R.B.Y">>}),
      allowed |-> Edit(y, Put(Y0, "allowed", List(<<Str("a"), Str("c")>>)), IF b = B THEN {<<"breaking", "R.B.Y">>} ELSE lost),
      deleted |-> Edit(y, {}, {<<"deleted", "R.B.Y">>})]
News == [none |-> <<>>, leaf |-> <<<<"R", "New">>>>, two |-> <<<<"R", "New">>, <<"R", "Old">>>>]

Units == <<[name |-> "units.yaml", incs |-> <<>>, entries |->
            <<D(<<"m">>, {E("definition", Str("m")), E("unit", Str("meter")), E("quantity", Str("q")), E("allowed-datatypes", List(<<Str("numeric")>>))})>>],
           [name |-> "quantities.yaml", incs |-> <<>>, entries |-> <<D(<<"q">>, {E("definition", Str("q"))})>>]>>
Model(ds, strict) ==
  [files |-> <<[name |-> "m.vspec", incs |-> <<>>, entries |-> <<D(<<"R">>, Type("branch") \cup Desc("r")), D(<<"R", "C">>, Type("branch") \cup Desc("c"))>> \o ds]>> \o Units,
   main |-> "m.vspec", overlays |-> <<>>, idirs |-> <<>>, types |-> <<>>, quantities |-> <<>>, units |-> <<>>,
   strict |-> strict, aborts |-> {}, exts |-> {"staticUID", "e1"}, extall |-> FALSE, uuid |-> FALSE, expand |-> TRUE]
Put1(e) == IF e.a = {} THEN <<>> ELSE <<D(e.p, e.a)>>
NewLeaf(p) == D(p, Leaf("sensor", "float", "new"))

BeOf(es) == BEdits[es[2]]
YeOf(es) == YEdits(BeOf(es).p)[es[3]]
Later(es, strict) ==
  Model(Put1(XEdits(FALSE)[es[1]]) \o Put1(BeOf(es)) \o Put1(YeOf(es)) \o [n \in DOMAIN News[es[4]] |-> NewLeaf(News[es[4]][n])], strict)
Earlier == Model(<<D(X, X0), D(B, B0), D(Y, Y0)>>, FALSE)

NoDoctor == [kind |-> "", p |-> <<>>, to |-> <<>>]
Init ==
  \E x \in {"none", "datatype", "unit", "min", "type", "description", "message", "undeprecated", "comment", "both", "renamed", "kept", "older",
            "lower", "moved", "wrongfka", "fkaonly", "const", "deleted"}, b \in DOMAIN BEdits, y \in {"none", "kept", "allowed", "deleted"},
     n \in (IF Size > 1 THEN DOMAIN News ELSE {"none", "leaf"}), cs \in BOOLEAN, st \in (IF Size > 1 THEN BOOLEAN ELSE {FALSE}) :
    /\ edits = <<x, b, y, n>>
    /\ plan = [later |-> Later(<<x, b, y, n>>, st), oldcase |-> cs, casesens |-> cs, only |-> n = "leaf", doctor |-> NoDoctor]
    /\ phase = "old" /\ oldIds = {} /\ current = NoResult /\ failures = {}
    /\ InitWith(Earlier)

Emit ==
  /\ phase = "end"
  /\ PrintT(<<"@H", ToJson(Earlier), ToJson(plan)>>)
  /\ phase' = "reported"
  /\ UNCHANGED <<vars, plan, oldIds, current, failures, edits>>
Spec == Init /\ [][(VStep /\ UNCHANGED edits) \/ Emit]_mvars
EditView == <<edits, plan, phase, pc, jobs, tree>>

----------------------------------------------------------------------------
Expected == XEdits(plan.casesens)[edits[1]].r \cup BeOf(edits).r \cup YeOf(edits).r \cup {<<"added", Fqn(p)>> : p \in Range(News[edits[4]])}
NeverFails == phase = "end" => failures = {}
ReportsFollowEdits ==
  phase = "end" => \A o \in Outcomes : ~ o.dup /\ {x.p : x \in o.rep} = Expected
Identical == (phase = "end" /\ edits = <<"none", "none", "none", "none">>) => Outcomes = {[dup |-> FALSE, rep |-> {}]}
=============================================================================
