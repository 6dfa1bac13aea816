-------------------------------- MODULE MCId --------------------------------
(***************************************************************************)
(* C16: histories of edits to a node.  A state is one version of the       *)
(* model; every step changes one attribute of the node or another part of  *)
(* the model.  The static UID changes exactly with the attributes that     *)
(* make up the identity of the node, and comes back when they come back.   *)
(***************************************************************************)
EXTENDS MCExpBase

VARIABLES nodeAttrs,    \* the attributes of node R.X.Y
          restOf,     \* what else the model contains
          nodeUid       \* its static UID

evars == <<xvars, nodeAttrs, restOf, nodeUid>>

Name == <<"R", "X", "Y">>
Relevant == [unit |-> {Null, Str("m"), Str("degC")},
             datatype |-> {Str("uint8"), Str("int8")},
             type |-> {Str("sensor"), Str("attribute")},
             allowed |-> {Null, List(<<IntV("1"), IntV("2")>>), List(<<IntV("2"), IntV("1")>>)},
             min |-> {Null, IntV("0"), IntV("5")},
             max |-> {Null, IntV("5")},
             constUID |-> {Null, Str("0x000000FF"), Str("0x000000fa")},
             fka |-> {Null, List(<<Str("R.Old")>>), List(<<Str("R.OLD"), Str("R.Older")>>)}]
Irrelevant == [description |-> {Str("d"), Str("unit: m")},
               comment |-> {Null, Str("c")},
               deprecation |-> {Null, Str("gone")},
               default |-> {Null, IntV("1")},
               e1 |-> {Null, Str("x")}]
Edits == Relevant @@ Irrelevant
First == {E(n, CHOOSE v \in Edits[n] : TRUE) : n \in {"type", "description", "datatype"}}

Rests == {"none", "sibling", "other root text", "twin", "same constUID"}
Model(A, r) ==
  [S0 EXCEPT !.files =
     <<File("m.vspec", <<D(<<"R">>, Branch(IF r = "other root text" THEN "rr" ELSE "r")), D(<<"R", "X">>, Branch("x")),
                         D(Name, {e \in A : e.v.k # "n"})>> \o
                       If(r = "sibling", <<D(<<"R", "X", "Z">>, Leaf("sensor", "uint8", "z"))>>) \o
                       If(r = "same constUID", <<D(<<"R", "X", "Z">>, Leaf("sensor", "uint8", "z") \cup {E("constUID", Str("0x000000Fa"))})>>) \o
                       If(r = "twin", <<D(<<"R", "X", "Z">>, {e \in A : e.v.k # "n" /\ e.n # "fka"} \cup {E("fka", List(<<Str("R.X.Y")>>))})>>)),
       [name |-> "units.yaml", incs |-> <<>>, entries |->
          <<[p |-> <<"m">>, v |-> Dict({E("definition", Str("m")), E("unit", Str("meter")), E("quantity", Str("q")),
                                        E("allowed-datatypes", List(<<Str("numeric")>>))})],
            [p |-> <<"degC">>, v |-> Dict({E("definition", Str("m")), E("unit", Str("c")), E("quantity", Str("q")),
                                        E("allowed-datatypes", List(<<Str("numeric")>>))})]>>],
       [name |-> "quantities.yaml", incs |-> <<>>, entries |-> <<[p |-> <<"q">>, v |-> Dict({E("definition", Str("q"))})]>>]>>,
     !.extall = FALSE]

CONSTANT CaseSens
Uid(A) == StaticUid({e \in A : e.v.k # "n"}, Name, CaseSens)

Init ==
  /\ nodeAttrs = First
  /\ restOf = "none"
  /\ nodeUid = Uid(First)
  /\ tool = "id"
  /\ opt = [O0 EXCEPT !.casesens = CaseSens]
  /\ InitWith(Model(First, "none"))

Edited(n, v) == Without(nodeAttrs, {n}) \cup (IF v = Null THEN {} ELSE {E(n, v)})
Bound == IF Size > 1 THEN 3 ELSE 2

EditAttr(n, v) ==
  /\ v # GetOr(nodeAttrs, n, Null)
  /\ nodeAttrs' = Edited(n, v)
  /\ Cardinality({e \in nodeAttrs' : e \notin First}) <= Bound
  /\ nodeUid' = Uid(nodeAttrs')
  /\ UNCHANGED restOf
EditRest(r) ==
  /\ r # restOf
  /\ restOf' = r
  /\ UNCHANGED <<nodeAttrs, nodeUid>>

Edit == (\/ \E n \in DOMAIN Edits : \E v \in Edits[n] : EditAttr(n, v)
         \/ \E r \in Rests : EditRest(r))
        /\ pc' = "options" /\ sc' = Model(nodeAttrs', restOf')
        /\ UNCHANGED <<jobs, flat, hist, ctx, ttree, tree, err, tool, opt>>
Emit == /\ pc = "options"
        /\ PrintT(<<"@X", ToJson(sc), tool, ToJson(opt)>>)
        /\ pc' = "reported"
        /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, err, tool, opt, nodeAttrs, restOf, nodeUid>>

Spec == Init /\ [][Edit \/ Emit]_evars

EditView == <<nodeAttrs, restOf, pc = "reported">>

----------------------------------------------------------------------------
Identity(A) == IF Given(A, "constUID") THEN {Get(A, "constUID")}
               ELSE {[n |-> n, v |-> GetOr(A, n, Null)] : n \in {"unit", "datatype", "type", "allowed", "min", "max"}} \cup
                    {[n |-> "name", v |-> IF GetOr(A, "fka", List(<<>>)).l = <<>> THEN Str("R.X.Y") ELSE
                        LET f == Get(A, "fka").l[1] IN IF CaseSens THEN f ELSE Str(LowerCase(f.s))]}
UidFollowsIdentity == [][(nodeUid' = nodeUid) <=> (Identity(nodeAttrs') = Identity(nodeAttrs))]_evars
UidShape == Len(nodeUid) = 10 /\ StartsWith(nodeUid, "0x") /\ CharSet(SubSeq(nodeUid, 3, 10)) \subseteq HexDigit
=============================================================================
