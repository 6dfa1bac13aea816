------------------------------ MODULE VssPrint ------------------------------
(***************************************************************************)
(* The exporters that print nodes as text for reading: franca and tree.    *)
(***************************************************************************)
EXTENDS VssListing

(* Franca: an array of records, one per node below the root *)
FrancaAttrs(R, p, F) ==
  {S("type", KindOf(F)), E("description", Get(F, "description"))} \cup
  Keep(F, "datatype") \cup
  SIf(R.sc.uuid, "uuid", IF R.sc.uuid THEN Uuid5(Fqn(p)) ELSE "") \cup
  (IF NonEmptyStr(F, "unit") THEN Keep(F, "unit") ELSE {}) \cup
  SIf(Given(F, "min"), "min", TextOr(F, "min", "")) \cup
  SIf(Given(F, "max"), "max", TextOr(F, "max", "")) \cup
  SIf(Given(F, "allowed") /\ Get(F, "allowed").l # <<>>, "allowed", TextOr(F, "allowed", ""))
FrancaGroups(R) ==
  [nodes |-> {Node(p, FrancaAttrs(R, p, Full(R, p))) : p \in {q \in DOMAIN R.tree : Len(q) > 1}},
   version |-> {Node(<<IF R.opt.fversion = "" THEN "None" ELSE R.opt.fversion>>, {})}]

(* the drawing of a tree; every node with the attributes that were asked for *)
ShownText(v) == CASE v.k = "s" -> "'" \o v.s \o "'"
                  [] v.k = "d" -> "{...}"            \* the order of its entries is not modelled
                  [] OTHER -> PyText(v)
TreeAttrs(R, F) ==
  {S(n, ShownText(Get(F, n))) : n \in {m \in Range(R.opt.attrs) : Given(F, m)}} \cup
  SIf("fka" \in Range(R.opt.attrs) /\ ~ Has(F, "fka"), "fka", "[]")
TreeGroups(R) ==
  [nodes |-> {Node(p, TreeAttrs(R, Full(R, p))) : p \in DOMAIN R.tree}] @@
  (IF HasTypes(R) THEN [types |-> {Node(p, TreeAttrs(R, FullT(R, p))) : p \in DOMAIN R.ttree}] ELSE EmptyFn)
=============================================================================
