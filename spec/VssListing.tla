----------------------------- MODULE VssListing -----------------------------
(***************************************************************************)
(* The exporters that list nodes with their attributes: json, yaml, csv,   *)
(* and id, which adds static identifiers.                                  *)
(***************************************************************************)
EXTENDS VssStages, VssHash

Full(R, p)  == Filled(R.tree[p], p, R.ctx)
FullT(R, p) == Filled(R.ttree[p], p, R.ctx)
Node(p, a) == [p |-> p, a |-> a]
HasTypes(R) == R.ttree # EmptyFn

S(n, text) == E(n, Str(text))
SIf(c, n, text) == IF c THEN {S(n, text)} ELSE {}
Keep(A, n) == {e \in A : e.n = n /\ ~ Unset(e.v)}

----------------------------------------------------------------------------
(* JSON and YAML *)
UuidAttr(R, p) == IF R.sc.uuid THEN {S("uuid", Uuid5(Fqn(p)))} ELSE {}
Listed(R) == {Node(p, Shown(R.tree[p], p, R.ctx, R.sc) \cup UuidAttr(R, p)) : p \in DOMAIN R.tree}
ListedTypes(R) == ShownTree(R.ttree, R.ctx, R.sc)

ListGroups(R) ==
  ("nodes" :> Listed(R)) @@
  (IF HasTypes(R) THEN (IF R.opt.typesout THEN "typesfile" ELSE "types") :> ListedTypes(R) ELSE EmptyFn)

----------------------------------------------------------------------------
(* CSV *)
CsvColumns(R, first) ==
  {first, "Type", "DataType", "Deprecated", "Unit", "Min", "Max", "Desc", "Comment", "Allowed", "Default"} \cup
  (IF R.sc.uuid THEN {"Id"} ELSE {}) \cup (IF R.sc.expand THEN {} ELSE {"Instances"})
CsvRow(R, p, F, uuid) ==
  {S("Type", KindOf(F)), S("DataType", TextOr(F, "datatype", "")), S("Deprecated", TextOr(F, "deprecation", "")),
   S("Unit", TextOr(F, "unit", "")), S("Min", TextOr(F, "min", "")), S("Max", TextOr(F, "max", "")),
   S("Desc", TextOr(F, "description", "")), S("Comment", TextOr(F, "comment", "")),
   S("Allowed", TextOr(F, "allowed", "")), S("Default", TextOr(F, "default", ""))} \cup
  SIf(R.sc.uuid, "Id", uuid) \cup
  SIf(~ R.sc.expand, "Instances", TextOr(F, "instances", IF KindOf(F) = "branch" THEN "[]" ELSE ""))
CsvRows(R)  == {Node(p, CsvRow(R, p, Full(R, p), IF R.sc.uuid THEN Uuid5(Fqn(p)) ELSE "")) : p \in DOMAIN R.tree}
CsvTypes(R) == {Node(p, CsvRow(R, p, FullT(R, p), "")) : p \in DOMAIN R.ttree}
Header(cols) == {Node(<<c>>, {}) : c \in cols}
CsvGroups(R) ==
  IF HasTypes(R) /\ ~ R.opt.typesout
  THEN [header |-> Header(CsvColumns(R, "Node")), rows |-> CsvRows(R) \cup CsvTypes(R)]
  ELSE IF HasTypes(R)
  THEN [header |-> Header(CsvColumns(R, "Signal")), rows |-> CsvRows(R),
        typesheader |-> Header(CsvColumns(R, "Node")), typesrows |-> CsvTypes(R)]
  ELSE [header |-> Header(CsvColumns(R, "Signal")), rows |-> CsvRows(R)]

----------------------------------------------------------------------------
(* static UIDs *)
IdName(F, p) == IF Has(F, "fka") /\ Get(F, "fka").l # <<>> THEN Get(F, "fka").l[1].s ELSE Fqn(p)
AllowedText(F) == IF Has(F, "allowed") /\ Get(F, "allowed").l # <<>> THEN PyText(Get(F, "allowed")) ELSE ""
IdentText(name, F) ==
  name \o ": unit: " \o TextOr(F, "unit", "") \o ", datatype: " \o TextOr(F, "datatype", "") \o
  ", type: " \o KindOf(F) \o "allowed: " \o AllowedText(F) \o
  "min: " \o TextOr(F, "min", "") \o "max: " \o TextOr(F, "max", "")
HashOf(name, F, casesens) ==
  LET b == Utf8(IdentText(name, F))
      w == Fnv1(IF casesens THEN b ELSE [i \in DOMAIN b |-> LowerByte(b[i])])
  IN "0x" \o Hex4(w[1], HexU) \o Hex4(w[2], HexU)
StaticUid(F, p, casesens) ==
  IF Given(F, "constUID") THEN Get(F, "constUID").s ELSE HashOf(IdName(F, p), F, casesens)

NonEmptyStr(F, n) == Given(F, n) /\ Get(F, n).s # ""
IdAttrs(F, uid) ==
  {S("staticUID", uid), S("type", KindOf(F)), E("description", Get(F, "description"))} \cup
  Keep(F, "datatype") \cup Keep(F, "allowed") \cup Keep(F, "min") \cup Keep(F, "max") \cup Keep(F, "fka") \cup
  (IF NonEmptyStr(F, "unit") THEN Keep(F, "unit") ELSE {}) \cup
  (IF NonEmptyStr(F, "deprecation") THEN Keep(F, "deprecation") ELSE {})

UidsOf(R) == TLCEval([p \in DOMAIN R.tree |-> StaticUid(TLCEval(Full(R, p)), p, R.opt.casesens)])
Collision(uids) == Cardinality({HexWord(uids[p]) : p \in DOMAIN uids}) < Cardinality(DOMAIN uids)
IdProblems(R) == LET u == UidsOf(R) IN Rule("static-uid-collision", ~ Collision(u))
IdGroups(R) == LET u == UidsOf(R) IN [nodes |-> {Node(p, IdAttrs(Full(R, p), u[p])) : p \in DOMAIN R.tree}]
=============================================================================
