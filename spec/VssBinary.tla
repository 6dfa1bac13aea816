------------------------------ MODULE VssBinary ------------------------------
(***************************************************************************)
(* The binary exporter: the nodes with the texts of their attributes.      *)
(* Texts are preceded by their length in one byte, descriptions and the    *)
(* list of allowed values by two; what does not fit is refused, and so are *)
(* full names longer or deeper than what the libraries reading it handle.  *)
(***************************************************************************)
EXTENDS VssListing

BinTexts == {"datatype", "min", "max", "unit", "default", "validate"}
(* the text of an attribute, empty if there is none *)
BinText(F, n) == IF Has(F, n) /\ ~ Unset(Get(F, n)) THEN PyText(Get(F, n)) ELSE ""
BinAllowed(F) == IF Given(F, "allowed") THEN [i \in DOMAIN Get(F, "allowed").l |-> Str(PyText(Get(F, "allowed").l[i]))] ELSE <<>>
BinAttrs(R, p, F) ==
  {S("type", KindOf(F))} \cup
  UNION {SIf(BinText(F, n) # "", n, BinText(F, n)) : n \in BinTexts \cup {"description"}} \cup
  SIf(R.sc.uuid, "uuid", IF R.sc.uuid THEN Uuid5(Fqn(p)) ELSE "") \cup
  (IF BinAllowed(F) # <<>> THEN {E("allowed", List(BinAllowed(F)))} ELSE {})
BinGroups(R) == [nodes |-> {Node(p, BinAttrs(R, p, Full(R, p))) : p \in DOMAIN R.tree}]

ByteLen(s) == FoldLeft(LAMBDA n, ch : n + Len(BytesOfChar(ch)), 0, CharsOf(s))
BinFits(R, p, F) ==
  /\ ByteLen(LastOf(p)) <= 255
  /\ ByteLen(Fqn(p)) <= 511 /\ Len(p) <= 99         \* what the libraries can search
  /\ \A n \in BinTexts : ByteLen(BinText(F, n)) <= 255
  /\ ByteLen(BinText(F, "description")) <= 65535
  /\ Len(BinAllowed(F)) <= 255
  /\ \A i \in DOMAIN BinAllowed(F) : ByteLen(BinAllowed(F)[i].s) <= 255
  /\ Cardinality(Children(R.tree, p)) <= 255
BinProblems(R) == Rule("too-long", \A p \in DOMAIN R.tree : BinFits(R, p, Full(R, p)))
=============================================================================
