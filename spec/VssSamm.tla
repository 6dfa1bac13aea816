------------------------------ MODULE VssSamm ------------------------------
(***************************************************************************)
(* The samm exporter: aspect models (Turtle files), read along the paths a *)
(* payload of the aspect has - from the property of the top aspect through *)
(* the characteristics and entities to every signal.                       *)
(***************************************************************************)
EXTENDS VssListing

(* names in payloads: the first letter small, abbreviations like words *)
SammWord(s) == Concat([i \in 1 .. Len(s) |->
  LET ch == Ch(s, i)
      after == Ch(s, IF i = Len(s) THEN i ELSE i + 1)
  IN IF ch \in Upper /\ (i = 1 \/ after \in Upper \cup Digit) THEN ToLowerCh[ch] ELSE ch])

SammBlank(F, n) == ~ Given(F, n) \/ CharSet(Get(F, n).s) \subseteq {" ", "\t", "\n"}
SammDeprecated(F) == ~ SammBlank(F, "deprecation")

(* which nodes are selected: with a list of paths, the signals on one of them or below it *)
SammSelected(R) ==
  LET sel == {SplitStr(x, ".") : x \in Range(R.opt.signals) \ {""}}
      hit == {p \in DOMAIN R.tree : KindOf(R.tree[p]) # "branch" /\ \E q \in sel : IsPfx(p, q) \/ IsPfx(q, p)}
  IN IF R.opt.signals = <<>> THEN DOMAIN R.tree
     ELSE {p \in DOMAIN R.tree : \E q \in hit : IsPfx(p, q)}

SammIsAspect(R, p) ==
  Len(p) = 1 \/ (R.opt.split /\ KindOf(R.tree[p]) = "branch" /\ Len(p) - 1 <= R.opt.depth)
(* an aspect without anything but deprecated nodes is left out *)
SammEmpty(R, sel, p) == \A c \in Children(R.tree, p) \cap sel : SammDeprecated(R.tree[c])
SammShown(R) ==
  LET sel == SammSelected(R)
      out == {p \in sel : SammDeprecated(R.tree[p]) \/ (SammIsAspect(R, p) /\ SammEmpty(R, sel, p))}
  IN {p \in sel : ~ \E q \in out : IsPfx(q, p)}

----------------------------------------------------------------------------
(* instances are levels of their own between a branch and its children *)
SammInst(A, p) ==
  IF Has(A, "instances") /\ ~ Unset(NormInstances(Get(A, "instances"))) THEN Generated(p, InstancesOf(A)) ELSE {}
SammSteps(names) == [i \in DOMAIN names |-> SammWord(names[i])]
SammTails(A, p) ==   \* the ways from a branch to its children
  LET gen == SammInst(A, p) IN IF gen = {} THEN {<<>>} ELSE {SammSteps(Drop(g, Len(p))) : g \in LeavesOf(gen)}
SammInner(A, p) ==   \* the instance levels above the last one
  LET gen == SammInst(A, p) IN {SammSteps(Drop(g, Len(p))) : g \in gen \ LeavesOf(gen)} \cup (IF gen = {} THEN {} ELSE {<<>>})

SammPaths(R, p) ==   \* where the payload has the node p itself, not yet its instances
  LET step(acc, i) ==
        LET q == SubSeq(p, 1, i - 1) IN {x \o t \o <<SammWord(p[i])>> : x \in acc, t \in SammTails(R.tree[q], q)}
  IN FoldLeft(step, {<<"/">>}, [i \in 1 .. Len(p) - 1 |-> i + 1])

----------------------------------------------------------------------------
SammDescription(F, p) ==
  LET d == IF SammBlank(F, "description") THEN "" ELSE "\n\nDescription: " \o Get(F, "description").s
      c == IF SammBlank(F, "comment") THEN ""
           ELSE (IF d = "" THEN "\n\nComment: " ELSE "\n\nComment   : ") \o Get(F, "comment").s
      u == IF SammBlank(F, "unit") THEN ""
           ELSE (IF d \o c = "" THEN "\n\nUnit: " ELSE "\n\nUnit             : ") \o Get(F, "unit").s
      space == IF d # "" THEN "    " ELSE IF c # "" THEN " " ELSE ""
  IN "\nVSS path" \o space \o ": " \o Fqn(p) \o d \o c \o u

SammType(F) ==
  LET dt == ElemDt(Get(F, "datatype").s) IN
  IF TextOr(F, "unit", "") = "iso8601" THEN "dateTimeStamp"
  ELSE CASE dt = "uint8" -> "unsignedByte"   [] dt = "int8" -> "byte"
         [] dt = "uint16" -> "unsignedShort" [] dt = "int16" -> "short"
         [] dt = "uint32" -> "unsignedInt"   [] dt = "int32" -> "int"
         [] dt = "uint64" -> "unsignedLong"  [] dt = "int64" -> "long"
         [] dt \in {"boolean", "float", "double", "string"} -> dt
         [] OTHER -> "double"
SammUnit(u) ==
  CASE u = "m" -> "metre" [] u = "mm" -> "millimetre" [] u = "km" -> "kilometre" [] u = "inch" -> "inch"
    [] u = "m/s" -> "metrePerSecond" [] u = "km/h" -> "kilometrePerHour" [] u = "cm/s" -> "centimetrePerSecond"
    [] u \in {"m/s^2", "m/s2"} -> "metrePerSecondSquared"
    [] u \in {"cm^3", "cm3"} -> "cubicCentimetre" [] u = "ml" -> "millilitre" [] u = "l" -> "litre"
    [] u = "g/s" -> "gramPerSecond" [] u = "kg" -> "kilogram" [] u \in {"percent", "percentage"} -> "percent"
    [] u \in {"degrees", "degree"} -> "degreeUnitOfAngle" [] u = "degrees/s" -> "degreePerSecond"
    [] u = "celsius" -> "degreeCelsius" [] u = "V" -> "volt" [] u = "A" -> "ampere" [] u = "Ah" -> "ampereHour"
    [] u = "W" -> "watt" [] u \in {"kW", "kw"} -> "kilowatt" [] u = "kWh" -> "kilowattHour"
    [] u \in {"Nm", "N.m"} -> "newtonMetre" [] u = "rpm" -> "revolutionsPerMinute" [] u = "mbar" -> "millibar"
    [] u \in {"Pa", "pa"} -> "pascal" [] u \in {"kPa", "kpa"} -> "kilopascal" [] u = "ratio" -> "rate"
    [] u = "s" -> "secondUnitOfTime" [] u = "min" -> "minuteUnitOfTime" [] u = "l/h" -> "litrePerHour"
    [] OTHER -> "blank"

SammText(v) == IF v.k = "b" THEN v.s
               ELSE IF v.k = "f" /\ EndsWith(v.s, ".0") THEN SubSeq(v.s, 1, Len(v.s) - 2) ELSE PyText(v)   \* 3.0 is 3
SammDefault(F) == Given(F, "default") /\ Get(F, "default").k # "l"      \* a list of values is none
SammHasAllowed(F) == Given(F, "allowed") /\ Get(F, "allowed").l # <<>>
SammClass(F) ==
  IF SammHasAllowed(F) THEN IF SammDefault(F) THEN "State" ELSE "Enumeration"
  ELSE IF IsArrayDt(Get(F, "datatype").s) THEN "List"
  ELSE IF NonEmptyStr(F, "unit") /\ Get(F, "unit").s # "iso8601" THEN "Measurement" ELSE "Characteristic"
SammRange(F) == KindOf(F) \in {"sensor", "actuator"} /\ (Given(F, "min") \/ Given(F, "max"))

SammBranch(F, p) == {S("kind", "branch"), S("description", SammDescription(F, p))}
SammLeaf(F, p) ==
  LET class == SammClass(F) IN
  {S("kind", class), S("datatype", SammType(F)), S("description", SammDescription(F, p))} \cup
  (IF SammRange(F) THEN (IF Given(F, "min") THEN {S("min", SammText(Get(F, "min")))} ELSE {}) \cup (IF Given(F, "max") THEN {S("max", SammText(Get(F, "max")))} ELSE {}) ELSE {}) \cup
  SIf(class = "Measurement", "unit", SammUnit(TextOr(F, "unit", ""))) \cup
  SIf(SammDefault(F) /\ class # "List" /\
      ~ (TextOr(F, "unit", "") = "iso8601" /\ class = "Characteristic" /\ StartsWith(TextOr(F, "default", ""), "0000")),
      "default", IF SammDefault(F) THEN SammText(Get(F, "default")) ELSE "") \cup
  (IF SammHasAllowed(F)
   THEN {E("values", List([i \in DOMAIN Get(F, "allowed").l |-> Str(SammText(Get(F, "allowed").l[i]))]))} ELSE {})

SammNode(R, p) ==
  LET F == TLCEval(Full(R, p))
      at == TLCEval(SammPaths(R, p))
      inner == SammInner(R.tree[p], p)
      optional == {E("optional", True)}
  IN IF KindOf(F) # "branch" THEN {Node(x, SammLeaf(F, p)) : x \in at}
     ELSE IF inner = {} THEN {Node(x, SammBranch(F, p)) : x \in at}
     ELSE {Node(x \o t, {S("kind", "instances")} \cup (IF t = <<>> THEN {} ELSE optional)) : x \in at, t \in inner} \cup
          {Node(x \o t, SammBranch(F, p) \cup optional) : x \in at, t \in SammTails(R.tree[p], p)}

(* the version of the signal catalogue, as it says itself *)
SammVersion(R) ==
  LET root == <<(CHOOSE p \in DOMAIN R.tree : Len(p) = 1)[1]>>
      part(n, d) == LET p == root \o <<"VersionVSS", n>> IN
        IF p \in DOMAIN R.tree /\ Given(R.tree[p], "default") /\ Get(R.tree[p], "default").k = "i"
        THEN Get(R.tree[p], "default").s ELSE d
  IN part("Major", "1") \o "." \o part("Minor", "0") \o "." \o part("Patch", "0")

SammGroups(R) ==
  LET shown == TLCEval(SammShown(R)) IN
  [aspects |-> {Node(p, {S("namespace", R.opt.namespace), S("version", SammVersion(R))}) :
                  p \in {q \in shown : SammIsAspect(R, q)}},
   nodes |-> UNION {SammNode(R, p) : p \in shown},
   undefined |-> {},      \* every element referred to is defined, ...
   twice |-> {},          \* ... in one file only, ...
   unreached |-> {}]      \* ... and every property is part of a payload
=============================================================================
