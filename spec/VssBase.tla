------------------------------ MODULE VssBase ------------------------------
(***************************************************************************)
(* Common vocabulary of the vss-tools specification.                       *)
(*                                                                         *)
(* Value    a YAML value, tagged: k is the kind ("s" string, "i" integer,  *)
(*          "f" float, "b" boolean, "n" null, "l" list, "d" mapping), s is *)
(*          its lexical form for scalars, l the elements of a list, d the  *)
(*          entries of a mapping (a SET of [n, v] records).                *)
(* Attrs    the entries of a mapping: a set of [n |-> name, v |-> Value].  *)
(* Path     a node name split at its separators: a sequence of strings.    *)
(* Flat     a function from Path to Value: the content of a vspec file.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

----------------------------------------------------------------------------
(* strings *)
Ch(s, i) == SubSeq(s, i, i)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropRight(s, n)  == SubSeq(s, 1, Len(s) - n)

CharsOf(s) == [i \in 1 .. Len(s) |-> Ch(s, i)]
CharSet(s) == {Ch(s, i) : i \in 1 .. Len(s)}

UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
DigitS == "0123456789"
Upper  == CharSet(UpperS)
Lower  == CharSet(LowerS)
Digit  == CharSet(DigitS)

IndexOf(s, ch) == CHOOSE i \in 1 .. Len(s) : Ch(s, i) = ch
DigitVal == [ch \in Digit |-> IndexOf(DigitS, ch) - 1]
ToLowerCh == [ch \in Upper |-> Ch(LowerS, IndexOf(UpperS, ch))]

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
LowerCase(s) == Concat([i \in 1 .. Len(s) |-> LET ch == Ch(s, i) IN
                          IF ch \in Upper THEN ToLowerCh[ch] ELSE ch])

(* split s at every occurrence of the one-character string sep *)
SplitStr(s, sep) ==
  LET step(acc, i) ==
        IF Ch(s, i) = sep THEN Append(acc, "")
        ELSE [acc EXCEPT ![Len(acc)] = @ \o Ch(s, i)]
  IN FoldLeft(step, <<"">>, [i \in 1 .. Len(s) |-> i])

Fqn(p) == JoinStr(p, ".")

IsDigits(s) == s # "" /\ CharSet(s) \subseteq Digit
StrToNat(s) == FoldLeft(LAMBDA a, ch : 10 * a + DigitVal[ch], 0, CharsOf(s))

----------------------------------------------------------------------------
(* values *)
Scalar(k, s) == [k |-> k, s |-> s, l |-> <<>>, d |-> {}]
Str(s)  == Scalar("s", s)
IntV(s) == Scalar("i", s)
FltV(s) == Scalar("f", s)
Bool(b) == Scalar("b", IF b THEN "true" ELSE "false")
Null    == Scalar("n", "")
List(l) == [k |-> "l", s |-> "", l |-> l, d |-> {}]
Dict(d) == [k |-> "d", s |-> "", l |-> <<>>, d |-> d]
E(n, v) == [n |-> n, v |-> v]

IsScalar(v) == v.k \in {"s", "i", "f", "b"}
True  == Bool(TRUE)
False == Bool(FALSE)

(* a value as it comes out of the JSON reader: mappings as sequences *)
RECURSIVE Dec(_)
Dec(v) == [k |-> v.k, s |-> v.s,
           l |-> [i \in 1 .. Len(v.l) |-> Dec(v.l[i])],
           d |-> {E(v.d[i].n, Dec(v.d[i].v)) : i \in 1 .. Len(v.d)}]

----------------------------------------------------------------------------
(* attribute maps *)
Names(A)  == {e.n : e \in A}
Has(A, n) == n \in Names(A)
Get(A, n) == (CHOOSE e \in A : e.n = n).v
GetOr(A, n, v) == IF Has(A, n) THEN Get(A, n) ELSE v
Without(A, ns) == {e \in A : e.n \notin ns}
Put(A, n, v)   == Without(A, {n}) \cup {E(n, v)}

(* Mappings are merged key by key, everything else is replaced. *)
RECURSIVE DeepUpdate(_, _)
DeepUpdate(A, U) ==
  Without(A, Names(U)) \cup
  {E(u.n, IF u.v.k = "d" /\ Has(A, u.n) /\ Get(A, u.n).k = "d"
          THEN Dict(DeepUpdate(Get(A, u.n).d, u.v.d))
          ELSE u.v) : u \in U}

----------------------------------------------------------------------------
(* functions over paths *)
EmptyFn == [x \in {} |-> x]
RestrictTo(f, S) == [x \in S |-> f[x]]
Override(f, g) == g @@ f

IsPfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
IsProperPfx(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
LastOf(p) == p[Len(p)]
ProperPrefixes(p) == {SubSeq(p, 1, i) : i \in 1 .. Len(p) - 1}
Drop(p, n) == SubSeq(p, n + 1, Len(p))
Subtree(t, p) == {q \in DOMAIN t : IsPfx(p, q)}
Children(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ IsPfx(p, q)}
(* a violated rule *)
Rule(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
