------------------------------- MODULE VssLib -------------------------------
(***************************************************************************)
(* The C and the Go library for binary trees.  A tree is the sequence of   *)
(* its nodes in the order of the file (parents first), each with its path  *)
(* and its attributes.                                                     *)
(***************************************************************************)
EXTENDS VssBase

(* access settings: 1 write-only, 2 read-write, 10 more if consent is needed *)
HasText(s, t) == \E i \in 1 .. (Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
ValidateCode(s) ==
  (IF HasText(s, "write-only") THEN 1 ELSE IF HasText(s, "read-write") THEN 2 ELSE 0) + (IF HasText(s, "consent") THEN 10 ELSE 0)
MaxOf(a, b) == IF a < b THEN b ELSE a
Stricter(a, b) == MaxOf(a % 10, b % 10) + 10 * MaxOf(a \div 10, b \div 10)

(* a tree as the libraries know it: the setting instead of its text *)
Code(n) == IF Has(n.a, "validate") THEN ValidateCode(Get(n.a, "validate").s) ELSE 0
Loaded(t) == [i \in DOMAIN t |-> [p |-> t[i].p, a |-> Without(t[i].a, {"validate"}), v |-> Code(t[i])]]

IsLeaf(n) == Get(n.a, "type").s \notin {"branch", "struct"}
PathText(p) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "." \o x, "", p)
LeafPaths(t) == LET ls == SelectSeq(t, IsLeaf) IN [i \in DOMAIN ls |-> PathText(ls[i].p)]
LeafUuids(t) == LET ls == SelectSeq(t, IsLeaf) IN
  [i \in DOMAIN ls |-> <<PathText(ls[i].p), IF Has(ls[i].a, "uuid") THEN Get(ls[i].a, "uuid").s ELSE "">>]

----------------------------------------------------------------------------
(* Searching.  A query q has root (an index), segs, limit, any (depth), leaves (only), scope (paths not to go below). *)
(* Names are compared segment by segment, * is any name; with any depth, a last * is also any number of names.         *)
Rel(t, q, i) == SubSeq(t[i].p, Len(t[q.root].p), Len(t[i].p))
SegAt(q, d) == IF d <= Len(q.segs) THEN q.segs[d] ELSE IF q.any /\ q.segs[Len(q.segs)] = "*" THEN "*" ELSE ""
Fit(r, q) == /\ \A d \in DOMAIN r : SegAt(q, d) \in {r[d], "*"}
             /\ \A d \in 1..(Len(r) - 1) : PathText(SubSeq(r, 1, d)) \notin q.scope
Below(t, i) == {j \in i..Len(t) : IsPfx(t[i].p, t[j].p)}
(* a path that contains a wildcard counts only if it can be continued to the end of the query *)
Wild(q, n) == \E d \in 1..n : SegAt(q, d) = "*"
FoundSet(t, q) ==
  LET rel == TLCEval([i \in Below(t, q.root) |-> Rel(t, q, i)])
      fit == TLCEval({i \in DOMAIN rel : Fit(rel[i], q)})
  IN {i \in fit : ~ Wild(q, Len(rel[i])) \/ \E j \in fit : IsPfx(t[i].p, t[j].p) /\ Len(rel[j]) >= Len(q.segs)}
FoundSeq(t, q) ==
  LET f == FoundSet(t, q)
      all == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : i \in f /\ (q.leaves => IsLeaf(t[i])))
  IN SubSeq(all, 1, IF Len(all) < q.limit THEN Len(all) ELSE q.limit)
(* what a search answers: <<index, path>> in order, and the strictest setting met *)
Found(t, q) == LET f == FoundSeq(t, q) IN [i \in DOMAIN f |-> <<f[i], PathText(Rel(t, q, f[i]))>>]
Validation(t, q) == FoldSet(LAMBDA i, acc : Stricter(acc, t[i].v), 0, FoundSet(t, q))
=============================================================================
