-------------------------------- MODULE VssGo --------------------------------
(***************************************************************************)
(* The Go exporter.  A branch or struct becomes a Go struct with one       *)
(* member per child.  The names of the Go structs are not fixed: instances *)
(* that look alike may share one, and prefixes may be left out.  What is   *)
(* required is that following the members from the struct of the root      *)
(* leads, for every leaf, to the Go type of its datatype.                  *)
(*                                                                         *)
(* Observed: <<"struct", name>> and <<"member", struct, member>> with its  *)
(* type (array or not).                                                    *)
(***************************************************************************)
EXTENDS VssListing

GoScalar(dt) ==
  CASE dt = "float" -> "float32"
    [] dt \in {"double", "numeric"} -> "float64"
    [] dt = "boolean" -> "bool"
    [] OTHER -> dt

GoBranches(R) == {p \in DOMAIN R.tree : KindOf(R.tree[p]) = "branch"}
GoStructs(R) == {p \in DOMAIN R.ttree : KindOf(R.ttree[p]) = "struct"}
GoJoin(p) == JoinStr(p, "")

(* names a Go struct may have *)
IsInstanceNode(R, p) == Has(R.tree[p], "is_instance") /\ Get(R.tree[p], "is_instance") = True
RECURSIVE Dropping(_, _)
Dropping(p, at) ==       \* the paths without some of the components at the given positions
  IF at = {} THEN {p}
  ELSE LET i == CHOOSE x \in at : \A y \in at : y <= x IN
       LET less == Dropping(p, at \ {i}) IN less \cup Dropping(SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p)), at \ {i})
NameTails(p) == {SubSeq(p, i, Len(p)) : i \in 1..Len(p)}
LongNames(R, p) ==
  LET at == {i \in 2..Len(p) : IsInstanceNode(R, SubSeq(p, 1, i))}
      levels == {n \in 1..Len(p) : (Len(p) - n + 1)..Len(p) \subseteq at}
  IN Dropping(p, at \ {Len(p)}) \cup
     UNION {{Append(q, "I" \o ToString(n)) : q \in Dropping(SubSeq(p, 1, Len(p) - n), at \ ((Len(p) - n + 1)..Len(p)))} : n \in levels}
NoInstances(R, p) == \A i \in 2..Len(p) : ~ IsInstanceNode(R, SubSeq(p, 1, i))
NamesFor(R, ps) == {GoJoin(q) : q \in IF R.opt.longnames THEN ps ELSE UNION {NameTails(q) : q \in ps}}

(* the model cannot be written if two names are equal once their dots are gone *)
GoProblems(R) ==
  LET all == GoBranches(R) \cup GoStructs(R) IN
  Rule("go-names", Cardinality({GoJoin(p) : p \in all}) = Cardinality(all))

Member(ns, s, m) == CHOOSE x \in ns : x.p = <<"member", s, m>>
HasMember(ns, s, m) == \E x \in ns : x.p = <<"member", s, m>>
MembersOf(ns, s) == {x.p[3] : x \in {y \in ns : y.p[1] = "member" /\ y.p[2] = s}}
TypeOf(x) == Get(x.a, "type").s
IsSlice(x) == Has(x.a, "array")

(* the Go struct of every branch: the root's is named like it, the others are found through the members *)
RECURSIVE StructsBelow(_, _, _, _)
StructsBelow(R, ns, p, s) ==
  (p :> s) @@
  FoldSet(LAMBDA c, acc : acc @@ (IF KindOf(R.tree[c]) = "branch" /\ HasMember(ns, s, LastOf(c))
                                  THEN StructsBelow(R, ns, c, TypeOf(Member(ns, s, LastOf(c)))) ELSE EmptyFn),
          EmptyFn, Children(R.tree, p))

(* a choice of one Go struct for each struct of the type tree, all different *)
RECURSIVE Assignments(_, _, _)
Assignments(todo, f, cands) ==
  IF todo = {} THEN {f}
  ELSE LET t == CHOOSE x \in todo : TRUE IN
       UNION {Assignments(todo \ {t}, f @@ (t :> n), cands) : n \in cands[t] \ Range(f)}

LeafType(dt, f) ==
  LET e == ElemDt(dt) IN IF e \in BaseTypes THEN GoScalar(e) ELSE f[SplitStr(e, ".")]

GoProblemsOf(R, ns) ==
  LET defined == {x.p[2] : x \in {y \in ns : y.p[1] = "struct"}}
      root == CHOOSE p \in DOMAIN R.tree : Len(p) = 1
      g == TLCEval(StructsBelow(R, ns, root, LastOf(root)))
      B == GoBranches(R)
      T == GoStructs(R)
      kidNames(t, p) == {LastOf(c) : c \in Children(t, p)}
      free == defined \ Range(g)
      cands == TLCEval([t \in T |-> {n \in free \cap NamesFor(R, {t}) : MembersOf(ns, n) = kidNames(R.ttree, t)}])
      leafOk(f, s, c, A) ==
        LET m == Member(ns, s, LastOf(c))
            dt == Get(A, "datatype").s
        IN IsSlice(m) = IsArrayDt(dt) /\ TypeOf(m) = LeafType(dt, f)
      fits(f) ==
        /\ \A p \in B : \A c \in Children(R.tree, p) : c \in B \/ leafOk(f, g[p], c, Full(R, c))
        /\ \A t \in T : \A c \in Children(R.ttree, t) : leafOk(f, f[t], c, FullT(R, c))
      names == TLCEval([p \in B |-> NamesFor(R, LongNames(R, p))])
      shared == UNION {names[p] : p \in B}
      walked == DOMAIN g = B
      members == \A p \in B \cap DOMAIN g : MembersOf(ns, g[p]) = kidNames(R.tree, p)
      plain == \A p \in (B \cap DOMAIN g) \ {root} :
                 LET m == Member(ns, g[Parent(p)], LastOf(p)) IN ~ IsSlice(m)
  IN Rule("go-struct-missing", Range(g) \subseteq defined) \cup
     Rule("go-struct-unknown", defined \subseteq shared \cup UNION {NamesFor(R, {t}) : t \in T}) \cup
     IF ~ walked \/ ~ members THEN {"go-members"}
     ELSE Rule("go-name", \A p \in B : NoInstances(R, p) => g[p] \in names[p]) \cup
          Rule("go-slice", plain) \cup
          Rule("go-types", \E f \in Assignments(T, EmptyFn, cands) : fits(f))
GoGroups(R) == [package |-> {Node(<<R.opt.package>>, {})}]
=============================================================================
