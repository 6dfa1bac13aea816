------------------------------ MODULE VssStages ------------------------------
(***************************************************************************)
(* The stages of the tool as operators: units, includes, tree building,    *)
(* instance expansion, deletion, placement, strictness and the projection  *)
(* of the final tree to what exporters show.                               *)
(***************************************************************************)
EXTENDS VssModel

----------------------------------------------------------------------------
(* files *)
DirOf(name) ==
  LET parts == SplitStr(name, "/") IN JoinStr(SubSeq(parts, 1, Len(parts) - 1), "/")
Join(dir, name) == IF dir = "" THEN name ELSE dir \o "/" \o name

FileNames(s) == {s.files[i].name : i \in DOMAIN s.files}
FileOf(s, n) == s.files[CHOOSE i \in DOMAIN s.files : s.files[i].name = n]

(* content of one file below a prefix; a repeated key counts as the last *)
FileFlat(f, pfx) ==
  FoldLeft(LAMBDA acc, e : Override(acc, (pfx \o e.p) :> e.v), EmptyFn, f.entries)

Uniq(ss) == FoldLeft(LAMBDA acc, x : IF x \in Range(acc) THEN acc ELSE Append(acc, x), <<>>, ss)

(* search order: directory of the top-level file, -I directories, directory of the including file *)
SearchDirs(s, top, including) == <<DirOf(top)>> \o Uniq(s.idirs) \o <<DirOf(including)>>
Found(s, top, including, target) ==
  LET c == [i \in DOMAIN SearchDirs(s, top, including) |-> Join(SearchDirs(s, top, including)[i], target)]
      hit == {i \in DOMAIN c : c[i] \in FileNames(s)}
  IN IF hit = {} THEN "" ELSE c[CHOOSE i \in hit : \A j \in hit : i <= j]

(* pending files: [file, pfx, top]; the includes of a file follow it immediately *)
IncludesOf(s, job) ==
  LET f == FileOf(s, job.file) IN
  [i \in DOMAIN f.incs |->
     [file |-> Found(s, job.top, job.file, f.incs[i].target),
      pfx  |-> job.pfx \o f.incs[i].prefix,
      top  |-> job.top]]

(* merging one file over what has been loaded so far *)
MergeFlat(base, upd) ==
  [p \in (DOMAIN base) \cup (DOMAIN upd) |->
     IF p \notin DOMAIN upd THEN base[p]
     ELSE IF p \in DOMAIN base /\ base[p].k = "d" /\ upd[p].k = "d"
          THEN Dict(DeepUpdate(base[p].d, upd[p].d))
          ELSE upd[p]]

----------------------------------------------------------------------------
(* units and quantities: files of [k, v] entries *)
FileEntries(s, names) == FlattenSeq([i \in DOMAIN names |-> FileOf(s, names[i]).entries])
KeysOf(es) == {es[i].p[1] : i \in DOMAIN es}

DefaultOr(s, given, default) ==
  IF given # <<>> THEN given
  ELSE IF Join(DirOf(s.main), default) \in FileNames(s) THEN <<Join(DirOf(s.main), default)>>
  ELSE <<>>

AllDtNames == BaseTypes \cup {t \o "[]" : t \in BaseTypes}

QuantityOk(e) == e.v.k = "d" /\ Has(e.v.d, "definition") /\ IsStr(Get(e.v.d, "definition"))
UnitOk(e, quantities) ==
  /\ e.v.k = "d"
  /\ Has(e.v.d, "definition") /\ IsStr(Get(e.v.d, "definition"))
  /\ Has(e.v.d, "unit") /\ NullOr(IsStr, Get(e.v.d, "unit"))
  /\ Has(e.v.d, "quantity") /\ Get(e.v.d, "quantity").s \in quantities
  /\ Has(e.v.d, "allowed-datatypes") =>
       /\ Get(e.v.d, "allowed-datatypes").k = "l"
       /\ \A i \in DOMAIN Get(e.v.d, "allowed-datatypes").l :
             Get(e.v.d, "allowed-datatypes").l[i].s \in AllDtNames

NoRepeats(es) == Cardinality(KeysOf(es)) = Len(es)

UnitProblems(s) ==
  LET qs == FileEntries(s, DefaultOr(s, s.quantities, "quantities.yaml"))
      us == FileEntries(s, DefaultOr(s, s.units, "units.yaml"))
  IN Rule("quantity-repeated", NoRepeats(qs)) \cup
     Rule("unit-repeated", NoRepeats(us)) \cup
     Rule("quantity", \A i \in DOMAIN qs : QuantityOk(qs[i])) \cup
     Rule("unit", \A i \in DOMAIN us : UnitOk(us[i], KeysOf(qs)))

UnitTable(s) ==
  LET us == FileEntries(s, DefaultOr(s, s.units, "units.yaml"))
      dts(e) == IF Has(e.v.d, "allowed-datatypes")
                THEN {Get(e.v.d, "allowed-datatypes").l[i].s :
                        i \in DOMAIN Get(e.v.d, "allowed-datatypes").l}
                ELSE {}
      add(t, e) == LET t1 == IF Get(e.v.d, "unit").k = "s"
                             THEN Override(t, Get(e.v.d, "unit").s :> dts(e)) ELSE t
                   IN Override(t1, e.p[1] :> dts(e))
  IN FoldLeft(add, EmptyFn, us)

----------------------------------------------------------------------------
(* tree building *)
AutoBranch == {E("type", Str("branch"))}
RootsIn(f) == {p \in DOMAIN f : Len(p) = 1}

BuildProblems(f) ==
  Rule("node-not-mapping", \A p \in DOMAIN f : f[p].k = "d") \cup
  Rule("no-root", RootsIn(f) # {}) \cup
  Rule("multiple-roots", Cardinality(RootsIn(f)) <= 1) \cup
  Rule("orphan", Cardinality(RootsIn(f)) = 1 =>
         \A p \in DOMAIN f : p[1] = (CHOOSE r \in RootsIn(f) : TRUE)[1])

Implied(f) == (UNION {ProperPrefixes(p) : p \in DOMAIN f}) \ DOMAIN f

TreeOf(f) == [p \in (DOMAIN f) \cup Implied(f) |-> IF p \in DOMAIN f THEN f[p].d ELSE AutoBranch]

StructsIn(f) == {p \in DOMAIN f : KindOf(f[p].d) = "struct" /\ CommonRules(f[p].d) = {}}

----------------------------------------------------------------------------
(* instance expansion *)
Ranges(s) ==   \* all [a,b] inside s as <<i, j, a, b>>
  UNION {{<<i, j, SplitStr(SubSeq(s, i + 1, j - 1), ",")>> : j \in {j \in i .. Len(s) : Ch(s, j) = "]"}} :
           i \in {i \in 1 .. Len(s) : Ch(s, i) = "["}}
RangeHits(s) == {r \in Ranges(s) : Len(r[3]) = 2 /\ IsDigits(r[3][1]) /\ IsDigits(r[3][2])}
HasRange(s) == RangeHits(s) # {}
LastRange(s) == CHOOSE r \in RangeHits(s) : \A q \in RangeHits(s) : q[1] <= r[1]
RangeLo(s) == StrToNat(LastRange(s)[3][1])
RangeHi(s) == StrToNat(LastRange(s)[3][2])

NamesOf(s) ==   \* the names one instance string denotes, in order
  IF ~ HasRange(s) THEN <<s>>
  ELSE LET r == LastRange(s) IN
       [n \in 1 .. (RangeHi(s) - RangeLo(s) + 1) |->
          SubSeq(s, 1, r[1] - 1) \o ToString(RangeLo(s) + n - 1) \o SubSeq(s, r[2] + 1, Len(s))]
InvertedRange(s) == HasRange(s) /\ RangeLo(s) > RangeHi(s)

PyScalarStr(v) == IF v.k = "b" THEN (IF v.s = "true" THEN "True" ELSE "False")
                  ELSE IF v.k = "n" THEN "None" ELSE v.s
EntryStrings(e) == IF e.k = "l" THEN [i \in DOMAIN e.l |-> PyScalarStr(e.l[i])] ELSE <<PyScalarStr(e)>>
EntryNames(e) == FlattenSeq([i \in DOMAIN EntryStrings(e) |-> NamesOf(EntryStrings(e)[i])])
BadEntry(e) == \E i \in DOMAIN EntryStrings(e) : InvertedRange(EntryStrings(e)[i])

InstancesOf(A) == NormInstances(Get(A, "instances")).l

IsInstanceBranch(t, p, ctx) ==
  /\ KindOf(t[p]) = "branch" /\ Has(t[p], "instances")
  /\ ~ Unset(NormInstances(Get(t[p], "instances")))
  /\ Complete(t[p], p, ctx)
Pending(t, ctx) == {p \in DOMAIN t : IsInstanceBranch(t, p, ctx)}
Outermost(S) == {p \in S : ~ \E q \in S : IsProperPfx(q, p)}

(* all instance branches below p: [roots, gen] after each entry *)
Generated(p, entries) ==
  LET step(acc, e) ==
        LET new == {r \o <<n>> : r \in acc.roots, n \in Range(EntryNames(e))}
        IN [gen   |-> acc.gen \cup new,
            roots |-> IF e.k = "l" \/ Len(EntryNames(e)) > 1 THEN new ELSE acc.roots]
  IN FoldLeft(step, [gen |-> {}, roots |-> {p}], entries).gen

LeavesOf(S) == {g \in S : ~ \E h \in S : IsProperPfx(g, h)}

NotInstantiated(A) == Has(A, "instantiate") /\ Get(A, "instantiate") = False

ExpandAt(t, p, ctx) ==
  LET kids     == Children(t, p)
      moving   == {c \in kids : ~ NotInstantiated(t[c])}
      gen      == Generated(p, InstancesOf(t[p]))
      matched  == moving \cap gen
      generic  == moving \ matched
      template == Without(t[p], {"instances"})
      marked   == Put(template, "is_instance", True)
      gone     == UNION {Subtree(t, c) : c \in moving}
      base     == TLCEval([q \in (DOMAIN t) \ gone |-> IF q = p THEN template ELSE t[q]])
      body     == UNION {Subtree(t, c) : c \in generic}
      copies   == {g \o Drop(q, Len(p)) : g \in LeavesOf(gen), q \in body}
      srcOf(q) == CHOOSE s \in body : \E g \in LeavesOf(gen) : q = g \o Drop(s, Len(p))
      full     == TLCEval([q \in (DOMAIN base) \cup gen \cup copies |->
                     IF q \in gen THEN marked
                     ELSE IF q \in copies THEN t[srcOf(q)] ELSE base[q]])
      special  == UNION {Subtree(t, c) : c \in matched}
  IN [q \in (DOMAIN full) \cup special |->
        IF q \notin special THEN full[q]
        ELSE IF q \notin DOMAIN full THEN t[q]
        ELSE DeepUpdate(MergeView(full[q], q, ctx), MergeView(t[q], q, ctx))]

ExpandProblems(t, p) ==
  LET es == InstancesOf(t[p]) IN
  Rule("instance-range", ~ \E i \in DOMAIN es : BadEntry(es[i]))

----------------------------------------------------------------------------
(* after expansion *)
ResolveProblems(t, ctx) == UNION {Violations(t[p], p, ctx) : p \in DOMAIN t}

Deleted(A) == Has(A, "delete") /\ Get(A, "delete") = True
Pruned(t) ==
  LET marks == {p \in DOMAIN t : Len(p) > 1 /\ Deleted(t[p])}
  IN RestrictTo(t, {q \in DOMAIN t : ~ \E m \in marks : IsPfx(m, q)})

Placed(t, p) ==
  Len(p) > 1 =>
    LET k == KindOf(t[p])
        u == KindOf(t[Parent(p)])
    IN CASE k = "property" -> u = "struct"
         [] k = "struct"   -> u \in {"struct", "branch"}
         [] OTHER          -> u = "branch"
PlacementProblems(t) == Rule("placement", \A p \in DOMAIN t : Placed(t, p))

ExtraOf(t, exts) == UNION {Extras(t[p]) : p \in DOMAIN t} \ exts

StrictnessProblems(s, t) ==
  Rule("name-style", (s.strict \/ "name-style" \in s.aborts) =>
          \A p \in DOMAIN t : NameViolations(p, t[p]) = {}) \cup
  Rule("core-attribute-misused", ExtraOf(t, s.exts) \cap CoreFields = {}) \cup
  Rule("unknown-attribute", (s.strict \/ "unknown-attribute" \in s.aborts) =>
          ExtraOf(t, s.exts) = {})

TypesProblems(s, t) ==
  PlacementProblems(t) \cup Rule("types-unknown-attribute", ExtraOf(t, s.exts) = {})

BadWhitelist(s) == \E e \in s.exts : e \in CoreFields \/ \E i \in 1 .. Len(e) : Ch(e, i) = ","

----------------------------------------------------------------------------
(* what an exporter that lists attributes shows of a node *)
Shown(A, p, ctx, s) ==
  {e \in Filled(A, p, ctx) :
     /\ e.n \notin NotExported
     /\ (e.n \in Extras(A) /\ ~ s.extall) => e.n \in s.exts
     /\ Unset(e.v) => e.n \in s.exts}

ShownTree(t, ctx, s) == {[p |-> p, a |-> Shown(t[p], p, ctx, s)] : p \in DOMAIN t}
=============================================================================
