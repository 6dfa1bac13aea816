------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded runs and comparing node sets. *)
EXTENDS VssBase, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

DecAttrs(as) == {E(as[i].n, Dec(as[i].v)) : i \in DOMAIN as}
DecFile(f) == [name |-> f.name,
               entries |-> [i \in DOMAIN f.entries |-> [p |-> f.entries[i].p, v |-> Dec(f.entries[i].v)]],
               incs |-> f.incs]
DecScenario(s) ==
  [files |-> [i \in DOMAIN s.files |-> DecFile(s.files[i])],
   main |-> s.main, overlays |-> s.overlays, idirs |-> s.idirs, types |-> s.types,
   quantities |-> s.quantities, units |-> s.units, strict |-> s.strict,
   aborts |-> Range(s.aborts), exts |-> Range(s.exts), extall |-> s.extall,
   uuid |-> s.uuid, expand |-> s.expand]
DecNodes(ns) == {[p |-> ns[i].p, a |-> DecAttrs(ns[i].a)] : i \in DOMAIN ns}

PathsOf(S) == {n.p : n \in S}
AttrsOf(S, p) == (CHOOSE n \in S : n.p = p).a
Some(S) == IF S = {} THEN <<>> ELSE CHOOSE x \in S : TRUE

DiffNodes(exp, got, what) ==    \* <<clause, detail>> or <<>>
  LET pe == TLCEval(PathsOf(exp))
      pg == TLCEval(PathsOf(got))
      missing == pe \ pg
      surplus == pg \ pe
      differ  == {p \in pe \cap pg : AttrsOf(exp, p) # AttrsOf(got, p)}
  IN CASE missing # {} -> <<what \o "-missing", Fqn(Some(missing)), <<>>, <<>>>>
       [] surplus # {} -> <<what \o "-surplus", Fqn(Some(surplus)), <<>>, <<>>>>
       [] differ # {}  -> LET p == Some(differ) IN
                          <<what \o "-attributes", Fqn(p),
                            AttrsOf(exp, p) \ AttrsOf(got, p), AttrsOf(got, p) \ AttrsOf(exp, p)>>
       [] OTHER -> <<>>
=============================================================================
