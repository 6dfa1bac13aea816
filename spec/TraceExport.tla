----------------------------- MODULE TraceExport -----------------------------
(***************************************************************************)
(* Trace validation of exporter runs.  Each line of the trace is one run   *)
(* of one exporter: scenario, exporter, its options, and what was read     *)
(* back from the files it wrote.  The run is replayed through the actions  *)
(* of VssPipeline, followed by the Export action, and the written groups   *)
(* of nodes are compared with the ones the specification demands.          *)
(***************************************************************************)
EXTENDS VssPipeline, VssExport, TraceBase

VARIABLES nr, tool, opt, obs
tvars == <<vars, nr, tool, opt, obs>>

TraceInit ==
  \E k \in DOMAIN Trace :
    /\ nr = k
    /\ tool = Trace[k].tool
    /\ opt = Trace[k].opt
    /\ obs = Trace[k].obs
    /\ InitWith(DecScenario(Trace[k].sc))

Result == [tree |-> tree, ttree |-> ttree, ctx |-> ctx, sc |-> sc, opt |-> opt]

ObsGroups(ob) == {g.n : g \in Range(ob.groups)}
ObsNodes(ob, n) == (CHOOSE g \in Range(ob.groups) : g.n = n).nodes

GroupVerdict(exp, ob, res) ==
  LET missing == DOMAIN exp \ ObsGroups(ob)
      free == {n \in ObsGroups(ob) : IsFree(n)}
      surplus == ObsGroups(ob) \ (DOMAIN exp \cup free)
      wrong == TLCEval(UNION {FreeProblems(tool, res, n, DecNodes(ObsNodes(ob, n))) : n \in free})
      seen(n) == TLCEval(DecNodes(ObsNodes(ob, n)))
      twice(n) == Len(ObsNodes(ob, n)) # Cardinality({x.p : x \in Range(ObsNodes(ob, n))})
      d(n) == IF twice(n) THEN <<n \o "-twice", "", <<>>, <<>>>> ELSE DiffNodes(exp[n], seen(n), n)
      all == TLCEval([n \in DOMAIN exp \cap ObsGroups(ob) |-> d(n)])
      bad == {n \in DOMAIN all : all[n] # <<>>}
  IN CASE missing # {} -> <<"group-missing", Some(missing), <<>>, <<>>>>
       [] surplus # {} -> <<"group-surplus", Some(surplus), <<>>, <<>>>>
       [] bad # {} -> all[Some(bad)]
       [] wrong # {} -> <<"rule-broken", "", wrong, <<>>>>
       [] OTHER -> <<"ok", "done", <<>>, <<>>>>

ExportVerdict(ob) ==
  LET res == TLCEval(Result)
      bad == TLCEval(IF pc = "done" THEN Problems(tool, res) ELSE err)
      exp == TLCEval(Groups(tool, res)) IN
  IF bad = {} /\ ~ ob.ok THEN <<"rejected", "", <<>>, <<>>>>
  ELSE IF bad # {} /\ ob.ok THEN <<"accepted", "", bad, <<>>>>
  ELSE IF bad # {} THEN IF ob.wrote THEN <<"wrote-output", "", bad, <<>>>> ELSE <<"ok", "fail", bad, <<>>>>
  ELSE GroupVerdict(exp, ob, res)

Export ==
  /\ Ended
  /\ nr > 0
  /\ PrintT(<<"@V", nr, ExportVerdict(obs)>>)
  /\ nr' = 0 - nr
  /\ UNCHANGED <<vars, tool, opt, obs>>

TraceView == <<nr, pc, jobs, tree>>
TraceNext == (Step /\ UNCHANGED <<nr, tool, opt, obs>>) \/ Export
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
