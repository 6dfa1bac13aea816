----------------------------- MODULE TraceModel -----------------------------
(***************************************************************************)
(* Trace validation of model-processing runs.  Each line of the trace file *)
(* is one run of the real tool: the scenario it was given and what it      *)
(* produced.  Every run is replayed through the actions of VssPipeline and *)
(* its outcome compared with the observed one.  The verdict is total: each *)
(* line yields exactly one "@V" tuple naming the first clause that fails,  *)
(* or "ok".                                                                *)
(***************************************************************************)
EXTENDS VssPipeline, TraceBase

VARIABLES nr, obs
tvars == <<vars, nr, obs>>

TraceInit ==
  \E k \in DOMAIN Trace :
    /\ nr = k
    /\ obs = Trace[k].obs
    /\ InitWith(DecScenario(Trace[k].sc))

Verdict(o, ob) ==
  IF o.ok /\ ~ ob.ok THEN <<"rejected", "", <<>>, <<>>>>
  ELSE IF ~ o.ok /\ ob.ok THEN <<"accepted", "", o.err, <<>>>>
  ELSE IF ~ o.ok THEN IF ob.wrote THEN <<"wrote-output", "", o.err, <<>>>> ELSE <<"ok", "fail", o.err, <<>>>>
  ELSE LET a == DiffNodes(o.nodes, DecNodes(ob.nodes), "node")
           b == DiffNodes(o.types, DecNodes(ob.types), "type")
       IN IF a # <<>> THEN a ELSE IF b # <<>> THEN b ELSE <<"ok", "done", <<>>, <<>>>>

Finish ==
  /\ Ended
  /\ nr > 0
  /\ PrintT(<<"@V", nr, Verdict(Outcome, obs)>>)
  /\ nr' = 0 - nr
  /\ UNCHANGED <<vars, obs>>

TraceView == <<nr, pc, jobs, tree>>
TraceNext == (Step /\ UNCHANGED <<nr, obs>>) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
