---------------------------- MODULE TraceReload ----------------------------
(***************************************************************************)
(* Trace validation of export/reload chains.  A line is                    *)
(* {sc, steps: [{reload, expand, obs}], same: [[a, b], ...]}: every step   *)
(* of the chain is replayed and its YAML and JSON outputs are compared     *)
(* with the specification; the pairs in "same" are the steps whose         *)
(* outcomes the specification itself must find equal.                      *)
(***************************************************************************)
EXTENDS VssReload, TraceBase

VARIABLES nr, seen
tvars == <<hvars, nr, seen>>

Plan(st) == [k \in DOMAIN st |-> [reload |-> st[k].reload, expand |-> st[k].expand]]
TraceInit ==
  \E k \in DOMAIN Trace :
    /\ nr = k
    /\ seen = Trace[k].steps
    /\ InitPlan(DecScenario(Trace[k].sc), Plan(Trace[k].steps))

StepVerdict(o, ob) ==
  IF o.ok /\ ~ ob.ok THEN <<"rejected", "", <<>>, <<>>>>
  ELSE IF ~ o.ok /\ ob.ok THEN <<"accepted", "", o.err, <<>>>>
  ELSE IF ~ o.ok THEN IF ob.wrote THEN <<"wrote-output", "", o.err, <<>>>> ELSE <<"ok", "fail", o.err, <<>>>>
  ELSE LET a == TLCEval(DiffNodes(o.nodes, DecNodes(ob.nodes), "yaml-node"))
           b == TLCEval(DiffNodes(o.types, DecNodes(ob.types), "yaml-type"))
           c == TLCEval(DiffNodes(o.nodes, DecNodes(ob.jnodes), "json-node"))
           d == TLCEval(DiffNodes(o.types, DecNodes(ob.jtypes), "json-type"))
       IN IF a # <<>> THEN a ELSE IF b # <<>> THEN b ELSE IF c # <<>> THEN c ELSE IF d # <<>> THEN d
          ELSE <<"ok", "done", <<>>, <<>>>>
Judged == [k \in DOMAIN outcomes |-> StepVerdict(outcomes[k], seen[k].obs)]
Bad(js) == {k \in DOMAIN js : js[k][1] # "ok"}
Verdict ==
  LET js == TLCEval(Judged)
      b == Bad(js)
  IN IF b = {} THEN <<"ok", IF \E k \in DOMAIN outcomes : ~ outcomes[k].ok THEN "fail" ELSE "done", Len(outcomes), <<>>>>
     ELSE LET k == Min(b) IN <<js[k][1] \o " at step " \o ToString(k), js[k][2], js[k][3], js[k][4]>>

Finish ==
  /\ AllDone /\ nr > 0
  /\ PrintT(<<"@V", nr, Verdict>>)
  /\ nr' = 0 - nr
  /\ UNCHANGED <<hvars, seen>>

TraceView == <<nr, pc, jobs, tree, Len(outcomes)>>
TraceNext == (HStep /\ UNCHANGED <<nr, seen>>) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars

RoundTrip ==
  (AllDone /\ nr > 0) =>
    \A pr \in Range(Trace[nr].same) : pr[2] \in DOMAIN outcomes => SameAgain(pr[1], pr[2])
=============================================================================
