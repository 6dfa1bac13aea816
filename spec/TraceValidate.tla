---------------------------- MODULE TraceValidate ----------------------------
(* Trace validation of histories: an id export, edits, and a validating run.  *)
(* A line is {sc, plan: {later, oldcase, casesens, only, doctor}, old, obs}.   *)
EXTENDS VssValidate, TraceBase

VARIABLES nr
tvars == <<valvars, nr>>

DecPlan(l) == [later |-> DecScenario(l.later), oldcase |-> l.oldcase, casesens |-> l.casesens, only |-> l.only, doctor |-> l.doctor]
TraceInit == \E k \in DOMAIN Trace : nr = k /\ InitHistory(DecScenario(Trace[k].sc), DecPlan(Trace[k].plan))

OldVerdict(ob) == IF failures = {} /\ ~ ob.ok THEN <<"rejected", "earlier version", <<>>, <<>>>>
                  ELSE IF failures # {} /\ ob.ok THEN <<"accepted", "earlier version", failures, <<>>>>
                  ELSE IF failures # {} /\ ob.wrote THEN <<"wrote-output", "earlier version", failures, <<>>>>
                  ELSE <<"ok", "fail", failures, <<>>>>
NewVerdict(ob) ==
  IF failures # {}
  THEN IF ob.ok THEN <<"accepted", "", failures, <<>>>>
       ELSE IF ob.wrote THEN <<"wrote-output", "", failures, <<>>>> ELSE <<"ok", "fail", failures, <<>>>>
  ELSE LET outs == TLCEval(Outcomes)
           good == {o.rep : o \in {x \in outs : ~ x.dup}}
           dup == \E o \in outs : o.dup
           seen == TLCEval(DecNodes(ob.reports))
           ids == TLCEval(IdGroups(current)["nodes"])
       IN IF ~ ob.ok THEN IF ob.wrote THEN <<"wrote-output", "", <<>>, <<>>>>
                          ELSE IF dup THEN <<"ok", "fail", {"double-match"}, <<>>>> ELSE <<"rejected", "", <<>>, <<>>>>
          ELSE IF good = {} THEN <<"accepted", "", {"double-match"}, <<>>>>
          ELSE IF Len(ob.reports) # Cardinality(seen) THEN <<"reported-twice", "", <<>>, <<>>>>
          ELSE IF seen \notin good
               THEN LET g == Some(good) IN <<"reports", IF Cardinality(good) > 1 THEN "one of several" ELSE "",
                                             {x.p : x \in g \ seen}, {x.p : x \in seen \ g}>>
          ELSE IF plan.only THEN IF ob.wrote THEN <<"wrote-output", "only validating", <<>>, <<>>>> ELSE <<"ok", "done", <<>>, <<>>>>
          ELSE LET d == DiffNodes(ids, DecNodes(ob.nodes), "node") IN IF d # <<>> THEN d ELSE <<"ok", "done", <<>>, <<>>>>

Finish ==
  /\ nr > 0 /\ phase \in {"end", "unusable"}
  /\ PrintT(<<"@V", nr, IF phase = "unusable" THEN OldVerdict(Trace[nr].old)
                        ELSE IF ~ Trace[nr].old.ok THEN <<"rejected", "earlier version", <<>>, <<>>>> ELSE NewVerdict(Trace[nr].obs)>>)
  /\ nr' = 0 - nr
  /\ UNCHANGED valvars

TraceView == <<nr, pc, jobs, tree, phase>>
TraceNext == (VStep /\ UNCHANGED nr) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
