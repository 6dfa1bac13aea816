------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Trace validation of histories of the C and the Go library: reading,     *)
(* writing, listing and searching.  Each line of the trace is a history:   *)
(* the binary files it begins with (as decoded from their bytes), and the  *)
(* events with what was observed.                                          *)
(***************************************************************************)
EXTENDS VssLib, TraceBase

VARIABLES nr,      \* the history being followed, negative when it has been judged
          k,       \* its next event
          files,   \* name -> tree
          held     \* <<library, slot>> -> tree
lvars == <<nr, k, files, held>>

History == Trace[nr]
Ev == History.ev[k]
Stored(ns) == Loaded([i \in DOMAIN ns |-> [p |-> ns[i].p, a |-> DecAttrs(ns[i].a)]])
Dumped(ns) == [i \in DOMAIN ns |-> [p |-> ns[i].p, a |-> DecAttrs(ns[i].a), v |-> ns[i].v]]
Key == <<Ev.lib, Ev.slot>>

LibInit ==
  \E n \in DOMAIN Trace :
    /\ nr = n /\ k = 1 /\ held = EmptyFn
    /\ files = [f \in {Trace[n].files[i].n : i \in DOMAIN Trace[n].files} |->
                  Stored((CHOOSE x \in Range(Trace[n].files) : x.n = f).nodes)]

QueryOf(e) == [root |-> e.root + 1, segs |-> e.segs, limit |-> e.limit, any |-> e.any, leaves |-> e.leaves, scope |-> Range(e.scope)]

(* what is wrong with an event, if anything *)
Wrong ==
  CASE Ev.op = "read" -> IF Dumped(Ev.nodes) = files[Ev.file] THEN {} ELSE {"read"}
    [] Ev.op = "write" -> IF Stored(Ev.nodes) = held[Key] THEN {} ELSE {"written-file"}
    [] Ev.op = "dump" -> IF Dumped(Ev.nodes) = held[Key] THEN {} ELSE {"held"}
    [] Ev.op = "leaves" -> Rule("leaf-list", Ev.list = LeafPaths(held[Key])) \cup Rule("leaf-count", Ev.count = Len(LeafPaths(held[Key])))
    [] Ev.op = "uuids" -> Rule("uuid-list", Ev.list = LeafUuids(held[Key])) \cup Rule("uuid-count", Ev.count = Len(LeafPaths(held[Key])))
    [] Ev.op = "search" ->
         LET f == Found(held[Key], QueryOf(Ev)) IN
         Rule("found", Ev.found = [i \in DOMAIN f |-> <<f[i][1] - 1, f[i][2]>>]) \cup
         Rule("found-count", Ev.count = Len(f)) \cup
         Rule("validation", Ev.validation = Validation(held[Key], QueryOf(Ev)))
    [] OTHER -> {Ev.op}                     \* the harness noticed something: a crash, an unreadable file

Judge(v) == PrintT(<<"@V", nr, v>>) /\ nr' = 0 - nr /\ UNCHANGED <<k, files, held>>
Follow ==
  /\ nr > 0 /\ k <= Len(History.ev)
  /\ LET w == TLCEval(Wrong) IN
     IF w # {} THEN Judge(<<"wrong", ToString(k), w, <<>>>>)
     ELSE /\ k' = k + 1
          /\ held' = IF Ev.op = "read" THEN Override(held, Key :> files[Ev.file]) ELSE held
          /\ files' = IF Ev.op = "write" THEN Override(files, Ev.file :> held[Key]) ELSE files
          /\ UNCHANGED nr
Finish == nr > 0 /\ k > Len(History.ev) /\ Judge(<<"ok", "done", {}, <<>>>>)
LibSpec == LibInit /\ [][Follow \/ Finish]_lvars
LibView == <<nr, k>>
=============================================================================
