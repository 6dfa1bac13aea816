----------------------------- MODULE VssPipeline -----------------------------
(***************************************************************************)
(* A run of the tool up to the exporter, one action per stage; loading     *)
(* takes one step per file, expansion one step per instantiated branch (in *)
(* any order of independent branches).                                     *)
(***************************************************************************)
EXTENDS VssStages

CONSTANT AnyOrder   \* TRUE: explore every order of independent expansions

VARIABLES sc,     \* the scenario: files, command line
          pc,     \* stage
          jobs,   \* files still to be read, in order
          flat,   \* definitions merged so far
          hist,   \* every file's contribution, in order (history)
          ctx,    \* declared structs and units
          ttree,  \* tree of user types (empty function: none)
          tree,   \* tree of signals
          err     \* violated rules, if the run failed

vars == <<sc, pc, jobs, flat, hist, ctx, ttree, tree, err>>

InitWith(s) ==
  /\ sc = s
  /\ pc = "options"
  /\ jobs = <<>>
  /\ flat = EmptyFn
  /\ hist = <<>>
  /\ ctx = [types |-> {}, units |-> EmptyFn]
  /\ ttree = EmptyFn
  /\ tree = EmptyFn
  /\ err = {}

Job(f) == [file |-> f, pfx |-> <<>>, top |-> f]
Jobs(fs) == [i \in DOMAIN fs |-> Job(fs[i])]

Goto(stage, problems) ==
  IF problems = {} THEN pc' = stage /\ err' = err
                   ELSE pc' = "failed" /\ err' = problems

Options ==
  /\ pc = "options"
  /\ Goto("units", Rule("whitelist", ~ BadWhitelist(sc)))
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree>>

LoadUnits ==
  /\ pc = "units"
  /\ Goto(IF sc.types = <<>> THEN "start" ELSE "types", UnitProblems(sc))
  /\ ctx' = IF UnitProblems(sc) = {} THEN [ctx EXCEPT !.units = UnitTable(sc)] ELSE ctx
  /\ jobs' = Jobs(sc.types)
  /\ UNCHANGED <<sc, flat, hist, ttree, tree>>

(* one file of the type model or of the signal model *)
ReadFile(stage) ==
  /\ pc = stage /\ jobs # <<>>
  /\ LET j == Head(jobs) IN
       IF j.file \notin FileNames(sc)
       THEN /\ pc' = "failed" /\ err' = {"include-not-found"}
            /\ UNCHANGED <<jobs, flat, hist>>
       ELSE /\ LET c == FileFlat(FileOf(sc, j.file), j.pfx) IN
                 /\ flat' = MergeFlat(flat, c)
                 /\ hist' = Append(hist, c)
            /\ jobs' = IncludesOf(sc, j) \o Tail(jobs)
            /\ UNCHANGED <<pc, err>>
  /\ UNCHANGED <<sc, ctx, ttree, tree>>

ReadTypesFile == ReadFile("types")
ReadModelFile == ReadFile("load")

BuildTypes ==
  /\ pc = "types" /\ jobs = <<>>
  /\ LET bad == BuildProblems(flat)
         t   == TreeOf(flat)
         ss  == StructsIn(flat)
         c   == [ctx EXCEPT !.types = ss]
     IN IF bad # {} THEN /\ Goto("start", bad)
                         /\ UNCHANGED <<ctx, ttree>>
        ELSE /\ Goto("start", Rule("types-orphan", Implied(flat) = {}) \cup
                              Rule("types-root-struct", \A p \in ss : Len(p) > 1) \cup
                              ResolveProblems(t, c))
             /\ ctx' = c
             /\ ttree' = t
  /\ UNCHANGED <<sc, jobs, flat, hist, tree>>

StartModel ==
  /\ pc = "start"
  /\ pc' = "load"
  /\ jobs' = Jobs(<<sc.main>> \o sc.overlays)
  /\ flat' = EmptyFn /\ hist' = <<>>
  /\ UNCHANGED <<sc, ctx, ttree, tree, err>>

BuildTree ==
  /\ pc = "load" /\ jobs = <<>>
  /\ LET bad == BuildProblems(flat) IN
       /\ Goto(IF sc.expand THEN "expand" ELSE "resolve", bad)
       /\ IF bad = {} THEN /\ tree' = TreeOf(flat)
                           /\ ctx' = [ctx EXCEPT !.types = @ \cup StructsIn(flat)]
                      ELSE UNCHANGED <<tree, ctx>>
  /\ UNCHANGED <<sc, jobs, flat, hist, ttree>>

(* an instance branch below another one waits until that one is expanded *)
Expandable ==
  LET S == Outermost(Pending(tree, ctx))
  IN IF AnyOrder \/ S = {} THEN S ELSE {CHOOSE p \in S : TRUE}

ExpandOne(p) ==
  /\ pc = "expand"
  /\ Goto("expand", ExpandProblems(tree, p))
  /\ tree' = IF ExpandProblems(tree, p) = {} THEN ExpandAt(tree, p, ctx) ELSE tree
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree>>

ExpandDone ==
  /\ pc = "expand"
  /\ Pending(tree, ctx) = {}
  /\ pc' = "resolve"
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, err>>

Resolve ==
  /\ pc = "resolve"
  /\ Goto("delete", ResolveProblems(tree, ctx))
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree>>

Delete ==
  /\ pc = "delete"
  /\ tree' = Pruned(tree)
  /\ pc' = "check"
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, err>>

Check ==
  /\ pc = "check"
  /\ Goto("done", PlacementProblems(tree) \cup
                  (IF ttree = EmptyFn THEN {} ELSE TypesProblems(sc, ttree)) \cup
                  (IF PlacementProblems(tree) = {} THEN StrictnessProblems(sc, tree) ELSE {}))
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree>>

Step == \/ Options \/ LoadUnits \/ ReadTypesFile \/ BuildTypes \/ StartModel
        \/ ReadModelFile \/ BuildTree
        \/ pc = "expand" /\ \E p \in Expandable : ExpandOne(p)
        \/ ExpandDone \/ Resolve \/ Delete \/ Check

Ended == pc \in {"done", "failed"}

----------------------------------------------------------------------------
(* the outcome of a run as the user sees it *)
Outcome ==
  [ok    |-> pc = "done",
   err   |-> err,
   nodes |-> IF pc = "done" THEN ShownTree(tree, ctx, sc) ELSE {},
   types |-> IF pc = "done" THEN ShownTree(ttree, ctx, sc) ELSE {}]
=============================================================================
