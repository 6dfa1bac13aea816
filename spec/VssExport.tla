----------------------------- MODULE VssExport -----------------------------
(***************************************************************************)
(* The exporters: what each of them writes for the final trees.            *)
(*                                                                         *)
(* R is the result of a run of VssPipeline:                                *)
(*   tree, ttree   functions from Path to attributes (raw)                 *)
(*   ctx, sc       declared structs and units; the command line            *)
(*   opt           options of the exporter                                 *)
(*                                                                         *)
(* Outputs are described as named groups of nodes [p, a], as the harness   *)
(* reads them from the written files; Problems is the set of reasons for   *)
(* which the exporter refuses the model.                                   *)
(***************************************************************************)
EXTENDS VssListing, VssProto, VssPrint, VssSchema, VssIdl, VssGo, VssBinary, VssSamm

(* exporters with rules for refusing a model that are not specified here *)
OwnRules == {"samm"}
Problems(tool, R) ==
  CASE tool = "id" -> IdProblems(R)
    [] tool = "protobuf" -> ProtoProblems(R)
    [] tool = "graphql" -> GqlProblems(R)
    [] tool = "go" -> GoProblems(R)
    [] tool = "binary" -> BinProblems(R)
    [] OTHER -> {}
Groups(tool, R) ==
  CASE tool \in {"json", "yaml"} -> ListGroups(R)
    [] tool = "csv" -> CsvGroups(R)
    [] tool = "id" -> IdGroups(R)
    [] tool = "protobuf" -> ProtoGroups(R)
    [] tool = "franca" -> FrancaGroups(R)
    [] tool = "tree" -> TreeGroups(R)
    [] tool = "jsonschema" -> JsonSchemaGroups(R)
    [] tool = "graphql" -> GqlGroups(R)
    [] tool = "ddsidl" -> IdlGroups(R)
    [] tool = "apigear" -> GearGroups(R)
    [] tool = "go" -> GoGroups(R)
    [] tool = "binary" -> BinGroups(R)
    [] tool = "samm" -> SammGroups(R)

(* no options given *)
O0 == [typesout |-> FALSE, casesens |-> FALSE, staticuid |-> FALSE, addopt |-> FALSE,
       noadd |-> FALSE, reqall |-> FALSE, idlall |-> FALSE, fversion |-> "", attrs |-> <<>>, gql |-> <<>>, layers |-> <<>>,
       package |-> "vss", longnames |-> FALSE,
       namespace |-> "com.covesa.vss.spec", split |-> TRUE, depth |-> 1, signals |-> <<>>]

(* groups whose name begins with ~ are not fixed by the model; they must only satisfy a rule *)
IsFree(n) == StartsWith(n, "~")
FreeProblems(tool, R, n, ns) ==
  CASE tool = "protobuf" /\ n = "~numbers" -> NumberProblems(ns)
    [] tool = "go" /\ n = "~structs" -> GoProblemsOf(R, ns)
    [] OTHER -> {"unexpected"}
=============================================================================
