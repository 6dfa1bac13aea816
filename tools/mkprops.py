import json
S="src/vss_tools/vspec/"
E="src/vss_tools/vspec/vssexporters/"
U="src/vss_tools/vspec/utils/"
P=[]
def p(id,title,statement,over,q,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Overlays and includes merge last-writer-wins per attribute",
 "For every base file and ordered list of overlay files, each attribute of each node in the result has the value given by the last file (base, its includes, then overlays in command-line order) that sets it; attributes and nodes not mentioned by a later file are kept unchanged. Attribute values that are mappings are merged key by key, every other value (lists included) is replaced as a whole, and an attribute set to null by a later file is gone from the result.",
 ["inputs","histories"],"every base/overlay stack, every attribute and every order of definitions",
 "Tests compare a handful of fixed overlay pairs with golden files; the guarantee is over all stacks, orders and value kinds.",
 [S+"vspec.py",S+"main.py"],[("deep_update / VSpec.update",S+"vspec.py"),("load_vspec ordering",S+"vspec.py")],["vspec export json|yaml -l ... output"])
p("C02","Includes resolve in search order and compose prefixes",
 "An include statement places every node of the included file under the statement's branch prefix, prefixed in turn by the prefixes of all enclosing include statements (an include without a prefix keeps the enclosing one), and included definitions, processed depth first in statement order, override the including file's. The target is the first match among the directory of the top-level file, the -I directories in command-line order, and the directory of the including file; if there is no match the run fails and writes nothing.",
 ["inputs","configurations"],"every include graph without cycles, every -I list and every placement of same-named files",
 "Tests cover a few include layouts and never two candidates for one target or prefix chains with missing links.",
 [S+"vspec.py"],[("Include.resolve_path, Include prefix, get_vspecs",S+"vspec.py")],["vspec export json output and exit code"])
p("C03","One rooted tree; missing branches must be defined somewhere",
 "A model that is accepted has exactly one root, and every node of the result has all of its ancestors in the result, each explicitly defined (with a description) in some file, wherever in the files and in whatever order the definitions appear. A model without a root node, with two roots, or with a branch that is only implied by a longer name (and not created by instance expansion) makes the run fail and write nothing.",
 ["inputs"],"every set of node names and every order of their definition across files",
 "Tests contain a few malformed models; the order and shape space is unbounded.",
 [S+"tree.py",S+"main.py"],[("build_tree, VSSNode.connect",S+"tree.py"),("VSSNode.resolve",S+"tree.py")],["vspec export json/yaml output and exit code"])
p("C04","Instance expansion yields exactly the product of instance lists",
 "Expanding a branch with instances creates exactly the instance branches its instance definition denotes: a range Name[a,b] denotes one name per integer from a to b inclusive, a list entry or multi-name range starts a new nesting level, single plain names are siblings on the same level; every innermost instance gets a full copy of the branch's instantiable subtree (with nested instances expanded in turn) and every instance branch carries the attributes of the expanded branch. Children marked 'instantiate: false' stay exactly once directly under the branch, no other child remains there, and no 'instances' attribute remains anywhere; an inverted range makes the run fail.",
 ["inputs"],"every instance definition (strings, ranges, lists, nested lists) on every nesting of branches",
 "Golden files cover about ten instance definitions; combinations of nesting, ranges and non-instantiated children are unbounded.",
 [S+"tree.py"],[("expand_instances, expand_instance, expand_string, add_expanded_instance_children",S+"tree.py")],["vspec export json|yaml|csv output"])
p("C05","Instance-specific definitions override generic ones, only there",
 "When a file also defines a node below a concrete instance (such as Row1.Left.X next to X on the instantiated branch), attributes given for the concrete instance override the generic attributes of that one node, all its other attributes still come from the generic definition, and new nodes defined there are added to that instance only. No other instance and no node outside that instance is affected.",
 ["inputs"],"every instantiated branch and every set of instance-specific definitions, complete or partial, at every depth",
 "Tests have three overlays on instances; precedence, partial attributes and depth interact.",
 [S+"tree.py"],[("VSSNode.merge, add_expanded_instance_children",S+"tree.py")],["vspec export json|yaml output"])
p("C06","delete removes exactly the marked subtrees",
 "The result contains exactly the nodes of the expanded model that neither carry 'delete: true' themselves nor lie below a node that does; all remaining nodes are unchanged. This holds whether the mark is set in the base file, by an overlay, on a generic node (then removing every generated copy) or on one generated instance only, and 'delete: false' in a later overlay undoes an earlier mark.",
 ["inputs","histories"],"every set of marks on every tree, before and after instance expansion",
 "Tests delete single nodes and one instance in one fixture.",
 [S+"tree.py",S+"main.py"],[("delete_nodes",S+"tree.py"),("get_trees stage order",S+"main.py")],["vspec export json|yaml|csv output"])
p("C07","Nodes only sit below parents of the right kind",
 "A model is accepted only if every property sits directly below a struct, every struct directly below a branch or struct, and every branch, sensor, actuator and attribute directly below a branch; otherwise the run fails and writes nothing. The rule is applied to the final tree of signals (nodes removed by delete are not held against it) and to the tree of user types.",
 ["inputs"],"every assignment of kinds to every tree, in signal and type trees",
 "Tests contain single examples of misplaced nodes.",
 [S+"main.py"],[("get_invalid_node_msgs, validate_tree",S+"main.py")],["exit code"])
p("C08","Value constraints on signals are enforced consistently",
 "A node is accepted only if its datatype is known, its default and each of its allowed values have the datatype (integers within the exact range of their kind, text only for string; array defaults are lists whose elements conform and whose length equals arraysize when given; scalars are not lists), arraysize is used with arrays only, min or max are not combined with allowed, and every default value is one of the allowed values when these are given. A model with a violating node makes the run fail and write nothing, and a model without one is not rejected.",
 ["inputs"],"every datatype, default, allowed, min, max and arraysize combination including the exact range limits",
 "Tests sample some fifty constants; the limits of each integer kind and the interplay with arrays are not enumerated.",
 [S+"model.py",S+"datatypes.py"],[("VSSDataDatatype validators",S+"model.py"),("Datatypes.is_datatype",S+"datatypes.py")],["exit code, output"])
p("C09","Struct type references resolve to exactly one declared type",
 "A datatype that is not predefined is accepted only if it names a struct declared in the type files or model (optionally as an array), either by its full name or, for a node inside the namespace (branch) holding the struct, by its short name; in the result every such reference is the full name, arrays staying arrays. References to undeclared names, to a branch or property instead of a struct, or by short name from outside the namespace make the run fail, and the outcome does not depend on the order of declaration.",
 ["inputs","configurations"],"every set of struct names, namespaces and references, including names that are prefixes of one another",
 "Tests use two fixed type trees; prefix-related and repeated short names are not sampled.",
 [S+"datatypes.py",S+"main.py",S+"model.py"],[("get_fqn_namespaced_datatypes, resolve_datatype",S+"datatypes.py"),("get_types_root",S+"main.py")],["vspec export json --types output, exit code"])
p("C10","Units and quantities: known, unambiguous, datatype-compatible",
 "A unit is accepted exactly if a loaded unit file declares it, by its key or by its 'unit' text, and the node's datatype (element type for arrays) is one of the unit's allowed datatypes or a subtype of one. Unit and quantity files given on the command line replace the default files next to the model, several are combined, and a key defined twice, an unknown quantity, an unknown allowed datatype or an empty definition makes the run fail.",
 ["inputs","configurations"],"every combination of unit/quantity files, unit references and datatypes",
 "Tests check a few unit files; datatype compatibility and default-file replacement combine.",
 [S+"main.py",S+"units_quantities.py",S+"model.py",S+"datatypes.py"],[("load_quantities_and_units",S+"main.py"),("load_units_or_quantities",S+"units_quantities.py"),("is_subtype_of",S+"datatypes.py")],["exit code"])
p("C11","Strictness options reject exactly the violations they name",
 "With name-style abort the run fails exactly if some node of the final tree is not CamelCase ASCII alphanumeric starting with an upper-case letter or is a boolean not named Is.../Has...; with unknown-attribute abort exactly if some final node carries an attribute that is neither a core attribute nor whitelisted with -e; --strict means both, and without them neither fails the run. Independently of the options, a core attribute on a node kind that does not define it, any non-whitelisted unknown attribute in a type tree, and a whitelist entry that is a core attribute or contains a comma make the run fail.",
 ["inputs","configurations"],"every option combination, node name and attribute set, with or without deletion and instances",
 "Tests run each option on one small model each.",
 [S+"main.py",S+"tree.py",S+"cli_options.py"],[("check_name_violations, check_extra_attribute_violations",S+"main.py"),("get_naming_violations",S+"tree.py")],["exit code"])
p("C12","A failing run never leaves an output file",
 "For every exporter, a run whose model, units, types, overlays or options are rejected exits with a non-zero status and neither creates nor modifies the requested output files; a run that exits with zero has written every requested output completely, the same whether the files existed before or not (ApiGear refuses an existing directory). No run changes its input files.",
 ["inputs","fault_sequences","configurations"],"every exporter crossed with every class of rejected input",
 "Tests check exit codes for the JSON exporter mostly and hardly ever the absence of output.",
 [S+"main.py",E+"vss2json.py",E+"vss2yaml.py",E+"vss2csv.py"],[("get_trees before open of output",S+"main.py")],["exit code, output files"])
p("C13","JSON, YAML and CSV exports are complete and faithful",
 "JSON, YAML and CSV exports contain exactly the nodes of the final tree, each with exactly its final attribute values (internal ones such as delete, instantiate, arraysize and aggregate excluded, unset ones omitted), values keeping their kind and content, nested by name in JSON and listed by full name in YAML and CSV, type trees under ComplexDataTypes or in the separate types output. Unknown attributes appear exactly if whitelisted with -e or all are requested with --extend-all-attributes, on every node alike.",
 ["inputs","configurations"],"every accepted model and every combination of -e, --extend-all-attributes, --uuid, --types, --types-output, --pretty",
 "Golden files fix about a dozen models; option combinations and value kinds are not sampled.",
 [E+"vss2json.py",E+"vss2yaml.py",E+"vss2csv.py",S+"tree.py",S+"model.py"],[("get_data",E+"vss2json.py"),("as_flat_dict",S+"tree.py"),("as_dict",S+"model.py")],["output files"])
p("C14","Exported YAML loads back to the same model",
 "The YAML export of any accepted model (types exported to a file of their own, no UUIDs added), expanded or not, is itself a valid input that loads to the same model: exporting it again with the same types, units and options gives the same YAML and the same JSON, for any number of steps, and, unless the model uses 'delete' or 'instantiate: false', the un-expanded YAML export loads to the same expanded model as the original files.",
 ["inputs","histories"],"every accepted model and every number of export/reload steps",
 "No test feeds an export back.",
 [E+"vss2yaml.py",S+"tree.py",S+"model.py"],[("export_yaml",E+"vss2yaml.py"),("as_flat_dict",S+"tree.py")],["YAML outputs of a chain of runs"])
p("C15","UUIDs are the version-5 UUID of the full name, stable and unique",
 "With --uuid every node of the signal tree carries the RFC 4122 version-5 UUID of its full name in the vehicle_signal_specification namespace, so it depends on nothing but the full name: overlays, other nodes, exporter and run order do not change it, and different nodes have different UUIDs. Without --uuid no UUID is written.",
 ["inputs","histories"],"every accepted model, before and after unrelated changes, for every exporter supporting UUIDs",
 "Tests compare one fixture.",
 [S+"tree.py",E+"vss2json.py",E+"vss2csv.py",E+"vss2yaml.py"],[("add_uuids",S+"tree.py")],["json/yaml/csv/binary outputs"])
p("C16","Static IDs are a fixed function of identity-relevant metadata",
 "The id exporter gives every node a static UID that is the 32-bit FNV-1 hash of its full name, unit, datatype, type, allowed, min and max (case folded unless case-sensitive; the oldest former name in fka replaces the name), or its constUID if set, as 0x plus eight digits. It therefore does not change when descriptions, comments, deprecations, defaults or other nodes change, is the same for the expanded copy in every run, and no export is written in which two nodes share a static UID.",
 ["inputs","histories"],"every accepted model and every sequence of edits to it",
 "Tests hash a few fixed nodes.",
 [E+"vss2id.py",U+"idgen_utils.py"],[("generate_split_id, export_node",E+"vss2id.py")],["vspec export id output"])
p("C17","Static ID validation reports exactly the changes between versions",
 "Validating a model against an earlier id export reports exactly the differences: each node that was added, each that was deleted, each whose name or path changed (recognised by an unchanged static UID or by its former name in fka: a semantic change), each whose hash-relevant metadata changed so that its static UID is another (a breaking change), each with another description and each whose deprecation message changed; an identical model gives no report. Validation changes neither the exit code nor what is exported.",
 ["inputs","histories"],"every pair of model versions",
 "Tests apply one edit at a time to one fixture.",
 [E+"vss2id.py",U+"vss2id_val.py"],[("validate_static_uids",E+"vss2id.py")],["warnings of vspec export id --validate-static-uid"])
p("C18","Protobuf messages are complete with unique legal field numbers",
 "The protobuf export has one message per branch (and struct) with exactly one field per child, referencing existing, imported messages or the proto type of the child's datatype (repeated for arrays, optional if asked for), no two messages of a file share a name, every file that is needed is imported once, and within each message all field numbers are distinct, at least 1, at most 536870911 and outside 19000-19999. With --static-uid the number of a field depends only on its static UID, and if a UID is missing or two fields of a message would get the same or an illegal number the run fails instead of writing it, as it does if two fields of a message would have the same name in JSON. Everything written compiles.",
 ["inputs"],"every accepted model whose names and instances are identifiers (siblings differing in more than case), and every assignment of static UIDs",
 "Tests compile two fixtures with protoc.",
 [E+"vss2protobuf.py"],[("print_message_body, field number computation",E+"vss2protobuf.py")],["generated .proto files"])
p("C19","Binary export round-trips through the C and Go readers",
 "Reading a binary export with the C or the Go library yields the same tree as the exported model: same shape and order of children, names, types, datatypes, descriptions, units, min, max, default, allowed values, UUIDs and validate/access settings. Writing that tree with either library, also over an existing file, and reading it with either again yields the same tree, in any history of reads, writes, lists and searches. A model with a value, a full name or a depth that does not fit the format is refused.",
 ["inputs","histories"],"every accepted model whose texts fit the format, every chain of read and write by either library",
 "Tests compare the printed tree of one fixture only.",
 [E+"vss2binary.py","binary/c_parser/cparserlib.c","binary/go_parser/parserlib/parser.go"],[("export_node / create_l8v_string",E+"vss2binary.py"),("readNode/writeNode",'binary/c_parser/cparserlib.c')],["library API"])
p("C20","C and Go tree searches return exactly the matching nodes",
 "Searching a tree with a path answers, in the order of the tree and each once with its full path, the nodes along the path as far as they exist, where * is any one name and a trailing * covers one level or, with any depth, the whole subtree; below a wildcard only nodes are answered whose path can be continued to the end of the query. Leaf-only searches answer only the leaves of these, no-scope paths are not descended below, the answer stops at the given limit, and the reported validation value is the strictest on the matched paths. The leaf and UUID lists contain every leaf exactly once. The C and the Go library answer the same, whatever was called before.",
 ["inputs"],"every tree and every search path, flags and limits",
 "Tests run three searches on one tree.",
 ["binary/c_parser/cparserlib.c","binary/go_parser/parserlib/parser.go"],[("VSSsearchNodes, traverseNode, saveMatchingNode","binary/c_parser/cparserlib.c"),("VSSsearchNodes","binary/go_parser/parserlib/parser.go")],["library API"])
p("C21","Generated Go types have unique names and resolvable fields",
 "The Go export declares structs with names unique in the file and distinct from the predeclared types, and following the fields from the root struct along the path of any node leads to exactly one field per child, whose type is the Go type of the child's datatype (a slice for arrays, the declared struct for struct types) or the struct of that child branch; no struct has other fields. Instances may share a struct only if their members are the same. Shortening names never makes two types collide; names that would collide are refused.",
 ["inputs"],"every accepted model, in particular with equal node names in different branches",
 "Tests compare two golden files.",
 [E+"vss2go.py"],[("get_struct_name/avoid ambiguities",E+"vss2go.py")],["generated Go source"])
p("C22","Franca, tree and JSON-Schema exports show every node with its attributes",
 "The Franca, tree and JSON-Schema exports show every node they cover of the final tree (Franca: all below the root) exactly once under its full name or nesting, none that is not in the tree, each with the attributes the format shows (type, description, datatype, unit, min, max, allowed, default, UUID, extended attributes), texts quoted so that they read back unchanged. The JSON schema maps every datatype to its JSON type (arrays to arrays, structs to objects) and its constraints to keywords a permitted value satisfies; --no-additional-properties, --require-all-properties, --extend-all-attributes, --attr and --franca-vss-version change exactly what they name.",
 ["inputs","configurations"],"every accepted model, datatype, constraint and combination of the exporters' options",
 "One golden file per exporter and fixture.",
 [E+"vss2franca.py",E+"vss2jsonschema.py",E+"vss2tree.py",S+"model.py"],[("print_franca_content",E+"vss2franca.py"),("export_node",E+"vss2jsonschema.py"),("get_rendered_tree",E+"vss2tree.py")],["output files"])
p("C23","Outputs are a deterministic function of the inputs",
 "Running the same exporter twice on the same input files with the same options gives byte-identical output files (a generation date aside), whatever the hash seed, the location of the files, the working directory and whatever was exported before.",
 ["inputs","configurations","schedules"],"every accepted model, exporter, hash seed and directory",
 "Tests run once with one hash seed.",
 [E+"vss2jsonschema.py",E+"vss2ddsidl.py",S+"tree.py",S+"datatypes.py"],[("get_extra_attributes, set iteration",S+"model.py")],["output files"])
p("C24","Un-expanded export keeps the instance definitions instead",
 "With --no-expand the result contains exactly the nodes as defined (after includes, overlays and deletion), no generated instance branch, and each branch keeps its instance definition unchanged as a list; all other attributes are the same as those the expanded export gives to the generic nodes.",
 ["inputs","configurations"],"every accepted model and exporter with --no-expand",
 "Tests compare one fixture.",
 [S+"main.py",S+"tree.py",E+"vss2csv.py",E+"vss2json.py",E+"vss2yaml.py"],[("get_trees expand flag",S+"main.py")],["json/yaml/csv outputs"])
p("C25","The GraphQL schema is valid and gives access to every signal",
 "The GraphQL export has the query vehicle for the type of the root, one object type per leaf and per branch with a leaf below it, named by its full name, and in the type of each branch exactly one field per such child, named in camel case; leaf types have value (GraphQL type of the datatype, a list for arrays), timestamp, unit exactly if the signal has one, and the fields asked for with -g; descriptions and deprecation reasons are those of the node. Types without fields are not written, and a model whose names collide or are not legal in GraphQL is refused instead of losing nodes.",
 ["inputs","configurations"],"every accepted model, in particular names that differ in case or separators only, and every -g option",
 "Golden files of a few models whose names never collide.",
 [E+"vss2graphql.py",U+"misc.py"],[("to_gql_type, leaf_fields, branch_fields",E+"vss2graphql.py"),("camel_back",U+"misc.py")],["vspec export graphql output"])
p("C26","DDS-IDL and ApiGear interfaces declare every signal and struct",
 "The DDS-IDL export has one module per branch, one struct per leaf and per declared struct, nested as in the model, with names that are keywords escaped everywhere they are used; a value has the IDL type of its datatype (a sequence for arrays, the declared struct for struct types), or the enumeration of its allowed strings. The ApiGear module has one interface per branch with leaves, one property per leaf with its mapped type (arrays marked), one enumeration per leaf with allowed values whose members carry the values, one struct per declared struct, deprecated names marked consistently, and the solution lists the layers asked for at their paths.",
 ["inputs","configurations"],"every accepted model (structs hold properties only), names that are keywords, all datatypes and options",
 "Golden files of a few models.",
 [E+"vss2ddsidl.py",E+"vss2apigear.py"],[("export_node, StructExporter, getAllowedName",E+"vss2ddsidl.py"),("export_node, generate_module",E+"vss2apigear.py")],["vspec export ddsidl and apigear output"])
p("C27","Aspect models have every signal where its instances put it",
 "The SAMM export writes Turtle files that read back as one graph in which every element referred to is defined, in one file only, and is part of the payload of the top aspect. The payload has, nested as in the model and with instances as levels of their own, every node that is not deprecated (nor below a deprecated one) exactly once per combination of instances of the branches above it, named like the node, with description, data type, range, unit, default and allowed values of the signal. Splitting into several aspects (--split, --split-depth) moves elements to other files and changes no payload; with --signals-file exactly the signals on or below a given path are in it. All files lie below the target namespace and the version the catalogue states.",
 ["inputs","configurations"],"every accepted model whose branches have different names, with up to two levels of instances; every selection, split depth and namespace",
 "Tests check only that the exporter runs and a few helper functions.",
 [E+"vss2samm/vss2samm.py",E+"vss2samm/helpers/vss_helper.py",E+"vss2samm/helpers/ttl_helper.py",E+"vss2samm/helpers/ttl_builder_helper.py"],[("parse_vss_tree/handle_branch_node",E+"vss2samm/helpers/ttl_helper.py"),("add_node_instances, add_node_leaf",E+"vss2samm/helpers/ttl_builder_helper.py"),("parse_instance, filter_vss_tree_for_deletion",E+"vss2samm/helpers/vss_helper.py")],["vspec export samm output"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
