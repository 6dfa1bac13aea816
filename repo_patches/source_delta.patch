From c5131c32bf0872a30010960bc0ba68483e1d141a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 01/68] fix: json exporter ignored extended attribute selection
 below the root

Only the root node (and no node of the type tree) honoured
-e/--extended-attributes and --extend-all-attributes; every other node
exported all extended attributes.
---
 src/vss_tools/vspec/vssexporters/vss2json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..12696ab 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -27,7 +27,7 @@ def get_data(node: VSSNode, with_extra_attributes: bool = True, extended_attribu
     if len(node.children) > 0:
         data["children"] = {}
     for child in node.children:
-        data["children"][child.name] = get_data(child)
+        data["children"][child.name] = get_data(child, with_extra_attributes, extended_attributes)
     return data
 
 
@@ -88,7 +88,7 @@ def cli(
     signals_data = {tree.name: get_data(tree, extend_all_attributes, extended_attributes)}
 
     if datatype_tree:
-        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes)}
+        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes, extended_attributes)}
         if not types_output:
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
-- 
2.43.0


From 20cec254692a77846fb345902ec231be070ee5fe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 02/68] fix: defaults 0, false and '' were not checked against
 allowed

---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..693da15 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -222,7 +222,7 @@ class VSSDataDatatype(VSSData):
         Checks that the given default values
         are in the allowed list
         """
-        if self.default and self.allowed:
+        if self.default is not None and self.allowed:
             values = self.default
             if not isinstance(self.default, list):
                 values = [self.default]
-- 
2.43.0


From 6866c62183e96eefc93792ec8a28924ffc1cb09d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 03/68] fix: short struct names matched name prefixes instead
 of namespaces

'Types.S' made short names unusable from 'Types.S2.x' and visible from
'TypesOther.x'; an ambiguous short name depended on the hash seed.
---
 src/vss_tools/vspec/datatypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..beea828 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -238,16 +238,17 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    # Sorted from outer to inner namespaces: the innermost one wins if a name is ambiguous
+    for t in sorted(dynamic_datatypes, key=lambda t: (t.count("."), t)):
         # This excludes referencing the own struct as a datatype
-        if fqn.startswith(t):
+        if fqn == t or fqn.startswith(f"{t}."):
             continue
 
         # fqn: Types.A.B.C.x_property
         # t: Types.A.B.D
         # We are checking whether fqn starts with Types.A.B
         # in this case we add {D: Types.A.B.D}
-        if fqn.startswith(".".join(t.split(".")[:-1])):
+        if fqn.startswith(".".join(t.split(".")[:-1]) + "."):
             fqn_namespaced_datatypes[(t.split(".")[-1])] = t
 
     if fqn_namespaced_datatypes:
-- 
2.43.0


From 853a2f5ef3df0b307582ea118d2e6e2d177d9a91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 04/68] fix: definitions in later type files were silently
 ignored

Additional type files are documented to be merged like overlays, but a node
already defined by an earlier type file kept its old definition.
---
 src/vss_tools/vspec/main.py | 43 +++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..804b4e8 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -22,7 +22,12 @@ from vss_tools.vspec.model import (
     VSSDataStruct,
     get_all_model_fields,
 )
-from vss_tools.vspec.tree import ModelValidationException, VSSNode, build_tree
+from vss_tools.vspec.tree import (
+    ModelValidationException,
+    MultipleRootsException,
+    VSSNode,
+    build_tree,
+)
 from vss_tools.vspec.units_quantities import load_quantities, load_units
 from vss_tools.vspec.vspec import InvalidSpecDuplicatedEntryException, load_vspec
 
@@ -109,22 +114,15 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
         log.debug("No user 'types' defined")
         return None
 
-    types_root: VSSNode | None = None
-    # We are iterating to be able to reference
-    # types from earlier type files
-    for types_file in list(types):
-        data = load_vspec(include_dirs, [types_file], "Types")
-        root, orphans = build_tree(data.data)
-        if orphans:
-            log.error(f"Types model has orphans\n{orphans}")
-            exit(1)
-        if types_root:
-            node: VSSNode
-            for node in PreOrderIter(root):
-                if not types_root.connect(node.get_fqn(), node):
-                    raise MultipleTypeTreesException()
-        else:
-            types_root = root
+    # Type files after the first one are treated like overlays
+    data = load_vspec(include_dirs, list(types), "Types")
+    try:
+        types_root, orphans = build_tree(data.data)
+    except MultipleRootsException:
+        raise MultipleTypeTreesException() from None
+    if orphans:
+        log.error(f"Types model has orphans\n{orphans}")
+        exit(1)
 
     if dynamic_datatypes:
         log.info(f"Dynamic datatypes added={len(dynamic_datatypes)}")
@@ -135,12 +133,11 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
     if not all(["." in t for t in dynamic_datatypes]):
         raise RootTypesException()
 
-    if types_root:
-        try:
-            types_root.resolve()
-        except ModelValidationException as e:
-            log.critical(e)
-            exit(1)
+    try:
+        types_root.resolve()
+    except ModelValidationException as e:
+        log.critical(e)
+        exit(1)
 
     return types_root
 
-- 
2.43.0


From 7798be48bf1e8a4195a5eb4d6f429886f949ebbd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 05/68] fix: short struct names depended on the declaration
 order

A node was resolved against the structs declared before it; an inner struct
of the same name declared later was not considered.
---
 src/vss_tools/vspec/tree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..ffa2b44 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -19,6 +19,7 @@ from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes, dynamic_datatypes
 from vss_tools.vspec.model import (
     ModelValidationException,
+    NodeType,
     VSSData,
     VSSDataBranch,
     VSSDataDatatype,
@@ -464,15 +465,18 @@ def build_tree(data: dict[str, Any], connect_orphans: bool = False) -> tuple[VSS
     """
     nodes: dict[str, VSSNode] = {}
 
+    # All structs have to be known as datatypes before nodes get created,
+    # since those resolve their datatypes right away
+    for k, v in data.items():
+        if isinstance(v, dict) and v.get("type") == NodeType.STRUCT.value:
+            if isinstance(get_vss_raw(v, k), VSSDataStruct):
+                dynamic_datatypes.add(k)
+
     for k in sorted(data.keys(), key=count_seperator):
         v: Any = data.get(k)
         parent = get_expected_parent(k)
         node_name = get_name(k)
         node = VSSNode(node_name, k, v)
-        # If this is a datatype tree we should add the
-        # struct node as a datatype
-        if isinstance(node.data, VSSDataStruct):
-            dynamic_datatypes.add(k)
 
         # We connect a parent and children
         # Probably we should be fine only connecting
-- 
2.43.0


From 7fe61e465c2807e654e17f0c004ec32629750391 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 06/68] fix: id exporter missed static UIDs that differ in
 letter case only

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..02e6a3b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if int(node_id, 16) == int(value, 16):
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From 1c190a5d806f4176bbaa783b8a8142dec066a80c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 07/68] fix: binary exporter failed on allowed values other
 than strings

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..55d513e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -40,7 +40,8 @@ from vss_tools.vspec.tree import VSSNode
 def allowedString(allowedList):
     allowedStr = ""
     for elem in allowedList:
-        allowedStr += hexAllowedLen(elem) + elem
+        text = str(elem)
+        allowedStr += hexAllowedLen(text) + text
     return allowedStr
 
 
-- 
2.43.0


From 9465679770fa359de9a4696a5b0c2e903dc9010f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 08/68] fix: binary exporter left a partial file when it failed

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 55d513e..9cf5917 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -26,6 +26,7 @@
 # the length is 0.
 
 import struct
+from io import BytesIO
 from pathlib import Path
 from typing import BinaryIO
 
@@ -144,6 +145,8 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating binary output...")
+    buffer = BytesIO()
+    export_node(tree, uuid, buffer)
     with open(str(output), "wb") as f:
-        export_node(tree, uuid, f)
+        f.write(buffer.getvalue())
     log.info("Binary output generated in %s", output)
-- 
2.43.0


From 6c35fc47a07454845d4728f1b49c55b4897eb41d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 09/68] fix: ddsidl exporter failed on struct properties of a
 struct type

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..071895f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -344,7 +344,7 @@ class StructExporter(object):
                 if not datatype.startswith("Types."):
                     continue
 
-                datatype_str = datatype(".", "::").split("[", 1)[0]
+                datatype_str = datatype.replace(".", "::").split("[", 1)[0]
                 if datatype_str not in self.structs_seen:
                     base_type = datatype_str.split("::")[-1]
                     fwds.append(base_type)
-- 
2.43.0


From d4dd96ad3ab5d016bb8795b5f7db62262af57bca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 10/68] fix: graphql exporter left an empty file when it failed

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..725bc1b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -176,10 +176,10 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating graphql output...")
-    outfile = open(output, "w")
     gqlfields: list[list[str]] = []
     for field in gql_fields:
         gqlfields.append(field.split(","))
-    outfile.write(get_schema_from_tree(tree, gqlfields))
-    outfile.write("\n")
-    outfile.close()
+    schema = get_schema_from_tree(tree, gqlfields)
+    with open(output, "w") as outfile:
+        outfile.write(schema)
+        outfile.write("\n")
-- 
2.43.0


From 0ba034e119132b2db8b82bb041ebd7236938e1bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 11/68] fix: apigear exporter reported success without writing
 anything

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index df72495..8984341 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -10,6 +10,7 @@
 
 
 import abc
+import sys
 import typing
 import yaml
 import rich_click as click
@@ -508,7 +509,7 @@ def cli(
     log.info("Generating ApiGear output...")
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
-        return
+        sys.exit(1)
     output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
-- 
2.43.0


From 8174c465cc61932becb6080ec44d29843160982a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 12/68] fix: ddsidl exporter wrote forward declarations in
 random order

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 071895f..20b6261 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -349,8 +349,7 @@ class StructExporter(object):
                     base_type = datatype_str.split("::")[-1]
                     fwds.append(base_type)
 
-            fwds.sort()
-            for f in set(fwds):
+            for f in sorted(set(fwds)):
                 prefix += f"struct {f};\n"
 
             prefix += f"struct {getAllowedName(node.name)}" + " {\n"
-- 
2.43.0


From 59a675463bc92391689a3ee7f59567ec1b6f94a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 13/68] fix: ddsidl exporter left a partial file when it failed

---
 .../vspec/vssexporters/vss2ddsidl.py          | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 20b6261..bc63fac 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -11,6 +11,7 @@
 #
 
 import keyword
+from io import StringIO
 from pathlib import Path
 
 import rich_click as click
@@ -375,9 +376,9 @@ def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False)
     """This method is used to traverse through the root VSS node to build
     -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
     """
+    idl_file_buffer.clear()
     export_node(root, generate_uuids, generate_all_idl_features)
     file.write("\n".join(idl_file_buffer))
-    log.info("IDL file generated at location : " + file.name)
 
 
 @click.command()
@@ -428,15 +429,16 @@ def cli(
     )
     log.info("Generating DDS-IDL output...")
 
+    buffer = StringIO()
     if datatype_tree is not None:
-        exporter = StructExporter()
-        with open(output, "w") as idl_out:
-            idl_out.write(exporter.export(datatype_tree))
-
-    with open(output, "a" if datatype_tree is not None else "w") as idl_out:
-        export_idl(
-            idl_out,
-            tree,
-            uuid,
-            all_idl_features,
-        )
+        buffer.write(StructExporter().export(datatype_tree))
+    export_idl(
+        buffer,
+        tree,
+        uuid,
+        all_idl_features,
+    )
+
+    with open(output, "w") as idl_out:
+        idl_out.write(buffer.getvalue())
+    log.info(f"IDL file generated at location : {output}")
-- 
2.43.0


From ac08e8e9dddb58526e3b333e8773f3c7ae929968 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 14/68] fix: protobuf exporter appended to type files of an
 earlier run

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..44ec249 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -60,6 +60,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    initialized: set[Path] = set()
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -71,7 +72,8 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
+        if out_file not in initialized:
+            initialized.add(out_file)
             init_package_file(out_file, ".".join(struct_path.parent.parts))
 
         with open(out_file, "a") as fd:
-- 
2.43.0


From 0cb2c4e07d2408cd025c0deaa738c954a4fcc720 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 15/68] fix: protobuf exporter left partial files when it
 aborted

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 44ec249..4219225 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -10,8 +10,9 @@
 #
 
 import sys
-from io import TextIOWrapper
+from io import StringIO
 from pathlib import Path
+from typing import TextIO
 
 import rich_click as click
 from anytree import findall
@@ -94,7 +95,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
             log.info(f"Wrote {struct_path.name} to {out_file}")
 
 
-def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_optional: bool):
     fd.write('syntax = "proto3";\n\n')
 
     imports = []
@@ -113,7 +114,7 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
         fd.write("}\n\n")
 
 
-def write_imports(fd: TextIOWrapper, imports: list[str]):
+def write_imports(fd: TextIO, imports: list[str]):
     imports = list(set(imports))
     imports.sort()
     for stmt in imports:
@@ -121,7 +122,7 @@ def write_imports(fd: TextIOWrapper, imports: list[str]):
     fd.write("\n")
 
 
-def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_optional: bool):
     usedKeys: dict[int, str] = {}
     for i, node in enumerate(nodes, 1):
         if isinstance(node.data, VSSDataDatatype):
@@ -218,6 +219,13 @@ def cli(
         types=types,
         overlays=overlays,
     )
+    # Field number problems abort the run before any file is touched
+    for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataBranch)):
+        print_messages(node.children, StringIO(), static_uid, add_optional)
+    if datatype_tree:
+        for node in findall(datatype_tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
+            print_messages(node.children, StringIO(), static_uid, add_optional)
+
     if datatype_tree:
         if not types_out_dir:
             types_out_dir = Path.cwd()
-- 
2.43.0


From d00f209bb5353cb74a2aa143f5c118a22728e106 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 16/68] fix: protobuf exporter wrote illegal field numbers

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 4219225..927a870 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -146,8 +146,11 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_opti
                 )
                 sys.exit(-1)
             fieldNumber = int(int(getattr(node.data, "staticUID"), 0) / 8)
+            if fieldNumber < 1 or fieldNumber > 536870911:
+                log.fatal(f"Aborting because field number {fieldNumber} for signal {node.name} is not legal.")
+                sys.exit(-1)
             if fieldNumber < 20000 and fieldNumber >= 19000:
-                log.fatal("""Aborting because field number {fieldNumber} for signal {node.name} is in
+                log.fatal(f"""Aborting because field number {fieldNumber} for signal {node.name} is in
                 reservered range between 19000 and 20000. Consider changing the signal to alter the staticUID.""")
                 sys.exit(-1)
             if fieldNumber in usedKeys:
-- 
2.43.0


From 9eb771f63dada3e1f9711d2c6713b4e799fcc4d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 17/68] fix: jsonschema exporter failed on types with
 --extend-all-attributes

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..8a9aa0e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -221,11 +221,11 @@ def cli(
         if extend_all_attributes:
             signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
 
-    # VSS models only have one root, so there should only be one
-    # key in the dict
-    assert len(signals_json_schema.keys()) == 1
-    top_node_name = list(signals_json_schema.keys())[0]
+    top_node_name = tree.name
+    complex_data_types = signals_json_schema.pop("x-ComplexDataTypes", None)
     signals_json_schema = signals_json_schema.pop(top_node_name)
+    if complex_data_types is not None:
+        signals_json_schema["x-ComplexDataTypes"] = complex_data_types
 
     json_schema = {
         "$schema": "https://json-schema.org/draft/2020-12/schema",
-- 
2.43.0


From 6bd3f9656cc4f2ab6127b388424750871eecbf88 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 18/68] fix: jsonschema exporter failed on struct and numeric
 datatypes

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8a9aa0e..7cffa97 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -17,6 +17,7 @@ import rich_click as click
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
+from vss_tools.vspec.datatypes import is_array
 from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.model import VSSDataBranch, VSSDataDatatype, VSSDataStruct
 from vss_tools.vspec.tree import VSSNode
@@ -46,6 +47,8 @@ type_map = {
     "float[]": "array",
     "double[]": "array",
     "string[]": "array",
+    "numeric": "number",
+    "numeric[]": "array",
 }
 
 
@@ -65,7 +68,9 @@ def export_node(
     }
 
     if isinstance(data, VSSDataDatatype):
-        json_dict[node.name]["type"] = type_map[data.datatype]
+        # Everything not listed is a struct or an array of structs
+        struct_type = "array" if is_array(data.datatype) else "object"
+        json_dict[node.name]["type"] = type_map.get(data.datatype, struct_type)
 
     min = getattr(data, "min", None)
     if min is not None:
-- 
2.43.0


From 12cfcaa836a45c97e25c6bd7672d61e4c57039a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 19/68] fix: graphql exporter failed on numeric datatypes

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 725bc1b..97d35ce 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -53,6 +53,8 @@ GRAPHQL_TYPE_MAPPING = {
     Datatypes.FLOAT_ARRAY[0]: GraphQLList(GraphQLFloat),
     Datatypes.DOUBLE[0]: GraphQLFloat,
     Datatypes.DOUBLE_ARRAY[0]: GraphQLList(GraphQLFloat),
+    Datatypes.NUMERIC[0]: GraphQLFloat,
+    Datatypes.NUMERIC_ARRAY[0]: GraphQLList(GraphQLFloat),
     Datatypes.BOOLEAN[0]: GraphQLBoolean,
     Datatypes.BOOLEAN_ARRAY[0]: GraphQLList(GraphQLBoolean),
     Datatypes.STRING[0]: GraphQLString,
-- 
2.43.0


From 1f35f6f4ac88c16340c1c6fd3780511e7833f1f9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 20/68] fix: jsonschema exporter dropped defaults 0, false and
 ''

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 7cffa97..368c393 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -85,7 +85,7 @@ def export_node(
         json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
-    if default:
+    if default is not None:
         json_dict[node.name]["default"] = default
 
     if isinstance(data, VSSDataStruct):
-- 
2.43.0


From e9cf2cc1c42cd78d0e202a7c535019f11b74a9e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 21/68] fix: protobuf exporter imported a type file once per
 struct using it

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 927a870..c959f0d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -62,6 +62,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     """
 
     initialized: set[Path] = set()
+    imported: set[tuple[Path, str]] = set()
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -85,7 +86,11 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
                     continue
                 c_struct_path = Path(datatype.replace(".", "/"))
                 if c_struct_path.parent != struct_path.parent:
-                    imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+                    stmt = f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto"
+                    # A file must not be imported twice, also not by two structs of the same package
+                    if (out_file, stmt) not in imported:
+                        imported.add((out_file, stmt))
+                        imports.append(stmt)
 
             write_imports(fd, imports)
 
-- 
2.43.0


From fc5c62c074305c1c12ea1b822f6ffdf0b1f32619 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 22/68] fix: protobuf exporter wrote two messages with the same
 name

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index c959f0d..1ffa5b9 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -227,8 +227,13 @@ def cli(
         types=types,
         overlays=overlays,
     )
-    # Field number problems abort the run before any file is touched
+    # Name and field number problems abort the run before any file is touched
+    messages: dict[str, str] = {}
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataBranch)):
+        other = messages.setdefault(node.get_fqn(""), node.get_fqn())
+        if other != node.get_fqn():
+            log.fatal(f"Aborting because {other} and {node.get_fqn()} would both become message {node.get_fqn('')}.")
+            sys.exit(-1)
         print_messages(node.children, StringIO(), static_uid, add_optional)
     if datatype_tree:
         for node in findall(datatype_tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
-- 
2.43.0


From b52b5e2267f1ca2142dc34aaef3cc1b13344711d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 23/68] fix: protobuf exporter used the datatype numeric, which
 protobuf does not have

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1ffa5b9..d698139 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -36,6 +36,7 @@ mapped = {
     "int8": "int32",
     "int16": "int32",
     "boolean": "bool",
+    "numeric": "double",
 }
 
 
-- 
2.43.0


From e3632f20646967f29bcf8b14f221b46a261c1f26 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 24/68] fix: id validation missed renamed nodes with
 --case-sensitive or --strict

---
 src/vss_tools/vspec/utils/vss2id_val.py    | 2 +-
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 8231e32..994f770 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -21,7 +21,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
 
     @param signals_dict: to be exported dict of all signals containing static UID
     @param validation_tree: tree loaded from validation file
-    @param strict
+    @param strict: whether static UIDs are case sensitive
     @return: None
     """
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 02e6a3b..2e955ff 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,7 +213,7 @@ def cli(
             types=types,
             expand=expand,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w") as f:
-- 
2.43.0


From 870a07a4c5e1621ee962d6dbf07e5afc3c863c93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 25/68] fix: id validation failed on validation nodes without
 static UID

---
 src/vss_tools/vspec/utils/vss2id_val.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 994f770..e17e285 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -55,7 +55,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
             for fka_val in v["fka"]:
                 old_static_uid = "0x" + fnv1_32_wrapper(fka_val, v, strict_mode)
                 for i, validation_node in enumerate(validation_tree_nodes):
-                    if old_static_uid == validation_node.data.staticUID:
+                    if old_static_uid == getattr(validation_node.data, "staticUID", None):
                         log.warning(
                             f"[Validation] SEMANTIC NAME CHANGE or PATH CHANGE for '{k}', "
                             f"it used to be '{validation_node.get_fqn()}'."
-- 
2.43.0


From 3b0f059985988da8298f05acdc5242c4dac09f1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 26/68] fix: jsonschema exporter wrote schemas no value
 satisfies for arrays with allowed values

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 368c393..30d4654 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -82,7 +82,10 @@ def export_node(
 
     allowed = getattr(data, "allowed", None)
     if allowed:
-        json_dict[node.name]["enum"] = allowed
+        if json_dict[node.name].get("type") == "array":
+            json_dict[node.name]["items"] = {"enum": allowed}
+        else:
+            json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
     if default is not None:
-- 
2.43.0


From 798c3bb078155280cb41c939609e37c2a0e10161 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 27/68] fix: graphql exporter silently dropped nodes with the
 same field name

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 97d35ce..7483485 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -121,7 +121,13 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
     # we only consider nodes that either have children or are datatype leafs
     valid = (c for c in node.children if len(c.children) or hasattr(c.data, "datatype"))
-    return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
+    field_dict: Dict[str, GraphQLField] = {}
+    for c in valid:
+        name = camel_back(c.name)
+        if name in field_dict:
+            raise GraphQLFieldException(f"{node.get_fqn()} has several children with the graphql field name '{name}'")
+        field_dict[name] = field(c, type=to_gql_type(c, additional_leaf_fields))
+    return field_dict
 
 
 def field(node: VSSNode, description_prefix="", type=GraphQLString) -> GraphQLField:
-- 
2.43.0


From 8c263a2f960c2d06da969a50c8c74130026a3247 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 28/68] fix: graphql exporter wrote types without fields

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 7483485..29aa9ab 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -119,8 +119,8 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 
 
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
-    # we only consider nodes that either have children or are datatype leafs
-    valid = (c for c in node.children if len(c.children) or hasattr(c.data, "datatype"))
+    # we only consider datatype leafs and nodes above such leafs, a type without fields is not valid
+    valid = (c for c in node.children if any(hasattr(leaf.data, "datatype") for leaf in c.leaves))
     field_dict: Dict[str, GraphQLField] = {}
     for c in valid:
         name = camel_back(c.name)
-- 
2.43.0


From e998a0ee788c361ce7b870d79b7ce630706bdf81 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 29/68] fix: ddsidl exporter did not recognise python keywords

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index bc63fac..0a199ac 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -147,7 +147,7 @@ idl_keywords = [
 
 
 def getAllowedName(name):
-    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower):
+    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower()):
         return "_" + name
     else:
         return name
-- 
2.43.0


From 9d0d961741ea1ae0c04ef28ee6ad8664cc1cc32e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 30/68] fix: ddsidl exporter wrote datatypes IDL does not have
 (arrays of structs, numeric, keywords)

---
 .../vspec/vssexporters/vss2ddsidl.py          | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 0a199ac..bf7535e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -184,10 +184,21 @@ dataTypesMap_covesa_dds = {
     "boolean": "boolean",
     "float": "float",
     "double": "double",
+    "numeric": "double",
     "string": "string",
 }
 
 
+def get_idl_type(datatype: str) -> str:
+    """
+    The IDL name of a datatype or, if it is an array, of its elements
+    """
+    base = datatype.split("[", 1)[0]
+    if base in dataTypesMap_covesa_dds:
+        return dataTypesMap_covesa_dds[base]
+    return "::".join(getAllowedName(name) for name in base.split("."))
+
+
 def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: bool) -> None:
     """
     This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
@@ -239,15 +250,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         # fetching value of datatype and obtaining the equivalent DDS type
         try:
             if datatype:
-                if datatype in dataTypesMap_covesa_dds:
-                    datatype = str(dataTypesMap_covesa_dds[datatype])
-                elif "[" in datatype:
-                    nodevalueArray = datatype.split("[", 1)
-                    if str(nodevalueArray[0]) in dataTypesMap_covesa_dds:
-                        datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
-                        arraysize = "[" + str(arraysize) + nodevalueArray[1]
-                else:  # no primitive type. this is custom
-                    datatype = datatype.replace(".", "::")  # custom data type
+                if "[" in datatype:
+                    arraysize = "[" + str(arraysize) + datatype.split("[", 1)[1]
+                datatype = get_idl_type(datatype)
 
         except AttributeError:
             pass
@@ -358,7 +363,7 @@ class StructExporter(object):
             self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
         else:
             datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = datatype.replace(".", "::").split("[", 1)[0]
+            datatype_str = get_idl_type(datatype)
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From 444b7820aac333faf8bd66be6e7f6f21f14ab9c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 31/68] fix: ddsidl exporter did not escape quotes and newlines
 in texts

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index bf7535e..ddf255a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -170,6 +170,13 @@ def get_allowed_enum_literal(name: str):
     return name
 
 
+def get_idl_string(text: str) -> str:
+    """
+    The text as string literal, on a single line
+    """
+    return '"' + text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
+
+
 idl_file_buffer = []
 
 dataTypesMap_covesa_dds = {
@@ -264,7 +271,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         default = getattr(node.data, "default")
         if default:
             if isinstance(default, str) and not enum_created:
-                default = '"' + default + '"'
+                default = get_idl_string(default)
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
@@ -303,7 +310,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     )
 
         if unit is not None:
-            idl_file_buffer.append(("" if generate_all_idl_features else "//") + 'const string unit="' + unit + '";')
+            idl_file_buffer.append(
+                ("" if generate_all_idl_features else "//") + "const string unit=" + get_idl_string(unit) + ";"
+            )
 
         data = node.get_vss_data()
         idl_file_buffer.append(
@@ -311,7 +320,10 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         )
 
         idl_file_buffer.append(
-            ("" if generate_all_idl_features else "//") + 'const string description="' + data.description + '";'
+            ("" if generate_all_idl_features else "//")
+            + "const string description="
+            + get_idl_string(data.description)
+            + ";"
         )
         idl_file_buffer.append("};")
 
-- 
2.43.0


From 3a4d97b63f474c10bb274351ffc0554f371e7ce9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 32/68] fix: franca exporter did not escape quotes and newlines
 in texts

---
 src/vss_tools/vspec/vssexporters/vss2franca.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index c1192df..8d18bab 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -48,6 +48,11 @@ const SignalSpec[] signal_spec = [
 
 
 # Write the data lines
+def franca_string(text: str) -> str:
+    """The text as string literal, on a single line"""
+    return '"' + text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
+
+
 def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) -> None:
     output = ""
     node: VSSNode
@@ -60,7 +65,7 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += "{"
             output += f'\tname: "{node.get_fqn()}"'
             output += f',\n\ttype: "{data.type.value}"'
-            output += f',\n\tdescription: "{data.description}"'
+            output += f',\n\tdescription: {franca_string(data.description)}'
             datatype = getattr(data, "datatype", None)
             if datatype:
                 output += f',\n\tdatatype: "{datatype}"'
@@ -68,7 +73,7 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += f',\n\tuuid: "{node.uuid}"'
             unit = getattr(data, "unit", None)
             if unit:
-                output += f',\n\tunit: "{unit}"'
+                output += f',\n\tunit: {franca_string(unit)}'
             min = getattr(data, "min", None)
             if min is not None:
                 output += f",\n\tmin: {min}"
-- 
2.43.0


From 0ce54aec0dd157c5d20c5db2a51d1ef7954e28ee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 33/68] fix: apigear exporter read decimal integers as
 hexadecimal

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 8984341..fed4933 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -211,7 +211,8 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
 
             for element in allowed:
                 element_str = str(element)
-                element_dec = hex_to_dec(element_str)
+                # bool is an int as well
+                element_dec = element if type(element) is int else hex_to_dec(element_str)
                 variant = get_allowed_enum_literal(element_str)
                 log.debug(f"  New variant: {variant}")
                 datatype = getattr(data, "datatype")
-- 
2.43.0


From 4cdf3295e195b15aa62bbb82fd6c93a32f844bf2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 34/68] fix: order of extended attributes in exports depended
 on the hash seed

---
 src/vss_tools/vspec/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 693da15..1a00633 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -78,8 +78,7 @@ class VSSRaw(BaseModel):
 
     def get_extra_attributes(self) -> list[str]:
         defined_fields = self.model_fields.keys()
-        additional_fields = set(self.model_dump().keys()) - set(defined_fields)
-        return list(additional_fields)
+        return [field for field in self.model_dump() if field not in defined_fields]
 
     def as_dict(
         self,
-- 
2.43.0


From 0540b04eaac19a787ab910cbe75b480d3c9ab9cf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 35/68] fix: ddsidl exporter did not recognise IDL keywords
 with capitals

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index ddf255a..7e36e7f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -83,7 +83,7 @@ idl_keywords = [
     "enum",
     "eventtype",
     "factory",
-    "FALSE",
+    "false",
     "finder",
     "fixed",
     "float",
@@ -101,7 +101,7 @@ idl_keywords = [
     "module",
     "multiple",
     "native",
-    "Object",
+    "object",
     "octet",
     "oneway",
     "out",
@@ -121,7 +121,7 @@ idl_keywords = [
     "struct",
     "supports",
     "switch",
-    "TRUE",
+    "true",
     "truncatable",
     "typedef",
     "typeid",
@@ -130,7 +130,7 @@ idl_keywords = [
     "unsigned",
     "union",
     "uses",
-    "ValueBase",
+    "valuebase",
     "valuetype",
     "void",
     "wchar",
-- 
2.43.0


From fc0565a0ec790164659eef3fc8e9d636b94063c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 36/68] fix: apigear exporter dropped the directories of layer
 paths

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index fed4933..f19dcc0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -381,16 +381,16 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
     for solution in layers:
         match solution:
             case SolutionLayers.UNREAL:
-                unreal["output"] = layers[solution].name
+                unreal["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(unreal)
             case SolutionLayers.CPP:
-                cpp14["output"] = layers[solution].name
+                cpp14["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(cpp14)
             case SolutionLayers.QT5:
-                qt5["output"] = layers[solution].name
+                qt5["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(qt5)
             case SolutionLayers.QT6:
-                qt6["output"] = layers[solution].name
+                qt6["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(qt6)
 
     solution_filename = f"{module_name}.solution.yaml"
-- 
2.43.0


From d49e9c8ff546b67e28f366c7258e50cd7fdb855f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:48:15 +0000
Subject: [PATCH 37/68] fix: go exporter replaced every occurrence of an
 instance path in struct names

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..1861c20 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -70,7 +70,7 @@ def add_children_map_entries(root: VSSNode, fqn: str, replace: str, map: dict[st
     child: VSSNode
     for child in root.children:
         child_fqn = child.get_fqn()
-        new_name = child_fqn.replace(fqn, replace)
+        new_name = replace + child_fqn[len(fqn) :]
         map[child_fqn] = new_name
         add_children_map_entries(child, fqn, replace, map)
 
-- 
2.43.0


From 2551c1c0b2c238b3a6f60c4b6ce2aabd1714469f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 38/68] fix: go exporter let instances with different members
 share one struct

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 25 +++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 1861c20..6d88803 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -13,7 +13,7 @@ import re
 from pathlib import Path
 
 import rich_click as click
-from anytree import PreOrderIter
+from anytree import PostOrderIter, PreOrderIter
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
@@ -92,6 +92,7 @@ def get_instance_mapping(root: VSSNode | None) -> dict[str, str]:
                 fqn = node.get_fqn()
                 instance_map[fqn] = new_name
                 add_children_map_entries(node, fqn, instance_root.get_fqn(), instance_map)
+    drop_ambiguous_entries(root, instance_map)
     return instance_map
 
 
@@ -147,6 +148,28 @@ def get_struct_name(fqn: str, map: dict[str, str]) -> str:
         return fqn
 
 
+def drop_ambiguous_entries(root: VSSNode, map: dict[str, str]) -> None:
+    """
+    Nodes can only share a struct if they have the same members, others keep their own name.
+    """
+    layouts: dict[str, tuple] = {}
+    for node in PostOrderIter(root):
+        if isinstance(node.data, VSSDataBranch):
+            layouts[node.get_fqn()] = tuple((c.name, get_datatype(c) or layouts[c.get_fqn()]) for c in node.children)
+    while True:
+        shared: dict[str, tuple[str, tuple]] = {}
+        ambiguous: set[str] = set()
+        for fqn, layout in layouts.items():
+            name = get_struct_name(fqn, map)
+            if shared.setdefault(name.replace(".", ""), (name, layout)) != (name, layout):
+                ambiguous.add(name.replace(".", ""))
+        dropped = [fqn for fqn, name in map.items() if name.replace(".", "") in ambiguous]
+        if not dropped:
+            return
+        for fqn in dropped:
+            del map[fqn]
+
+
 def get_go_structs(root: VSSNode | None, map: dict[str, str], type_tree: bool = False) -> dict[str, GoStruct]:
     structs: dict[str, GoStruct] = {}
     if root is None:
-- 
2.43.0


From 04d7ed8259feb370338bc01efb964d7e646859df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 39/68] fix: go exporter wrote duplicate type names when names
 are equal without dots

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 6d88803..e59805f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -10,6 +10,7 @@
 from __future__ import annotations
 
 import re
+import sys
 from pathlib import Path
 
 import rich_click as click
@@ -221,15 +222,13 @@ def get_prefix_strip_conflicts(prefix: str, structs: dict[str, GoStruct]) -> int
     for struct in structs.values():
         split = struct.name.split(".")
         sp = split[0]
-        if len(split) == 1:
-            structs_new.append(struct.name)
+        new_name = ".".join(split[1:])
+        if len(split) == 1 or sp != prefix or is_only_instance(new_name):
+            new_name = struct.name
         else:
-            if sp != prefix:
-                structs_new.append(struct.name)
-            else:
-                log.debug(f"Stripping, {prefix=}, {struct.name=}")
-                structs_new.append(".".join(split[1:]))
-                log.debug(f"New name: {structs_new[-1]}")
+            log.debug(f"Stripping, {prefix=}, {struct.name=}")
+            log.debug(f"New name: {new_name}")
+        structs_new.append(new_name.replace(".", ""))
 
     return len(structs_new) - len(set(structs_new))
 
@@ -343,6 +342,12 @@ def cli(
             else:
                 rounds += 1
 
+    names = [struct.name.replace(".", "") for struct in structs.values()]
+    duplicates = sorted({name for name in names if names.count(name) > 1})
+    if duplicates:
+        log.error(f"Several branches or structs would get the Go type name(s) {duplicates}")
+        sys.exit(1)
+
     with open(output, "w") as f:
         f.write(f"package {package}\n\n")
         for struct in structs.values():
-- 
2.43.0


From 897430b28c259bf2722aa5a09afe7494e3020dd3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 40/68] fix: binary exporter counted characters instead of
 bytes

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9cf5917..93a7b68 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -47,8 +47,9 @@ def allowedString(allowedList):
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    length = len(allowed.encode())
+    hexDigit1 = length // 16
+    hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -62,7 +63,8 @@ def intToHexChar(hexInt):
 # Create a struct containing the length of the string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    data = s.encode()
+    pack = struct.pack(f"{len(data)+1}p", data)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
@@ -70,7 +72,8 @@ def create_l8v_string(s: str) -> bytes:
 # Create a struct containing the length of the string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    data = s.encode()
+    pack = struct.pack(f"=H{len(data)}s", len(data), data)
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
-- 
2.43.0


From 86b56c7d2120bb1882dbdf79a3a1eeb37cb9fe0b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 41/68] fix: binary exporter wrote unreadable files for values
 that do not fit the format

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 93a7b68..517abeb 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -38,7 +38,13 @@ from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.tree import VSSNode
 
 
+class TooLongException(Exception):
+    """A value does not fit into the binary format"""
+
+
 def allowedString(allowedList):
+    if len(allowedList) > 255:
+        raise TooLongException(f"More than 255 allowed values: {allowedList}")
     allowedStr = ""
     for elem in allowedList:
         text = str(elem)
@@ -48,6 +54,8 @@ def allowedString(allowedList):
 
 def hexAllowedLen(allowed):
     length = len(allowed.encode())
+    if length > 255:
+        raise TooLongException(f"Allowed value is longer than 255 bytes: '{allowed}'")
     hexDigit1 = length // 16
     hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
@@ -64,6 +72,8 @@ def intToHexChar(hexInt):
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
     data = s.encode()
+    if len(data) > 255:
+        raise TooLongException(f"Text is longer than 255 bytes: '{s}'")
     pack = struct.pack(f"{len(data)+1}p", data)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
-- 
2.43.0


From 59fe1c7a560242bc9eadf8b46be557bad595d82f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 42/68] fix: C binary parser left absent fields of a node
 uninitialised

---
 binary/c_parser/cparserlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 73617f3..42471cd 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -522,7 +522,7 @@ void writeNode(struct node_t* node) {
 }
 
 struct node_t* traverseAndReadNode(struct node_t* parentNode) {
-	node_t* thisNode = (node_t*) malloc(sizeof(node_t));
+	node_t* thisNode = (node_t*) calloc(1, sizeof(node_t));
 	updateReadMetadata(true);
 	populateNode(thisNode);
 
-- 
2.43.0


From e63771e764df5e364bed7cfe5b02185cd1923aca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 43/68] fix: C binary parser overflowed buffers for long
 allowed or validate values

---
 binary/c_parser/cparserlib.c | 2 +-
 binary/c_parser/cparserlib.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 42471cd..6a7fb28 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -428,7 +428,7 @@ void populateNode(node_t* thisNode) {
 	uint8_t validateLen;
 	ret = fread(&validateLen, sizeof(uint8_t), 1, treeFp);
 	if (validateLen > 0) {
-		char validate[50];
+		char validate[255+1];
 		ret = fread(validate, sizeof(char)*validateLen, 1, treeFp);
 		validate[validateLen] = '\0';
 		thisNode->validate = validateToUint8(validate);
diff --git a/binary/c_parser/cparserlib.h b/binary/c_parser/cparserlib.h
index 782d02c..a512cbb 100644
--- a/binary/c_parser/cparserlib.h
+++ b/binary/c_parser/cparserlib.h
@@ -12,7 +12,7 @@
 #define UNKNOWN 0
 typedef enum {SENSOR=1, ACTUATOR, ATTRIBUTE, BRANCH, STRUCT, PROPERTY } nodeTypes_t;
 
-#define MAXALLOWEDELEMENTLEN 64
+#define MAXALLOWEDELEMENTLEN 256  // 255 bytes and the terminating null
 typedef char allowed_t[MAXALLOWEDELEMENTLEN];
 
 typedef struct node_t {
-- 
2.43.0


From 21305bfacdb076b2242f3c88f065c58173b085a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 44/68] fix: C binary parser wrote uninitialised data as
 validate value

---
 binary/c_parser/cparserlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 6a7fb28..a72b3c2 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -139,6 +139,7 @@ uint8_t validateToUint8(char* validate) {
 }
 
 void validateToString(uint8_t validate, char *validation) {
+    validation[0] = 0;
     if (validate%10 == 1) {
         strcpy(validation, "write-only");
     } else if (validate%10 == 2) {
-- 
2.43.0


From 7f1f9fd48f9a529092561652d1e28bb07d02670e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 45/68] fix: binary parsers wrote the leaf node list into the
 UUID list after one had been created

---
 binary/c_parser/cparserlib.c         | 2 ++
 binary/go_parser/parserlib/parser.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index a72b3c2..dc07613 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -655,6 +655,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetLeafNodeList = true;
+	isGetUuidList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafpaths\":[", 14, 1, listFp);
@@ -670,6 +671,7 @@ int VSSGetUuidList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetUuidList = true;
+	isGetLeafNodeList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafuuids\":[", 14, 1, listFp);
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 066f55e..e2d74cd 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -574,6 +574,7 @@ func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDe
 func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
+    isGetUuidList = false
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
     if (err != nil) {
@@ -592,6 +593,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
 func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetUuidList = true
+    isGetLeafNodeList = false
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
     if (err != nil) {
-- 
2.43.0


From f277703bada88534a74b774e40a8f196888e54df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 46/68] fix: C binary parser wrote an UUID list that is not
 JSON

---
 binary/c_parser/cparserlib.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index dc07613..e423320 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -253,14 +253,13 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			    fwrite("\"", 1, 1, context->listFp);
 			} else {
 			    if (context->numOfMatches == 0) {
-				    fwrite("{\"", 2, 1, context->listFp);
+				    fwrite("{\"path\":\"", 9, 1, context->listFp);
 			    } else {
-				    fwrite(", {\"", 4, 1, context->listFp);
+				    fwrite(", {\"path\":\"", 11, 1, context->listFp);
 			    }
 			    fwrite(context->matchPath, strlen(context->matchPath), 1, context->listFp);
-			    fwrite("\", \"", 4, 1, context->listFp);
-			    char uuid[32+1];
-			    strcpy(uuid, VSSgetUUID(thisNode));
+			    fwrite("\", \"uuid\":\"", 11, 1, context->listFp);
+			    char* uuid = VSSgetUUID(thisNode);
 			    fwrite(uuid, strlen(uuid), 1, context->listFp);
 			    fwrite("\"}", 2, 1, context->listFp);
 			}
-- 
2.43.0


From 137d59a13c32d34cf1de63cd5435893f768b6ea9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 47/68] fix: Go binary parser dropped the access part of
 validate values with consent

---
 binary/go_parser/datamodel/datamodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index a7e9f00..eb2ae05 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -113,7 +113,7 @@ func ValidateToString(validate uint8) string {
         validation = "read-write"
     }
     if (validate/10 == 1) {
-        validation = "+consent"
+        validation += "+consent"
     }
     return validation
 }
-- 
2.43.0


From d07326a036d1cfef31f3751377c98b70578389c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 48/68] fix: Go binary parser did not know property nodes

---
 binary/go_parser/datamodel/datamodel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index eb2ae05..ffd2a22 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -60,7 +60,7 @@ func StringToNodetype(nodeType string) uint8 {
     if (nodeType == "struct") {
         return STRUCT
     }
-    if (nodeType == "propery") {
+    if (nodeType == "property") {
         return PROPERTY
     }
     fmt.Printf("Unknown type! |%s|\n", nodeType);
@@ -97,7 +97,7 @@ func NodetypeToString(nodeType NodeTypes_t) string {
         return "struct"
     }
     if (nodeType == PROPERTY) {
-        return "propery"
+        return "property"
     }
     fmt.Printf("Unknown type! |%d|\n", nodeType);
     return ""
-- 
2.43.0


From 6b140543341f620414032d60813cecf00a6a562b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 49/68] fix: Go binary parser left the rest of longer files
 when overwriting them

---
 binary/go_parser/parserlib/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index e2d74cd..4bc55aa 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -576,7 +576,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     isGetLeafNodeList = true
     isGetUuidList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -595,7 +595,7 @@ func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     isGetUuidList = true
     isGetLeafNodeList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -624,7 +624,7 @@ func VSSReadTree(fname string) *def.Node_t {
 
 func VSSWriteTree(fname string, root *def.Node_t) {
     var err error
-    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", fname)
 	return
-- 
2.43.0


From f48aac0243b518f6b3869a54eabfc414e5073346 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 50/68] fix: C binary parser overflowed a buffer for long names
 in search paths

---
 binary/c_parser/cparserlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index e423320..918cd5d 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -171,7 +171,7 @@ void incDepth(long thisNode, SearchContext_t* context) {
 	context->currentDepth++;
 }
 
-char getPathSegmentBuf[100];  // modified by getPathSegment() only
+char getPathSegmentBuf[255+1];  // modified by getPathSegment() only
 char* getPathSegment(int offset, SearchContext_t* context) {
 	char* frontDelimiter = &(context->searchPath[0]);
 	char* endDelimiter;
-- 
2.43.0


From 93d8c2654bc163a7f7b8f78e6c8c4f75b4899b12 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 51/68] fix: Go binary parser repeated the last name of search
 paths

---
 binary/go_parser/parserlib/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 4bc55aa..9eb8ee5 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -277,8 +277,9 @@ func popPathSegment(context *SearchContext_t) {
 func getPathSegment(offset int, context *SearchContext_t) string {
 	frontDelimiter := 0
 	for i := 1 ; i < context.CurrentDepth + offset ; i++ {
-		frontDelimiter += strings.Index(context.SearchPath[frontDelimiter+1:], ".") + 1
-		if (frontDelimiter == -1) {
+		next := strings.Index(context.SearchPath[frontDelimiter+1:], ".")
+		frontDelimiter += next + 1
+		if (next == -1) {
 			if (context.SearchPath[len(context.SearchPath)-1] == '*' && context.CurrentDepth < context.MaxDepth) {
 				return "*"
 			} else {
-- 
2.43.0


From 3ab3bc551d2faf7264aced0d7981fb89a7502969 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 52/68] fix: binary parsers wrote matches behind the end of the
 result

---
 binary/c_parser/cparserlib.c         | 3 ++-
 binary/go_parser/parserlib/parser.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 918cd5d..c55eb7f 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -238,7 +238,8 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 		context->speculationIndex++;
 	}
 	context->maxValidation = getMaxValidation(VSSgetValidation(thisNode), context->maxValidation);
-	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false) {
+	bool isFull = isGetLeafNodeList == false && isGetUuidList == false && context->numOfMatches >= context->maxFound;
+	if (isFull == false && (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false)) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
 			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 9eb8ee5..27b535c 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -196,7 +196,8 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 		context.SpeculationIndex++
 	}
 	context.MaxValidation = getMaxValidation(VSSgetValidation(thisNode), context.MaxValidation)
-	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false) {
+	isFull := isGetLeafNodeList == false && isGetUuidList == false && context.NumOfMatches >= context.MaxFound
+	if (isFull == false && (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false)) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
 			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
-- 
2.43.0


From e6870167e7d47d975cb919a3e77270eb20ae3fb7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 53/68] fix: binary parsers removed found nodes when a later
 wildcard match failed

---
 binary/c_parser/cparserlib.c         | 29 ++++++++-------------------
 binary/go_parser/parserlib/parser.go | 30 ++++++++--------------------
 2 files changed, 16 insertions(+), 43 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index c55eb7f..4637b8d 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -41,7 +41,6 @@ typedef struct SearchContext_t {
 	path_t matchPath;
 	int currentDepth;  // depth in tree from rootNode, and also depth (in segments) in searchPath
 	int speculationIndex;  // inc/dec when pathsegment in focus is wildcard
-	int speculativeMatches[20];  // inc when matching node is saved
 	int maxValidation;
 	int numOfMatches;
 	searchData_t* searchData;
@@ -266,9 +265,6 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			}
 		}
 		context->numOfMatches++;
-		if (context->speculationIndex >= 0) {
-			context->speculativeMatches[context->speculationIndex]++;
-		}
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context->currentDepth == context->maxDepth || isEndOfScope(context) == true) {
 		*done = true;
@@ -281,16 +277,7 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 	return 0;
 }
 
-/**
- * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
- **/
-void decDepth(int speculationSucceded, SearchContext_t* context) {
-	if (context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context->numOfMatches--;
-			context->speculativeMatches[context->speculationIndex]--;
-		}
-	}
+void decDepth(SearchContext_t* context) {
 	if (strcmp(getPathSegment(0, context), "*") == 0) {
 		context->speculationIndex--;
 	}
@@ -547,6 +534,8 @@ void traverseAndWriteNode(struct node_t* node) {
 
 int traverseNode(long thisNode, SearchContext_t* context) {
 	int speculationSucceded = 0;
+	int numOfMatches = context->numOfMatches;
+	int maxValidation = context->maxValidation;
 
 	incDepth(thisNode, context);
 	if (compareNodeName(VSSgetName(thisNode), getPathSegment(0, context)) == true) {
@@ -561,8 +550,12 @@ int traverseNode(long thisNode, SearchContext_t* context) {
 				}
 			}
 		}
+		if (speculationSucceded == 0 && context->speculationIndex >= 0) {  // reverse speculative wildcard matches that have failed
+			context->numOfMatches = numOfMatches;
+			context->maxValidation = maxValidation;
+		}
 	}
-	decDepth(speculationSucceded, context);
+	decDepth(context);
 	return speculationSucceded;
 }
 
@@ -590,9 +583,6 @@ void initContext(SearchContext_t* context, char* searchPath, long rootNode, int
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
 	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 //used for VSSGetLeafNodeList
@@ -618,9 +608,6 @@ void initContext_LNL(SearchContext_t* context, char* searchPath, long rootNode,
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
 	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 long VSSReadTree(char* filePath) {
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 27b535c..b521f43 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -44,7 +44,6 @@ type SearchContext_t struct {
 	MatchPath string
 	CurrentDepth int  // depth in tree from rootNode, and also depth (in segments) in searchPath
 	SpeculationIndex int  // inc/dec when pathsegment in focus is wildcard
-	SpeculativeMatches [20]int  // inc when matching node is saved
 	MaxValidation int
 	NumOfMatches int
 	SearchData []SearchData_t
@@ -171,6 +170,8 @@ func traverseAndWriteNode(node *def.Node_t) {
 
 func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
 	speculationSucceded := 0
+	numOfMatches := context.NumOfMatches
+	maxValidation := context.MaxValidation
 
 	incDepth(thisNode, context)
 //	fmt.Printf("before compareNodeName():VSSnodename=%s, pathnodename=%s\n", VSSgetName(thisNode), getPathSegment(0, context))
@@ -186,8 +187,12 @@ func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
 				}
 			}
 		}
+		if (speculationSucceded == 0 && context.SpeculationIndex >= 0) {  // reverse speculative wildcard matches that have failed
+			context.NumOfMatches = numOfMatches
+			context.MaxValidation = maxValidation
+		}
 	}
-	decDepth(speculationSucceded, context)
+	decDepth(context)
 	return speculationSucceded
 }
 
@@ -224,9 +229,6 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 			}
 		}
 		context.NumOfMatches++
-		if (context.SpeculationIndex >= 0) {
-			context.SpeculativeMatches[context.SpeculationIndex]++
-		}
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context.CurrentDepth == context.MaxDepth  || isEndOfScope(context) == true) {
 		*done = true
@@ -303,17 +305,7 @@ func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
 	context.CurrentDepth++
 }
 
-/**
- * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
- **/
-func decDepth(speculationSucceded int, context *SearchContext_t) {
-	//fmt.Printf("decDepth():speculationSucceded=%d\n", speculationSucceded)
-	if (context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context.NumOfMatches--
-			context.SpeculativeMatches[context.SpeculationIndex]--
-		}
-	}
+func decDepth(context *SearchContext_t) {
 	if (getPathSegment(0, context) == "*") {
 		context.SpeculationIndex--
 	}
@@ -527,9 +519,6 @@ func initContext(context *SearchContext_t, searchPath string, rootNode *def.Node
 	context.MatchPath = ""
 	context.NumOfMatches = 0
 	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.Node_t, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string) {
@@ -554,9 +543,6 @@ func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.
 	context.MatchPath = ""
 	context.NumOfMatches = 0
 	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string, validation *int) ([]SearchData_t, int) {
-- 
2.43.0


From bff3bab5f102bf256f2671269f847b1de7519545 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 54/68] fix: binary parsers did not find branches that match a
 path with wildcards

---
 binary/c_parser/cparserlib.c         | 2 +-
 binary/go_parser/parserlib/parser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 4637b8d..336fc37 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -271,7 +271,7 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 	} else {
 		*done = false;
 	}
-	if (context->speculationIndex >= 0 && ((VSSgetNumOfChildren(thisNode) == 0 && context->currentDepth >= countSegments(context->searchPath)) || context->currentDepth == context->maxDepth)) {
+	if (context->speculationIndex >= 0 && (context->currentDepth >= countSegments(context->searchPath) || context->currentDepth == context->maxDepth)) {
 		return 1;
 	}
 	return 0;
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index b521f43..ac4978c 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -235,7 +235,7 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 	} else {
 		*done = false
 	}
-	if (context.SpeculationIndex >= 0 && ((VSSgetNumOfChildren(thisNode) == 0 && context.CurrentDepth >= countSegments(context.SearchPath)) || context.CurrentDepth == context.MaxDepth)) {
+	if (context.SpeculationIndex >= 0 && (context.CurrentDepth >= countSegments(context.SearchPath) || context.CurrentDepth == context.MaxDepth)) {
 		return 1
 	}
 	return 0
-- 
2.43.0


From 28b4d03c1d748441a1c590218a26111d3460d2d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 55/68] fix: ddsidl exporter wrote forward declarations that do
 not declare the struct

They were not escaped like the struct, were written into the module of the user
instead of the one of the struct, and only for types below 'Types'.
---
 .../vspec/vssexporters/vss2ddsidl.py          | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 7e36e7f..1d4ebd7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -15,6 +15,7 @@ from io import StringIO
 from pathlib import Path
 
 import rich_click as click
+from anytree import PreOrderIter
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
@@ -340,9 +341,31 @@ class StructExporter(object):
     def export(self, root) -> str:
         self.str_buf = ""
         self.structs_seen = []
+        self.declare_structs_of_other_modules(root)
         self.export_data_type_node(root)
         return self.str_buf
 
+    def declare_structs_of_other_modules(self, root: VSSNode):
+        """
+        A struct used before its definition has to be declared in its own module.
+        """
+        branches = [n.get_fqn() for n in PreOrderIter(root) if isinstance(n.data, VSSDataBranch)]
+        defined = []
+        for node in PreOrderIter(root):
+            if not isinstance(node.data, VSSDataStruct):
+                continue
+            for c in node.children:
+                datatype = getattr_nn(c.data, "datatype", "").split("[", 1)[0]
+                scope, _, base_type = datatype.rpartition(".")
+                datatype_str = datatype.replace(".", "::")
+                if scope not in branches or scope == node.parent.get_fqn() or datatype_str in defined + self.structs_seen:
+                    continue
+                modules = [getAllowedName(m) for m in scope.split(".")]
+                self.str_buf += "".join(f"module {m} {{\n" for m in modules)
+                self.str_buf += f"struct {getAllowedName(base_type)};\n" + "};\n" * len(modules)
+                self.structs_seen.append(datatype_str)
+            defined.append(node.get_fqn("::"))
+
     def export_data_type_node(self, node: VSSNode):
         """
         This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
@@ -359,13 +382,13 @@ class StructExporter(object):
             fwds = []
             for c in node.children:
                 datatype = getattr_nn(c.data, "datatype", "")
-                if not datatype.startswith("Types."):
+                if "." not in datatype:
                     continue
 
                 datatype_str = datatype.replace(".", "::").split("[", 1)[0]
                 if datatype_str not in self.structs_seen:
                     base_type = datatype_str.split("::")[-1]
-                    fwds.append(base_type)
+                    fwds.append(getAllowedName(base_type))
 
             for f in sorted(set(fwds)):
                 prefix += f"struct {f};\n"
-- 
2.43.0


From ba6c9590dcb61aa609eb7e8aa5a487603ef31ae1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 56/68] fix: id exporter rejected its own earlier export as
 validation file with --strict

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 2e955ff..efddbbd 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -206,7 +206,7 @@ def cli(
             include_dirs=include_dirs,
             aborts=aborts,
             strict=strict,
-            extended_attributes=extended_attributes,
+            extended_attributes=(*extended_attributes, "staticUID"),
             uuid=uuid,
             quantities=quantities,
             units=units,
-- 
2.43.0


From 047cbb4ea7cd00c11b83ef5a321e6d66f5415da9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 57/68] fix: binary exporter wrote trees whose paths overflow
 or exceed what the libraries handle

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 517abeb..7cf10e7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -88,9 +88,18 @@ def create_l16v_string(s: str) -> bytes:
     return pack
 
 
+# What the libraries reading the format can handle
+MAX_PATH_BYTES = 511
+MAX_LEVELS = 99
+
+
 def export_node(node: VSSNode, generate_uuid, f: BinaryIO):
     data = node.get_vss_data().as_dict()
 
+    if len(node.get_fqn().encode()) > MAX_PATH_BYTES or len(node.path) > MAX_LEVELS:
+        raise TooLongException(
+            f"Full name is longer than {MAX_PATH_BYTES} bytes or has more than {MAX_LEVELS} levels: '{node.get_fqn()}'"
+        )
     f.write(create_l8v_string(node.name))
     f.write(create_l8v_string(data.get("type", "")))
     if node.uuid is None:
-- 
2.43.0


From 21f3078ff7c033618409b2459a397a46becd81bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 58/68] fix: constUID with a trailing line break was accepted

---
 src/vss_tools/vspec/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 1a00633..eb9c68d 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -118,8 +118,8 @@ class VSSData(VSSRaw):
     def check_const_uid_format(cls, v: str | None) -> str | None:
         if v is None:
             return v
-        pattern = r"^0x[0-9A-Fa-f]{8}$"
-        assert bool(re.match(pattern, v)), f"'{v}' is not a valid 'constUID'"
+        pattern = r"0x[0-9A-Fa-f]{8}"
+        assert bool(re.fullmatch(pattern, v)), f"'{v}' is not a valid 'constUID'"
         return v
 
 
-- 
2.43.0


From ca29144b907877fc41c9007056aded83417cff07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 59/68] fix: strict naming accepted names with a trailing line
 break

---
 src/vss_tools/vspec/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index ffa2b44..e2a48da 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -281,9 +281,9 @@ class VSSNode(Node):  # type: ignore[misc]
         """
         violations = []
         log.debug(f"Checking node name compliance for {self.name}")
-        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*$")
+        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*")
         for node in PreOrderIter(self):
-            match = re.match(camel_case_pattern, node.name)
+            match = re.fullmatch(camel_case_pattern, node.name)
             if not match:
                 violations.append([node.get_fqn(), "not CamelCase"])
             if isinstance(node.data, VSSDataDatatype):
-- 
2.43.0


From 7f74ca55ceaa216aef9e79d0bd0951a5597cc5cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 60/68] fix: samm: name instances of ranges and lists like the
 expanded tree does

---
 .../vss2samm/helpers/vss_helper.py            | 40 +++++--------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 63ec712..855974e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -7,14 +7,13 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import re
-from ast import literal_eval
 from typing import Any
 
 from rdflib import URIRef
 from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
-from vss_tools.vspec.tree import VSSNode
+from vss_tools.vspec.tree import VSSNode, expand_string
 
 from ..config import config as cfg
 from .data_types_and_units import DataTypes, DataUnits
@@ -297,37 +296,16 @@ def get_instances_dict_tree(vss_node_instances: list | None, node_instance_name:
 
 
 def parse_instance(instance_to_parse: str | Any) -> str | list[str] | Any:
-    parsed_instance = None
+    parsed_instance = instance_to_parse
 
-    if type(instance_to_parse) is str and instance_to_parse.__contains__("[") and instance_to_parse.endswith("]"):
-        # More likely, current instance is in the form: "Row[1,2]" or Row[1,4] or "SomeOtherName[x,y]"
-        # Example: Row[1, 2] or Row[1, 4]
-        parsed_instance = []
+    if type(instance_to_parse) is list:
+        # Entries can be in the form: "Row[1,2]" or "SomeOtherName[x,y]Suffix" as well
+        parsed_instance = [name for entry in instance_to_parse for name in expand_string(str(entry))]
 
-        # Take the name of this instance
-        instance_parts = instance_to_parse.split("[")
-        instance_name = instance_parts[0]
-        instance_entries = literal_eval("[" + instance_parts[1])
-
-        if (
-            len(instance_entries) == 2
-            and instance_entries[0] == 1
-            and sum(float(entry).is_integer() for entry in instance_entries) == 2
-        ):
-            # Here instances are set as a range, starting with 1 up to some other number
-            # EXAMPLE: Row[1,4] - i.e. rows from 1st to 4th or: Row1, Row2, Row3, Row4
-            start = instance_entries[0]
-            end = instance_entries[1]
-
-            while start <= end:
-                parsed_instance.append(f"{instance_name}{start}")
-                start += 1
-
-        else:
-            for instance_entry in instance_entries:
-                parsed_instance.append(f"{instance_name}{instance_entry}")
-    else:
-        parsed_instance = instance_to_parse  # type: ignore
+    elif type(instance_to_parse) is str and expand_string(instance_to_parse) != [instance_to_parse]:
+        # Instances are set as a range
+        # EXAMPLE: Row[1,4] - i.e. rows from 1st to 4th or: Row1, Row2, Row3, Row4
+        parsed_instance = expand_string(instance_to_parse)
 
     return parsed_instance
 
-- 
2.43.0


From da0d34edd95835824440e996c2906a34d62c9b1e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 61/68] fix: samm: use version numbers 0 and 1 of the catalogue
 too

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..2e30230 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -68,7 +68,7 @@ def __get_version_vss(vss_tree: VSSNode) -> str:
                     v_child.name in ["Major", "Minor", "Patch"]
                     and hasattr(v_child.data, "default")
                     and type(v_child.data.default) is int
-                    and v_child.data.default > 1
+                    and v_child.data.default >= 0
                 ):
                     match v_child.name:
                         case "Major":
-- 
2.43.0


From 048d82078251d56ee6c3c43a56d1a8d579d0679a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 62/68] fix: samm: a branch without children is no signal

---
 src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 7d1791d..dfa7f9d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -114,7 +114,7 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
 
         handle_branch_node(path_to_ttl, graph, vss_node, split_vss, node_uri, node_char_uri)
 
-    if vss_node.is_leaf:
+    elif vss_node.is_leaf:
         ttl_builder.add_node_leaf(graph, node_uri, vss_node)
 
     return node_uri
-- 
2.43.0


From c3e8d71afb3b88c460e196f1a88c4625e18eb705 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 63/68] fix: samm: keep default values that are zero, false or
 empty

---
 .../vssexporters/vss2samm/helpers/ttl_builder_helper.py     | 6 +++---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..dab0f03 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -197,7 +197,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default:  # type: ignore
+                if vss_node.data.default is not None:  # type: ignore
                     __add_node_tuple(
                         graph,
                         node_char_uri,
@@ -245,7 +245,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
 
                     rdf_type = SammConcepts.CHARACTERISTIC
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     __add_node_tuple(
                         graph,
                         node_uri,
@@ -257,7 +257,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle CHARACTERISTIC type nodes
                 log.debug(" -- set regular node values")
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     if (
                         hasattr(vss_node.data, "unit")
                         and vss_node.data.unit
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 855974e..1f4de58 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -408,7 +408,7 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if not vss_node.data.default else SammCConcepts.STATE  # type: ignore
+        return SammCConcepts.ENUM if vss_node.data.default is None else SammCConcepts.STATE  # type: ignore
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0


From 0e92e28de584bd5f6b6d67644cc6738aa68afb62 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 64/68] fix: samm: export allowed values that are no strings

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index dab0f03..2535691 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -477,7 +477,7 @@ def get_enum_values(collection_to_process: list[str] | str):
         if type(value) is str:
             enum_values += '"' + value + '" '
         else:
-            enum_values += value + " "
+            enum_values += (str(value).lower() if type(value) is bool else str(value)) + " "
 
     return Literal(f"( {enum_values.strip()} )")
 
-- 
2.43.0


From a52af5ac8cfe195cfb13bd85c7fb995e88572f14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 65/68] fix: samm: match paths of selected signals name by name

---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 1f4de58..2349661 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -172,8 +172,9 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
     #           Vehicle.Cabin.Door.Window.Position
 
     for selected_signal_path in selected_signals_paths:
-        node_is_selected = selected_signal_path.startswith(vss_node_path) or vss_node_path.startswith(
-            selected_signal_path
+        # Only whole names match
+        node_is_selected = f"{selected_signal_path}.".startswith(f"{vss_node_path}.") or f"{vss_node_path}.".startswith(
+            f"{selected_signal_path}."
         )
 
         if node_is_selected:
-- 
2.43.0


From f2862a5e16cafd0a13b68d8a5b61b9dad0eb1d13 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 66/68] fix: samm: a list of values is no default of an
 enumeration

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py | 2 +-
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 2535691..78062f3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -197,7 +197,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default is not None:  # type: ignore
+                if rdf_type is SammCConcepts.STATE:
                     __add_node_tuple(
                         graph,
                         node_char_uri,
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 2349661..eab3c75 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -409,7 +409,9 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if vss_node.data.default is None else SammCConcepts.STATE  # type: ignore
+        #       A list of values is no such value
+        default = vss_node.data.default  # type: ignore
+        return SammCConcepts.ENUM if default is None or type(default) is list else SammCConcepts.STATE
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0


From 9fdf1cab67ab03ca40af5026054ca0fce39103bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 67/68] fix: samm: a blank deprecation does not make an aspect
 deprecated

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_helper.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index dfa7f9d..f2dc075 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -36,7 +36,9 @@ def parse_vss_tree(path_to_ttl: Path, vss_node: VSSNode, split_vss: bool):
     # Skip parsing of VSSNode is branches, which have only deprecated children
     # NOTE: this is a special case for the OBD branch, which children are marked as deprecated from VSS 5.0,
     #       but the branch itself is not marked as deprecated.
-    deprecated_children = list(filter(lambda n: n.data.deprecation, vss_node.children))
+    deprecated_children = list(
+        filter(lambda n: n.data.deprecation and n.data.deprecation.strip(), vss_node.children)
+    )
 
     if len(deprecated_children) == len(vss_node.children):
         log.warning(
-- 
2.43.0


From 8dcf9fbb6bc3edd7ac1a09c9ea28f77fc203429c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 68/68] fix: protobuf exporter wrote sibling fields with one
 JSON name

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index d698139..9a86763 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -9,6 +9,7 @@
 # Convert vspec file to proto
 #
 
+import re
 import sys
 from io import StringIO
 from pathlib import Path
@@ -130,7 +131,13 @@ def write_imports(fd: TextIO, imports: list[str]):
 
 def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_optional: bool):
     usedKeys: dict[int, str] = {}
+    jsonNames: dict[str, str] = {}
     for i, node in enumerate(nodes, 1):
+        # Names without underscores are the keys in the JSON form of a message
+        other = jsonNames.setdefault(re.sub("_+(.?)", lambda m: m[1].upper(), node.name), node.get_fqn())
+        if other != node.get_fqn():
+            log.fatal(f"Aborting because {other} and {node.get_fqn()} would have the same name in JSON.")
+            sys.exit(-1)
         if isinstance(node.data, VSSDataDatatype):
             dt_val = node.data.datatype
             data_type = mapped.get(dt_val.strip("[]"), dt_val.strip("[]"))
-- 
2.43.0

