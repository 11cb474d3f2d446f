From 67f219074f6182f7c41ad8230daa52bbf0ae4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 01/31] fix: read and write text as UTF-8 regardless of the
 locale

---
 src/vss_tools/vspec/units_quantities.py                     | 2 +-
 src/vss_tools/vspec/vspec.py                                | 2 +-
 src/vss_tools/vspec/vssexporters/vss2apigear.py             | 2 +-
 src/vss_tools/vspec/vssexporters/vss2csv.py                 | 2 +-
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py              | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2franca.py              | 2 +-
 src/vss_tools/vspec/vssexporters/vss2go.py                  | 2 +-
 src/vss_tools/vspec/vssexporters/vss2graphql.py             | 2 +-
 src/vss_tools/vspec/vssexporters/vss2id.py                  | 2 +-
 src/vss_tools/vspec/vssexporters/vss2json.py                | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2protobuf.py            | 6 +++---
 .../vspec/vssexporters/vss2samm/helpers/file_helper.py      | 2 +-
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py       | 2 +-
 src/vss_tools/vspec/vssexporters/vss2tree.py                | 2 +-
 src/vss_tools/vspec/vssexporters/vss2yaml.py                | 2 +-
 15 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/vss_tools/vspec/units_quantities.py b/src/vss_tools/vspec/units_quantities.py
index 9f707ec..418db88 100644
--- a/src/vss_tools/vspec/units_quantities.py
+++ b/src/vss_tools/vspec/units_quantities.py
@@ -27,7 +27,7 @@ def load_units_or_quantities(
 ) -> dict[str, VSSUnit | VSSQuantity]:
     data = {}
     for file in files:
-        content = yaml.safe_load(file.read_text())
+        content = yaml.safe_load(file.read_text(encoding="utf-8"))
         if not content:
             log.warning(f"{file}, empty")
             continue
diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index a36ef8c..dcff450 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -74,7 +74,7 @@ class VSpec:
         self.source = source
         self.prefix = prefix
 
-        content = source.read_text()
+        content = source.read_text(encoding="utf-8")
 
         self.data = yaml.safe_load(content)
         if self.data is None:
diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index df72495..721a4ec 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -398,7 +398,7 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
 
 
 def export_yaml(file_name, content_dict):
-    with open(file_name, "w") as f:
+    with open(file_name, "w", encoding="utf-8") as f:
         yaml.dump(
             content_dict,
             f,
diff --git a/src/vss_tools/vspec/vssexporters/vss2csv.py b/src/vss_tools/vspec/vssexporters/vss2csv.py
index 1b916e8..f7cdb67 100644
--- a/src/vss_tools/vspec/vssexporters/vss2csv.py
+++ b/src/vss_tools/vspec/vssexporters/vss2csv.py
@@ -68,7 +68,7 @@ def add_rows(rows: list[list[Any]], root: VSSNode, with_uuid: bool, with_instanc
 
 
 def write_csv(rows: list[list[Any]], output: Path):
-    with open(output, "w", newline="") as f:
+    with open(output, "w", newline="", encoding="utf-8") as f:
         writer = csv.writer(f)
         writer.writerows(rows)
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..f189920 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -431,10 +431,10 @@ def cli(
 
     if datatype_tree is not None:
         exporter = StructExporter()
-        with open(output, "w") as idl_out:
+        with open(output, "w", encoding="utf-8") as idl_out:
             idl_out.write(exporter.export(datatype_tree))
 
-    with open(output, "a" if datatype_tree is not None else "w") as idl_out:
+    with open(output, "a" if datatype_tree is not None else "w", encoding="utf-8") as idl_out:
         export_idl(
             idl_out,
             tree,
diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index c1192df..3a25b6e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -122,7 +122,7 @@ def cli(
         units=units,
         overlays=overlays,
     )
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         print_franca_header(f, franca_vss_version)
         print_franca_content(f, tree, uuid)
         f.write("\n]")
diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..5aa153c 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -320,7 +320,7 @@ def cli(
             else:
                 rounds += 1
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         f.write(f"package {package}\n\n")
         for struct in structs.values():
             f.write(str(struct))
diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..4e6f5f3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -176,7 +176,7 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating graphql output...")
-    outfile = open(output, "w")
+    outfile = open(output, "w", encoding="utf-8")
     gqlfields: list[list[str]] = []
     for field in gql_fields:
         gqlfields.append(field.split(","))
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..b55458b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -216,5 +216,5 @@ def cli(
         vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
 
     if not validate_only:
-        with open(output, "w") as f:
+        with open(output, "w", encoding="utf-8") as f:
             yaml.dump(signals_yaml_dict, f)
diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..133b117 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -93,8 +93,8 @@ def cli(
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
         else:
-            with open(types_output, "w") as f:
+            with open(types_output, "w", encoding="utf-8") as f:
                 json.dump(types_data, f, indent=indent, sort_keys=True)
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         json.dump(signals_data, f, indent=indent, sort_keys=True)
diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..7ab0959 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -39,7 +39,7 @@ mapped = {
 
 
 def init_package_file(path: Path, package_name: str):
-    with open(path, "w") as f:
+    with open(path, "w", encoding="utf-8") as f:
         log.info(f"Initializing {path}, package {package_name}")
         f.write('syntax = "proto3";\n\n')
         f.write(f"package {package_name};\n\n")
@@ -74,7 +74,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
         if not out_file.exists():
             init_package_file(out_file, ".".join(struct_path.parent.parts))
 
-        with open(out_file, "a") as fd:
+        with open(out_file, "a", encoding="utf-8") as fd:
             imports = []
             for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
                 datatype = c_node.data.datatype
@@ -222,6 +222,6 @@ def cli(
             log.warning(f"No output directory given. Writing to: {types_out_dir.absolute()}")
         traverse_data_type_tree(datatype_tree, static_uid, add_optional, types_out_dir)
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         log.info(f"Writing to: {output}")
         traverse_signal_tree(tree, f, static_uid, add_optional)
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 53daa48..41be9ae 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -47,7 +47,7 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
 
     # Create and write data to ttl file
     output_file: Path = output_folder / f"{file_name}.ttl"
-    file_writer = output_file.open("w")
+    file_writer = output_file.open("w", encoding="utf-8")
     file_writer.write(filedata)
 
     # Add new line and close the file
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..6efb676 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -205,7 +205,7 @@ def cli(
     if signals_file:
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
-        with open(signals_file, "r") as f:
+        with open(signals_file, "r", encoding="utf-8") as f:
             included_signals_input = f.read().splitlines()
 
     else:
diff --git a/src/vss_tools/vspec/vssexporters/vss2tree.py b/src/vss_tools/vspec/vssexporters/vss2tree.py
index 02ceb3f..066c3d7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2tree.py
+++ b/src/vss_tools/vspec/vssexporters/vss2tree.py
@@ -84,7 +84,7 @@ def cli(
 
     if output:
         log.info(f"Writing tree to: {output.absolute()}")
-        with open(output, "w") as f:
+        with open(output, "w", encoding="utf-8") as f:
             f.write(rendered_tree)
     else:
         log.info(rendered_tree)
diff --git a/src/vss_tools/vspec/vssexporters/vss2yaml.py b/src/vss_tools/vspec/vssexporters/vss2yaml.py
index 608cdb4..758d0cb 100644
--- a/src/vss_tools/vspec/vssexporters/vss2yaml.py
+++ b/src/vss_tools/vspec/vssexporters/vss2yaml.py
@@ -22,7 +22,7 @@ from vss_tools.vspec.main import get_trees
 
 
 def export_yaml(file_name, content_dict):
-    with open(file_name, "w") as f:
+    with open(file_name, "w", encoding="utf-8") as f:
         yaml.dump(
             content_dict,
             f,
-- 
2.43.0


From 4347d19a23e989b254e17f24e24247ca794c5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 02/31] fix: report extra attributes in definition order
 instead of hash order

---
 src/vss_tools/vspec/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..c364996 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -78,8 +78,7 @@ class VSSRaw(BaseModel):
 
     def get_extra_attributes(self) -> list[str]:
         defined_fields = self.model_fields.keys()
-        additional_fields = set(self.model_dump().keys()) - set(defined_fields)
-        return list(additional_fields)
+        return [field for field in self.model_dump().keys() if field not in defined_fields]
 
     def as_dict(
         self,
-- 
2.43.0


From 9723d4d7449b88e99684d5f250c0ed042482494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 03/31] fix: resolve ambiguous short struct names independent
 of hash order

---
 src/vss_tools/vspec/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..179808f 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -238,7 +238,8 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    # Inner namespaces last: they take precedence if the short name is ambiguous
+    for t in sorted(dynamic_datatypes, key=lambda t: len(t.rpartition(".")[0])):
         # This excludes referencing the own struct as a datatype
         if fqn.startswith(t):
             continue
-- 
2.43.0


From e4d6faef3067b4aaef9764f4ad7f009d0d4b77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 04/31] fix: protobuf export replaces stale struct files and
 writes nothing before all checks passed

---
 .../vspec/vssexporters/vss2protobuf.py        | 81 +++++++++++--------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 7ab0959..5db4302 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -10,8 +10,9 @@
 #
 
 import sys
-from io import TextIOWrapper
+from io import StringIO
 from pathlib import Path
+from typing import TextIO
 
 import rich_click as click
 from anytree import findall
@@ -38,15 +39,18 @@ mapped = {
 }
 
 
-def init_package_file(path: Path, package_name: str):
-    with open(path, "w", encoding="utf-8") as f:
-        log.info(f"Initializing {path}, package {package_name}")
-        f.write('syntax = "proto3";\n\n')
-        f.write(f"package {package_name};\n\n")
+def init_package_file(f: TextIO, path: Path, package_name: str):
+    log.info(f"Initializing {path}, package {package_name}")
+    f.write('syntax = "proto3";\n\n')
+    f.write(f"package {package_name};\n\n")
 
 
-def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path):
+def traverse_data_type_tree(
+    tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path
+) -> dict[Path, StringIO]:
     """
+    Returns the content of the generated files by path.
+
     All structs in a branch are written to a single .proto file.
     The file's base name is same as the branch's name
     The fully qualified path of the type becomes the package.
@@ -60,6 +64,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    files: dict[Path, StringIO] = {}
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -67,32 +72,32 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C
         package_path = out_dir / struct_path.parent
-        package_path.mkdir(parents=True, exist_ok=True)
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
-            init_package_file(out_file, ".".join(struct_path.parent.parts))
-
-        with open(out_file, "a", encoding="utf-8") as fd:
-            imports = []
-            for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
-                datatype = c_node.data.datatype
-                if "." not in datatype:
-                    continue
-                c_struct_path = Path(datatype.replace(".", "/"))
-                if c_struct_path.parent != struct_path.parent:
-                    imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
-
-            write_imports(fd, imports)
-
-            fd.write(f"message {struct_path.name} {{" + "\n")
-            print_messages(node.children, fd, static_uid, add_optional)
-            fd.write("}\n\n")
-            log.info(f"Wrote {struct_path.name} to {out_file}")
+        if out_file not in files:
+            files[out_file] = StringIO()
+            init_package_file(files[out_file], out_file, ".".join(struct_path.parent.parts))
+
+        fd = files[out_file]
+        imports = []
+        for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
+            datatype = c_node.data.datatype
+            if "." not in datatype:
+                continue
+            c_struct_path = Path(datatype.replace(".", "/"))
+            if c_struct_path.parent != struct_path.parent:
+                imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+
+        write_imports(fd, imports)
+
+        fd.write(f"message {struct_path.name} {{" + "\n")
+        print_messages(node.children, fd, static_uid, add_optional)
+        fd.write("}\n\n")
+    return files
 
 
-def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_optional: bool):
     fd.write('syntax = "proto3";\n\n')
 
     imports = []
@@ -111,7 +116,7 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
         fd.write("}\n\n")
 
 
-def write_imports(fd: TextIOWrapper, imports: list[str]):
+def write_imports(fd: TextIO, imports: list[str]):
     imports = list(set(imports))
     imports.sort()
     for stmt in imports:
@@ -119,7 +124,7 @@ def write_imports(fd: TextIOWrapper, imports: list[str]):
     fd.write("\n")
 
 
-def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_optional: bool):
     usedKeys: dict[int, str] = {}
     for i, node in enumerate(nodes, 1):
         if isinstance(node.data, VSSDataDatatype):
@@ -155,7 +160,6 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
                         "Consider changing the signals to alter the staticUID."
                     )
                 )
-                fd.truncate(0)
                 sys.exit(-1)
             else:
                 usedKeys[fieldNumber] = node.get_fqn()
@@ -216,12 +220,21 @@ def cli(
         types=types,
         overlays=overlays,
     )
+    # Generate everything before touching any file: generating can still fail
+    files: dict[Path, StringIO] = {}
     if datatype_tree:
         if not types_out_dir:
             types_out_dir = Path.cwd()
             log.warning(f"No output directory given. Writing to: {types_out_dir.absolute()}")
-        traverse_data_type_tree(datatype_tree, static_uid, add_optional, types_out_dir)
-
+        files = traverse_data_type_tree(datatype_tree, static_uid, add_optional, types_out_dir)
+    signals = StringIO()
+    traverse_signal_tree(tree, signals, static_uid, add_optional)
+
+    for out_file, content in files.items():
+        out_file.parent.mkdir(parents=True, exist_ok=True)
+        with open(out_file, "w", encoding="utf-8") as f:
+            f.write(content.getvalue())
+        log.info(f"Wrote {out_file}")
     with open(output, "w", encoding="utf-8") as f:
         log.info(f"Writing to: {output}")
-        traverse_signal_tree(tree, f, static_uid, add_optional)
+        f.write(signals.getvalue())
-- 
2.43.0


From 5108af6f3f20c62d93e35bbabfb3e059e8486331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 05/31] fix: apigear export fails if it cannot write because
 the directory exists

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 721a4ec..3671049 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -10,6 +10,7 @@
 
 
 import abc
+import sys
 import typing
 import yaml
 import rich_click as click
@@ -508,7 +509,7 @@ def cli(
     log.info("Generating ApiGear output...")
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
-        return
+        sys.exit(1)
     output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
-- 
2.43.0


From f7dca5a2313a156e4a75b9ddca18d33c4e938904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 06/31] fix: graphql export keeps the old output if the model
 or an option is rejected

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 4e6f5f3..d933b09 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -176,10 +176,11 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating graphql output...")
-    outfile = open(output, "w", encoding="utf-8")
     gqlfields: list[list[str]] = []
     for field in gql_fields:
         gqlfields.append(field.split(","))
-    outfile.write(get_schema_from_tree(tree, gqlfields))
+    schema = get_schema_from_tree(tree, gqlfields)
+    outfile = open(output, "w", encoding="utf-8")
+    outfile.write(schema)
     outfile.write("\n")
     outfile.close()
-- 
2.43.0


From 9533fa96233942e08afc53fae2ff10d19474eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 07/31] fix: ddsidl forward declarations of structs are
 exported, in a fixed order

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index f189920..c8e121f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -338,19 +338,18 @@ class StructExporter(object):
         elif isinstance(node.data, VSSDataStruct):
             # check if the properties use structs that have not been seen before
             # if not, add a forward declaration
-            fwds = []
+            fwds: list[str] = []
             for c in node.children:
                 datatype = getattr_nn(c.data, "datatype", "")
                 if not datatype.startswith("Types."):
                     continue
 
-                datatype_str = datatype(".", "::").split("[", 1)[0]
+                datatype_str = datatype.replace(".", "::").split("[", 1)[0]
                 if datatype_str not in self.structs_seen:
                     base_type = datatype_str.split("::")[-1]
                     fwds.append(base_type)
 
-            fwds.sort()
-            for f in set(fwds):
+            for f in sorted(set(fwds)):
                 prefix += f"struct {f};\n"
 
             prefix += f"struct {getAllowedName(node.name)}" + " {\n"
-- 
2.43.0


From bab51968f446da8e824a1ee380d80bc5e413fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 08/31] fix: ddsidl export keeps the old output if the model is
 rejected

---
 .../vspec/vssexporters/vss2ddsidl.py          | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index c8e121f..93f7656 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -371,15 +371,6 @@ class StructExporter(object):
         self.str_buf += suffix
 
 
-def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False):
-    """This method is used to traverse through the root VSS node to build
-    -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
-    """
-    export_node(root, generate_uuids, generate_all_idl_features)
-    file.write("\n".join(idl_file_buffer))
-    log.info("IDL file generated at location : " + file.name)
-
-
 @click.command()
 @clo.vspec_opt
 @clo.output_required_opt
@@ -428,15 +419,13 @@ def cli(
     )
     log.info("Generating DDS-IDL output...")
 
+    # Generate everything before touching the output: generating can still fail
+    structs = ""
     if datatype_tree is not None:
-        exporter = StructExporter()
-        with open(output, "w", encoding="utf-8") as idl_out:
-            idl_out.write(exporter.export(datatype_tree))
-
-    with open(output, "a" if datatype_tree is not None else "w", encoding="utf-8") as idl_out:
-        export_idl(
-            idl_out,
-            tree,
-            uuid,
-            all_idl_features,
-        )
+        structs = StructExporter().export(datatype_tree)
+    export_node(tree, uuid, all_idl_features)
+
+    with open(output, "w", encoding="utf-8") as idl_out:
+        idl_out.write(structs)
+        idl_out.write("\n".join(idl_file_buffer))
+    log.info(f"IDL file generated at location : {output}")
-- 
2.43.0


From 682a20ad825b0a656e1397ea0d50d54b1d4c7238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 09/31] fix: ddsidl export does not repeat earlier exports of
 the same process

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 93f7656..647b76a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -418,6 +418,7 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating DDS-IDL output...")
+    idl_file_buffer.clear()
 
     # Generate everything before touching the output: generating can still fail
     structs = ""
-- 
2.43.0


From 41104ac5bbd8838a51fca770329bef8e56c160f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 10/31] fix: jsonschema export keeps the old output if an
 attribute cannot be exported

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..192650e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -233,5 +233,6 @@ def cli(
         "type": "object",
         **signals_json_schema,
     }
+    content = json.dumps(json_schema, indent=indent, sort_keys=False)
     with open(output, "w", encoding="utf-8") as output_file:
-        json.dump(json_schema, output_file, indent=indent, sort_keys=False)
+        output_file.write(content)
-- 
2.43.0


From 1c2db93d049911d7afd3c94ecbd6fcb7650fcfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 11/31] fix: binary export writes lengths in bytes and rejects
 what the format cannot hold

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..21abe37 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -45,8 +45,11 @@ def allowedString(allowedList):
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    length = len(allowed.encode())
+    if length > 255:
+        raise ValueError(f"Too long for the binary format: {allowed!r}")
+    hexDigit1 = length // 16
+    hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -60,7 +63,10 @@ def intToHexChar(hexInt):
 # Create a struct containing the length of the string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    encoded = s.encode()
+    if len(encoded) > 255:
+        raise ValueError(f"Too long for the binary format: {s!r}")
+    pack = struct.pack(f"{len(encoded)+1}p", encoded)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
@@ -68,7 +74,8 @@ def create_l8v_string(s: str) -> bytes:
 # Create a struct containing the length of the string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    encoded = s.encode()
+    pack = struct.pack(f"=H{len(encoded)}s", len(encoded), encoded)
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
-- 
2.43.0


From 5872eb4f2ab63fe0d3c7bdaae1bb5fa26191054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 12/31] fix: binary export keeps the old output if the model is
 rejected

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 21abe37..41bb74a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -26,6 +26,7 @@
 # the length is 0.
 
 import struct
+from io import BytesIO
 from pathlib import Path
 from typing import BinaryIO
 
@@ -150,6 +151,8 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating binary output...")
+    content = BytesIO()
+    export_node(tree, uuid, content)
     with open(str(output), "wb") as f:
-        export_node(tree, uuid, f)
+        f.write(content.getvalue())
     log.info("Binary output generated in %s", output)
-- 
2.43.0


From 37f0a930a5e39c60e6d761ba128ea4a31b055b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 13/31] fix: units, quantities and types of earlier loaded
 models do not leak into later ones

---
 src/vss_tools/vspec/main.py                | 7 +++++++
 src/vss_tools/vspec/vssexporters/vss2id.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..5ba961a 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -194,11 +194,18 @@ def get_trees(
     types: tuple[Path, ...] = (),
     overlays: tuple[Path, ...] = (),
     expand: bool = True,
+    keep_definitions: bool = False,
 ) -> tuple[VSSNode, VSSNode | None]:
     """
     Loading vspec files, building and validating trees (types and normal).
     Returning a tuple of the root and the types tree
+    Units, quantities and types that were loaded for earlier trees
+    are only known to this one with 'keep_definitions'
     """
+    if not keep_definitions:
+        dynamic_datatypes.clear()
+        dynamic_quantities.clear()
+        dynamic_units.clear()
     if extended_attributes:
         log.info(f"User defined extra attributes: {extended_attributes}")
     try:
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index b55458b..8e05199 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -212,6 +212,7 @@ def cli(
             units=units,
             types=types,
             expand=expand,
+            keep_definitions=True,
         )
         vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
 
-- 
2.43.0


From 2f4abe2c21b974d974230eeaefe42188bdfa04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 14/31] fix: a log file gets the records of its own run only

---
 src/vss_tools/vspec/cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vss_tools/vspec/cli.py b/src/vss_tools/vspec/cli.py
index 873eb16..320d57a 100644
--- a/src/vss_tools/vspec/cli.py
+++ b/src/vss_tools/vspec/cli.py
@@ -29,6 +29,12 @@ def cli(ctx: click.Context, log_level: str, log_file: Path):
         file_handler.setFormatter(logging.Formatter("%(asctime)s:%(levelname)s:%(message)s"))
         log.addHandler(file_handler)
 
+        def close_log_file() -> None:
+            log.removeHandler(file_handler)
+            file_handler.close()
+
+        ctx.call_on_close(close_log_file)
+
     log.setLevel(log_level)
 
 
-- 
2.43.0


From 9e9dbe9e0e572640c02d703e83efb60083202e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 15/31] fix: samm export does not depend on earlier exports of
 the same process

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 6efb676..7b2a3ea 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -12,6 +12,7 @@
 
 
 import importlib
+import sys
 from pathlib import Path
 from types import ModuleType
 from typing import Optional
@@ -34,6 +35,14 @@ def __setup_environment(output_namespace, vspec_version, split_depth: int) -> No
     # Initialize config before to load other helpers / libraries, based on defined by user input, config data
     cfg.init(output_namespace, vspec_version, split_depth)
 
+    # The helpers take over config data and collect data when they get loaded.
+    # Load them again (dependencies first) if an earlier export of this process did so already.
+    helpers = "vss_tools.vspec.vssexporters.vss2samm.helpers"
+    for name in ["namespaces", "samm_concepts", "data_types_and_units", "vss_helper", "ttl_builder_helper", "ttl_helper"]:
+        module = sys.modules.get(f"{helpers}.{name}")
+        if module is not None:
+            importlib.reload(module)
+
     global VSSConcepts
     VSSConcepts = importlib.import_module("vss_tools.vspec.vssexporters.vss2samm.helpers.samm_concepts").VSSConcepts
 
-- 
2.43.0


From 26c2e1b0dca4f18b87029744f169a21f52414cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 16/31] fix: static UID validation looks up former names in the
 case mode of the generation

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 8e05199..7fb4236 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -214,7 +214,7 @@ def cli(
             expand=expand,
             keep_definitions=True,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w", encoding="utf-8") as f:
-- 
2.43.0


From 6b07faeccfa9fe1fb9f8e0d0d32331a92e53038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 17/31] fix: equal static UIDs in different notation are
 detected as duplicates

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 7fb4236..a005fb3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if node_id.lower() == value.lower():
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From d9e2b146fcb45ff1c9301bb0666edf44560b10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 18/31] fix: samm export handles allowed values that are not
 strings

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..b243376 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -477,7 +477,7 @@ def get_enum_values(collection_to_process: list[str] | str):
         if type(value) is str:
             enum_values += '"' + value + '" '
         else:
-            enum_values += value + " "
+            enum_values += f"{value} "
 
     return Literal(f"( {enum_values.strip()} )")
 
-- 
2.43.0


From 84e375338b64d6e26c51fbf089d96fbf6c0aca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 19/31] fix: samm export keeps the old output if the model is
 rejected

---
 .../vss2samm/helpers/file_helper.py           | 34 +++++++++++--------
 .../vss2samm/helpers/ttl_helper.py            |  6 ++--
 .../vspec/vssexporters/vss2samm/vss2samm.py   | 20 +++++++++--
 3 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 41be9ae..23d45a6 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -15,9 +15,13 @@ from ..config import config as cfg
 
 
 # Write RDF Graph data to specified file
-def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
+# Content of the generated files by path. Nothing is written before all of them could be generated.
+generated_files: dict[Path, str] = {}
+
+
+def add_graph_file(path_to_file: Path, file_name: str, graph: Graph):
     log.debug(
-        "Writing RDF Graph to \n  -- file: '%s' \n  -- location: '%s'\n  -- current working directory: '%s'\n",
+        "Generating RDF Graph for \n  -- file: '%s' \n  -- location: '%s'\n  -- current working directory: '%s'\n",
         file_name,
         path_to_file,
         Path.cwd(),
@@ -41,18 +45,20 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
     # Cleanup xsd:anyURI with xsd:double
     filedata = filedata.replace("xsd:anyURI", "xsd:double")
 
-    # Make sure that output_folder is created with default permissions
-    output_folder: Path = Path(path_to_file)
-    output_folder.mkdir(parents=True, exist_ok=True)
-
-    # Create and write data to ttl file
-    output_file: Path = output_folder / f"{file_name}.ttl"
-    file_writer = output_file.open("w", encoding="utf-8")
-    file_writer.write(filedata)
-
-    # Add new line and close the file
-    file_writer.write("\n")
-    file_writer.close()
+    # Data for the ttl file, with a new line at the end
+    output_file: Path = Path(path_to_file) / f"{file_name}.ttl"
+    generated_files[output_file] = filedata + "\n"
 
     # Return file location
     return output_file
+
+
+def write_graph_files():
+    for output_file, filedata in generated_files.items():
+        # Make sure that output_folder is created with default permissions
+        output_file.parent.mkdir(parents=True, exist_ok=True)
+
+        # Create and write data to ttl file
+        file_writer = output_file.open("w", encoding="utf-8")
+        file_writer.write(filedata)
+        file_writer.close()
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 7d1791d..6f60e43 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -17,7 +17,7 @@ from vss_tools.vspec.tree import VSSNode
 from ..config import config as cfg
 from . import ttl_builder_helper as ttl_builder
 from . import vss_helper as vss_helper
-from .file_helper import write_graph_to_file
+from .file_helper import add_graph_file
 from .namespaces import get_node_name_from_vspec_uri, samm_output_namespace
 from .samm_concepts import SammConcepts, VSSConcepts
 from .string_helper import str_to_uc_first_camel_case
@@ -55,9 +55,9 @@ def parse_vss_tree(path_to_ttl: Path, vss_node: VSSNode, split_vss: bool):
     node_uri = handle_vss_node(path_to_ttl, graph, vss_node, True, split_vss)
 
     if node_uri != "DEPRECATED":
-        # Print graph for current vss_node to a TTL file
+        # Add graph for current vss_node to the TTL files
         # NOTE: make sure that TTL file name will reflect this graph's Aspect model name, i.e. uc first camel case
-        vss_node_ttl_file = write_graph_to_file(path_to_ttl, str_to_uc_first_camel_case(vss_node.ttl_name), graph)
+        vss_node_ttl_file = add_graph_file(path_to_ttl, str_to_uc_first_camel_case(vss_node.ttl_name), graph)
 
         log.debug("TTL file for parsed VSS node: '%s' is:\n'%s'\n", vss_node.name, vss_node_ttl_file)
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 7b2a3ea..f2d1e16 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -29,6 +29,7 @@ from .config import config as cfg
 VSSConcepts: Optional[ModuleType] = None
 vss_helper: Optional[ModuleType] = None
 ttl_helper: Optional[ModuleType] = None
+file_helper: Optional[ModuleType] = None
 
 
 def __setup_environment(output_namespace, vspec_version, split_depth: int) -> None:
@@ -38,7 +39,15 @@ def __setup_environment(output_namespace, vspec_version, split_depth: int) -> No
     # The helpers take over config data and collect data when they get loaded.
     # Load them again (dependencies first) if an earlier export of this process did so already.
     helpers = "vss_tools.vspec.vssexporters.vss2samm.helpers"
-    for name in ["namespaces", "samm_concepts", "data_types_and_units", "vss_helper", "ttl_builder_helper", "ttl_helper"]:
+    for name in [
+        "namespaces",
+        "samm_concepts",
+        "data_types_and_units",
+        "vss_helper",
+        "ttl_builder_helper",
+        "file_helper",
+        "ttl_helper",
+    ]:
         module = sys.modules.get(f"{helpers}.{name}")
         if module is not None:
             importlib.reload(module)
@@ -52,6 +61,9 @@ def __setup_environment(output_namespace, vspec_version, split_depth: int) -> No
     global ttl_helper
     ttl_helper = importlib.import_module("vss_tools.vspec.vssexporters.vss2samm.helpers.ttl_helper")
 
+    global file_helper
+    file_helper = importlib.import_module("vss_tools.vspec.vssexporters.vss2samm.helpers.file_helper")
+
 
 # TODO: Currently this is a workaround to read the Vehicle.VersionVSS, which is provided from COVESA/VSS
 #       and provides the supported VSS version.
@@ -252,8 +264,8 @@ def cli(
 
     parsed_tree_uri = None
 
-    if vss_helper is not None and ttl_helper is not None:
-        # NOTE: below used parse_vss_tree function will store generated RDF Graph to dedicated TTL file
+    if vss_helper is not None and ttl_helper is not None and file_helper is not None:
+        # NOTE: below used parse_vss_tree function will generate the RDF Graph of each dedicated TTL file
         if len(included_signals_input) > 0:
             # Filter the VSS tree based on included_signals_input
             vss_helper.filter_vss_tree_for_deletion(vss_tree, included_signals_input)
@@ -273,6 +285,8 @@ def cli(
             # Work with vss_tree as usual.
             parsed_tree_uri = ttl_helper.parse_vss_tree(target_folder, vss_tree, split)
 
+        file_helper.write_graph_files()
+
         if parsed_tree_uri != "DEPRECATED":
             log.info(
                 "\nVSS to ESMF - SAMM processing - COMPLETED\n\nAll ttl files are located in: '%s'\n\n", target_folder
-- 
2.43.0


From 36c634f90da86009e4f9e46a4385d02886aed416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 20/31] fix: C parser reads nodes completely or rejects the
 file

---
 binary/c_parser/cparserlib.c | 213 +++++++++++++++++++++++------------
 binary/c_parser/cparserlib.h |   4 +-
 2 files changed, 141 insertions(+), 76 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 73617f3..2d855fa 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -30,8 +30,6 @@ ReadTreeMetadata_t readTreeMetadata;
 bool isGetLeafNodeList;
 bool isGetUuidList;
 
-int ret;  // to silence compiler...
-
 typedef struct SearchContext_t {
 	long rootNode;
 	int maxFound;
@@ -349,99 +347,128 @@ char* extractAllowedElement(char* allowedBuf, int elemIndex) {
     return (char*)&allowedElement;
 }
 
-void populateNode(node_t* thisNode) {
-	ret = fread(&(thisNode->nameLen), sizeof(uint8_t), 1, treeFp);
-	thisNode->name = (char*) malloc(sizeof(char)*(thisNode->nameLen+1));
-	ret = fread(thisNode->name, sizeof(char)*thisNode->nameLen, 1, treeFp);
-	thisNode->name[thisNode->nameLen] = '\0';
+bool readBytes(void* buf, size_t numOfBytes) {
+	return numOfBytes == 0 || fread(buf, numOfBytes, 1, treeFp) == 1;
+}
+
+// returns a null terminated string, or NULL if it cannot be read completely
+char* readString(size_t len) {
+	char* str = (char*) malloc(sizeof(char)*(len+1));
+	if (str == NULL) {
+		return NULL;
+	}
+	if (readBytes(str, sizeof(char)*len) == false) {
+		free(str);
+		return NULL;
+	}
+	str[len] = '\0';
+	return str;
+}
+
+bool readAllowed(node_t* thisNode) {
+	uint16_t allowedLen;
+	if (readBytes(&allowedLen, sizeof(uint16_t)) == false) {
+		return false;
+	}
+	if (allowedLen == 0) {
+		return true;
+	}
+	char* allowedStr = readString(allowedLen);
+	if (allowedStr == NULL) {
+		return false;
+	}
+	int allowed = countAllowedElements(allowedStr);
+	thisNode->allowedDef = (allowed_t*) malloc(sizeof(allowed_t)*allowed);
+	if (thisNode->allowedDef == NULL) {
+		free(allowedStr);
+		return false;
+	}
+	thisNode->allowed = (uint16_t)allowed;
+	for (int i = 0 ; i < thisNode->allowed ; i++) {
+	    strcpy(thisNode->allowedDef[i], extractAllowedElement(allowedStr, i));
+	}
+	free(allowedStr);
+	return true;
+}
+
+/**
+ * Returns false if the node could not be read completely. All members of thisNode must be zero when it is called.
+ **/
+bool populateNode(node_t* thisNode) {
+	uint8_t nameLen;
+	if (readBytes(&nameLen, sizeof(uint8_t)) == false || (thisNode->name = readString(nameLen)) == NULL) {
+		return false;
+	}
+	thisNode->nameLen = nameLen;
 
 	uint8_t typeLen;
-	ret = fread(&typeLen, sizeof(uint8_t), 1, treeFp);
-	char* type = (char*) malloc(sizeof(char)*(typeLen+1));
-	ret = fread(type, sizeof(char)*typeLen, 1, treeFp);
-	type[typeLen] = '\0';
+	char* type;
+	if (readBytes(&typeLen, sizeof(uint8_t)) == false || (type = readString(typeLen)) == NULL) {
+		return false;
+	}
 	thisNode->type = stringToNodeType(type);
 	free(type);
 
-	ret = fread(&(thisNode->uuidLen), sizeof(uint8_t), 1, treeFp);
-	thisNode->uuid = (char*) malloc(sizeof(char)*(thisNode->uuidLen+1));
-	ret = fread(thisNode->uuid, sizeof(char)*thisNode->uuidLen, 1, treeFp);
-	thisNode->uuid[thisNode->uuidLen] = '\0';
+	if (readBytes(&(thisNode->uuidLen), sizeof(uint8_t)) == false || (thisNode->uuid = readString(thisNode->uuidLen)) == NULL) {
+		return false;
+	}
 
-	ret = fread(&(thisNode->descrLen), sizeof(uint16_t), 1, treeFp);
-	thisNode->description = (char*) malloc(sizeof(char)*(thisNode->descrLen+1));
-	ret = fread(thisNode->description, sizeof(char)*thisNode->descrLen, 1, treeFp);
-	thisNode->description[thisNode->descrLen] = '\0';
+	if (readBytes(&(thisNode->descrLen), sizeof(uint16_t)) == false || (thisNode->description = readString(thisNode->descrLen)) == NULL) {
+		return false;
+	}
 
-	ret = fread(&(thisNode->datatypeLen), sizeof(uint8_t), 1, treeFp);
-	if (thisNode->datatypeLen > 0) {
-		thisNode->datatype = (char*) malloc(sizeof(char)*(thisNode->datatypeLen+1));
-		ret = fread(thisNode->datatype, sizeof(char)*thisNode->datatypeLen, 1, treeFp);
-		thisNode->datatype[thisNode->datatypeLen] = '\0';
+	if (readBytes(&(thisNode->datatypeLen), sizeof(uint8_t)) == false) {
+		return false;
+	}
+	if (thisNode->datatypeLen > 0 && (thisNode->datatype = readString(thisNode->datatypeLen)) == NULL) {
+		return false;
 	}
 
-	ret = fread(&(thisNode->minLen), sizeof(uint8_t), 1, treeFp);
-	if (thisNode->minLen > 0) {
-		thisNode->min = (char*) malloc(sizeof(char)*(thisNode->minLen+1));
-		ret = fread(thisNode->min, sizeof(char)*thisNode->minLen, 1, treeFp);
-		thisNode->min[thisNode->minLen] = '\0';
+	if (readBytes(&(thisNode->minLen), sizeof(uint8_t)) == false) {
+		return false;
+	}
+	if (thisNode->minLen > 0 && (thisNode->min = readString(thisNode->minLen)) == NULL) {
+		return false;
 	}
 
-	ret = fread(&(thisNode->maxLen), sizeof(uint8_t), 1, treeFp);
-	if (thisNode->maxLen > 0) {
-		thisNode->max = (char*) malloc(sizeof(char)*(thisNode->maxLen+1));
-		ret = fread(thisNode->max, sizeof(char)*thisNode->maxLen, 1, treeFp);
-		thisNode->max[thisNode->maxLen] = '\0';
+	if (readBytes(&(thisNode->maxLen), sizeof(uint8_t)) == false) {
+		return false;
+	}
+	if (thisNode->maxLen > 0 && (thisNode->max = readString(thisNode->maxLen)) == NULL) {
+		return false;
 	}
 
-	ret = fread(&(thisNode->unitLen), sizeof(uint8_t), 1, treeFp);
-	if (thisNode->unitLen > 0) {
-		thisNode->unit = (char*) malloc(sizeof(char)*(thisNode->unitLen+1));
-		ret = fread(thisNode->unit, sizeof(char)*thisNode->unitLen, 1, treeFp);
-		thisNode->unit[thisNode->unitLen] = '\0';
+	if (readBytes(&(thisNode->unitLen), sizeof(uint8_t)) == false) {
+		return false;
+	}
+	if (thisNode->unitLen > 0 && (thisNode->unit = readString(thisNode->unitLen)) == NULL) {
+		return false;
 	}
 
-	uint16_t allowedLen;
-	ret = fread(&allowedLen, sizeof(uint16_t), 1, treeFp);
-	if (allowedLen > 0) {
-		char* allowedStr = (char*) malloc(sizeof(char)*(allowedLen+1));
-		ret = fread(allowedStr, sizeof(char)*allowedLen, 1, treeFp);
-		allowedStr[allowedLen] = '\0';
- 	        thisNode->allowed = (uint8_t)countAllowedElements(allowedStr);
-	        if (thisNode->allowed > 0) {
-		        thisNode->allowedDef = (allowed_t*) malloc(sizeof(allowed_t)*(thisNode->allowed));
-                }
-	        for (int i = 0 ; i < thisNode->allowed ; i++) {
-	            strcpy(thisNode->allowedDef[i], extractAllowedElement(allowedStr, i));
-	        }
-	} else {
-	    thisNode->allowed = 0;
+	if (readAllowed(thisNode) == false) {
+		return false;
 	}
 
-	ret = fread(&(thisNode->defaultLen), sizeof(uint8_t), 1, treeFp);
-	if (thisNode->defaultLen > 0) {
-		thisNode->defaultAllowed = (char*) malloc(sizeof(char)*(thisNode->defaultLen+1));
-		ret = fread(thisNode->defaultAllowed, sizeof(char)*thisNode->defaultLen, 1, treeFp);
-		thisNode->defaultAllowed[thisNode->defaultLen] = '\0';
+	if (readBytes(&(thisNode->defaultLen), sizeof(uint8_t)) == false) {
+		return false;
+	}
+	if (thisNode->defaultLen > 0 && (thisNode->defaultAllowed = readString(thisNode->defaultLen)) == NULL) {
+		return false;
 	}
 
 	uint8_t validateLen;
-	ret = fread(&validateLen, sizeof(uint8_t), 1, treeFp);
-	if (validateLen > 0) {
-		char validate[50];
-		ret = fread(validate, sizeof(char)*validateLen, 1, treeFp);
-		validate[validateLen] = '\0';
-		thisNode->validate = validateToUint8(validate);
-	} else {
-	    thisNode->validate = 0;
+	char* validate;
+	if (readBytes(&validateLen, sizeof(uint8_t)) == false || (validate = readString(validateLen)) == NULL) {
+		return false;
 	}
-
-	ret = fread(&(thisNode->children), sizeof(uint8_t), 1, treeFp);
+	thisNode->validate = validateToUint8(validate);
+	free(validate);
 
 //	printf("populateNode: %s\n", thisNode->name);
+	return readBytes(&(thisNode->children), sizeof(uint8_t));
 }
 
-int calculatAllowedStrLen(uint8_t alloweds, allowed_t* allowedDef) {
+int calculatAllowedStrLen(int alloweds, allowed_t* allowedDef) {
     int strLen = 0;
     for (int i = 0 ; i < alloweds ; i++) {
         strLen += strlen((char*)(allowedDef[i])) + 2;
@@ -521,17 +548,51 @@ void writeNode(struct node_t* node) {
 //        printf("writeNode: %s\n", node->name);
 }
 
+// frees the node with its first numOfChildren children
+void freeNode(node_t* thisNode, int numOfChildren) {
+	for (int childNo = 0 ; childNo < numOfChildren ; childNo++) {
+		freeNode(thisNode->child[childNo], thisNode->child[childNo]->children);
+	}
+	free(thisNode->child);
+	free(thisNode->name);
+	free(thisNode->uuid);
+	free(thisNode->description);
+	free(thisNode->datatype);
+	free(thisNode->min);
+	free(thisNode->max);
+	free(thisNode->unit);
+	free(thisNode->allowedDef);
+	free(thisNode->defaultAllowed);
+	free(thisNode);
+}
+
+// returns NULL if the node or any node below it could not be read completely
 struct node_t* traverseAndReadNode(struct node_t* parentNode) {
-	node_t* thisNode = (node_t*) malloc(sizeof(node_t));
+	node_t* thisNode = (node_t*) calloc(1, sizeof(node_t));
+	if (thisNode == NULL) {
+		return NULL;
+	}
 	updateReadMetadata(true);
-	populateNode(thisNode);
+	if (populateNode(thisNode) == false) {
+		freeNode(thisNode, 0);
+		return NULL;
+	}
 
 	thisNode->parent = parentNode;
 
-	if (thisNode->children > 0)
+	if (thisNode->children > 0) {
 		thisNode->child = (node_t**) malloc(sizeof(node_t**)*thisNode->children);
+		if (thisNode->child == NULL) {
+			freeNode(thisNode, 0);
+			return NULL;
+		}
+	}
 	for (int childNo = 0 ; childNo < thisNode->children ; childNo++) {
 		thisNode->child[childNo] = traverseAndReadNode(thisNode);
+		if (thisNode->child[childNo] == NULL) {
+			freeNode(thisNode, childNo);
+			return NULL;
+		}
 	}
 	updateReadMetadata(false);
 	return thisNode;
@@ -630,8 +691,12 @@ long VSSReadTree(char* filePath) {
 	}
 	initReadMetadata();
 	intptr_t root = (intptr_t)traverseAndReadNode(NULL);
-	printReadMetadata();
 	fclose(treeFp);
+	if (root == 0) {
+		printf("Could not read the complete tree data\n");
+		return 0;
+	}
+	printReadMetadata();
 	return (long)root;
 }
 
diff --git a/binary/c_parser/cparserlib.h b/binary/c_parser/cparserlib.h
index 782d02c..1edc427 100644
--- a/binary/c_parser/cparserlib.h
+++ b/binary/c_parser/cparserlib.h
@@ -12,7 +12,7 @@
 #define UNKNOWN 0
 typedef enum {SENSOR=1, ACTUATOR, ATTRIBUTE, BRANCH, STRUCT, PROPERTY } nodeTypes_t;
 
-#define MAXALLOWEDELEMENTLEN 64
+#define MAXALLOWEDELEMENTLEN 256  // max 255 characters and the terminating null
 typedef char allowed_t[MAXALLOWEDELEMENTLEN];
 
 typedef struct node_t {
@@ -31,7 +31,7 @@ typedef struct node_t {
     char* min;
     uint8_t unitLen;
     char* unit;
-    uint8_t allowed;
+    uint16_t allowed;
     allowed_t *allowedDef;
     uint8_t defaultLen;
     char* defaultAllowed;
-- 
2.43.0


From 44abfcd15d72b09c20e5f0ce17ee90713b78dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 21/31] fix: C parser writes trees and node lists that can be
 read

---
 binary/c_parser/cparserlib.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 2d855fa..7ee4251 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -250,14 +250,13 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			    fwrite("\"", 1, 1, context->listFp);
 			} else {
 			    if (context->numOfMatches == 0) {
-				    fwrite("{\"", 2, 1, context->listFp);
+				    fwrite("{\"path\":\"", 9, 1, context->listFp);
 			    } else {
-				    fwrite(", {\"", 4, 1, context->listFp);
+				    fwrite(", {\"path\":\"", 11, 1, context->listFp);
 			    }
 			    fwrite(context->matchPath, strlen(context->matchPath), 1, context->listFp);
-			    fwrite("\", \"", 4, 1, context->listFp);
-			    char uuid[32+1];
-			    strcpy(uuid, VSSgetUUID(thisNode));
+			    fwrite("\", \"uuid\":\"", 11, 1, context->listFp);
+			    char* uuid = VSSgetUUID(thisNode);
 			    fwrite(uuid, strlen(uuid), 1, context->listFp);
 			    fwrite("\"}", 2, 1, context->listFp);
 			}
@@ -535,7 +534,7 @@ void writeNode(struct node_t* node) {
 		fwrite(node->defaultAllowed, sizeof(char)*node->defaultLen, 1, treeFp);
 	}
 
-	char validate[10+1+7+1];  // access control + consent data
+	char validate[10+1+7+1] = "";  // access control + consent data
 	validateToString(node->validate, (char*)&validate);
 	int validateLen = strlen(validate);
 	fwrite(&validateLen, sizeof(uint8_t), 1, treeFp);
@@ -719,8 +718,13 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetLeafNodeList = true;
+	isGetUuidList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
+	if (listFp == NULL) {
+		printf("Could not open %s for writing tree data\n", listFname);
+		return 0;
+	}
 	fwrite("{\"leafpaths\":[", 14, 1, listFp);
 	initContext_LNL(context, "*", rootNode, listFp, true, true, 0, NULL);  // anyDepth = true, leafNodesOnly = true
 	traverseNode(rootNode, context);
@@ -734,8 +738,13 @@ int VSSGetUuidList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetUuidList = true;
+	isGetLeafNodeList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
+	if (listFp == NULL) {
+		printf("Could not open %s for writing tree data\n", listFname);
+		return 0;
+	}
 	fwrite("{\"leafuuids\":[", 14, 1, listFp);
 	initContext_LNL(context, "*", rootNode, listFp, true, true, 0, NULL);  // anyDepth = true, leafNodesOnly = true
 	traverseNode(rootNode, context);
-- 
2.43.0


From e9b1599e355ee69b7df6f1840d278625bf89e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 22/31] fix: C parser search neither drops valid matches nor
 exceeds its buffers

---
 binary/c_parser/cparserlib.c | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 7ee4251..52d970c 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -39,7 +39,6 @@ typedef struct SearchContext_t {
 	path_t matchPath;
 	int currentDepth;  // depth in tree from rootNode, and also depth (in segments) in searchPath
 	int speculationIndex;  // inc/dec when pathsegment in focus is wildcard
-	int speculativeMatches[20];  // inc when matching node is saved
 	int maxValidation;
 	int numOfMatches;
 	searchData_t* searchData;
@@ -168,7 +167,7 @@ void incDepth(long thisNode, SearchContext_t* context) {
 	context->currentDepth++;
 }
 
-char getPathSegmentBuf[100];  // modified by getPathSegment() only
+path_t getPathSegmentBuf;  // modified by getPathSegment() only
 char* getPathSegment(int offset, SearchContext_t* context) {
 	char* frontDelimiter = &(context->searchPath[0]);
 	char* endDelimiter;
@@ -235,8 +234,9 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 		context->speculationIndex++;
 	}
 	context->maxValidation = getMaxValidation(VSSgetValidation(thisNode), context->maxValidation);
-	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false) {
-		if ( isGetLeafNodeList == false && isGetUuidList == false) {
+	bool isList = isGetLeafNodeList || isGetUuidList;
+	if ((isList || context->numOfMatches < context->maxFound) && ((VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT) || context->leafNodesOnly == false)) {
+		if (isList == false) {
 			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
 			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
 		} else {
@@ -262,9 +262,6 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			}
 		}
 		context->numOfMatches++;
-		if (context->speculationIndex >= 0) {
-			context->speculativeMatches[context->speculationIndex]++;
-		}
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context->currentDepth == context->maxDepth || isEndOfScope(context) == true) {
 		*done = true;
@@ -280,12 +277,9 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 /**
  * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
  **/
-void decDepth(int speculationSucceded, SearchContext_t* context) {
-	if (context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context->numOfMatches--;
-			context->speculativeMatches[context->speculationIndex]--;
-		}
+void decDepth(int speculationSucceded, int numOfEarlierMatches, SearchContext_t* context) {
+	if (context->speculationIndex >= 0 && speculationSucceded == 0) {  // it failed so remove what was saved from this node and on
+		context->numOfMatches = numOfEarlierMatches;
 	}
 	if (strcmp(getPathSegment(0, context), "*") == 0) {
 		context->speculationIndex--;
@@ -606,6 +600,7 @@ void traverseAndWriteNode(struct node_t* node) {
 
 int traverseNode(long thisNode, SearchContext_t* context) {
 	int speculationSucceded = 0;
+	int numOfEarlierMatches = context->numOfMatches;
 
 	incDepth(thisNode, context);
 	if (compareNodeName(VSSgetName(thisNode), getPathSegment(0, context)) == true) {
@@ -621,7 +616,7 @@ int traverseNode(long thisNode, SearchContext_t* context) {
 			}
 		}
 	}
-	decDepth(speculationSucceded, context);
+	decDepth(speculationSucceded, numOfEarlierMatches, context);
 	return speculationSucceded;
 }
 
@@ -649,9 +644,6 @@ void initContext(SearchContext_t* context, char* searchPath, long rootNode, int
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
 	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 //used for VSSGetLeafNodeList
@@ -677,9 +669,6 @@ void initContext_LNL(SearchContext_t* context, char* searchPath, long rootNode,
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
 	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 long VSSReadTree(char* filePath) {
-- 
2.43.0


From ca06c656557ce480a107b782dd1e00f86fd0821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 23/31] fix: Go parser reads nodes completely or rejects the
 file

---
 binary/go_parser/datamodel/datamodel.go |  6 ++---
 binary/go_parser/parserlib/parser.go    | 29 +++++++++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index a7e9f00..7d52103 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -35,7 +35,7 @@ type Node_t struct {
     Min string
     Max string
     Unit string
-    Allowed uint8
+    Allowed uint16
     AllowedDef []string
     DefaultAllowed string
     Validate uint8
@@ -60,7 +60,7 @@ func StringToNodetype(nodeType string) uint8 {
     if (nodeType == "struct") {
         return STRUCT
     }
-    if (nodeType == "propery") {
+    if (nodeType == "property") {
         return PROPERTY
     }
     fmt.Printf("Unknown type! |%s|\n", nodeType);
@@ -97,7 +97,7 @@ func NodetypeToString(nodeType NodeTypes_t) string {
         return "struct"
     }
     if (nodeType == PROPERTY) {
-        return "propery"
+        return "property"
     }
     fmt.Printf("Unknown type! |%d|\n", nodeType);
     return ""
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 066f55e..dc3d1a1 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -12,12 +12,14 @@ package parserlib
 
 import (
     def "github.com/COVESA/vss-tools/binary/go_parser/datamodel"
+    "io"
     "os"
     "strings"
     "fmt"
 )
 
 var treeFp *os.File
+var readErr error  // the first error since the tree reading started
 
 type ReadTreeMetadata_t struct {
     CurrentDepth int
@@ -149,6 +151,9 @@ func traverseAndReadNode(parentNode *def.Node_t) *def.Node_t {
 	var thisNode def.Node_t
 	updateReadMetadata(true)
 	populateNode(&thisNode)
+	if (readErr != nil) {
+		return nil
+	}
 	thisNode.Parent = parentNode
 	if (thisNode.Children > 0) {
                thisNode.Child = make([]*def.Node_t, thisNode.Children)
@@ -156,6 +161,9 @@ func traverseAndReadNode(parentNode *def.Node_t) *def.Node_t {
 	var childNo uint8
 	for childNo = 0 ; childNo < thisNode.Children ; childNo++ {
 		thisNode.Child[childNo] = traverseAndReadNode(&thisNode)
+		if (readErr != nil) {
+			return nil
+		}
 	}
 	updateReadMetadata(false)
 	return &thisNode
@@ -322,7 +330,12 @@ func decDepth(speculationSucceded int, context *SearchContext_t) {
 func readBytes(numOfBytes uint32) []byte {
 	if (numOfBytes > 0) {
 	    buf := make([]byte, numOfBytes)
-	    treeFp.Read(buf)
+	    if (readErr == nil) {
+		_, readErr = io.ReadFull(treeFp, buf)
+	    }
+	    if (readErr != nil) {  // nothing that was read partly is used
+		return make([]byte, numOfBytes)
+	    }
 	    return buf
 	}
 	return nil
@@ -359,7 +372,10 @@ func populateNode(thisNode *def.Node_t) {
 
 	allowedStrLen := deSerializeUInt(readBytes(2)).(uint16)
 	allowedStr := string(readBytes((uint32)(allowedStrLen)))
-	thisNode.Allowed = (uint8)(countAllowedElements(allowedStr))
+	if (readErr != nil) {
+		return
+	}
+	thisNode.Allowed = (uint16)(countAllowedElements(allowedStr))
 	if (thisNode.Allowed > 0) {
             thisNode.AllowedDef = make([]string, thisNode.Allowed)
         }
@@ -610,13 +626,18 @@ func VSSReadTree(fname string) *def.Node_t {
     var err error
     treeFp, err = os.OpenFile(fname, os.O_RDONLY, 0644)
     if (err != nil) {
-        fmt.Printf("Could not open %s for writing of tree. Error= %s\n", fname, err)
+        fmt.Printf("Could not open %s for reading of tree. Error= %s\n", fname, err)
         return nil
     }
     initReadMetadata()
+    readErr = nil
     var root *def.Node_t = traverseAndReadNode(nil)
-    printReadMetadata()
     treeFp.Close()
+    if (readErr != nil) {
+        fmt.Printf("Could not read the complete tree from %s. Error= %s\n", fname, readErr)
+        return nil
+    }
+    printReadMetadata()
     return root
 }
 
-- 
2.43.0


From e40306f2880101291c10c0f0adf3fed2cf7b5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 24/31] fix: Go parser writes trees and node lists that can be
 read

---
 binary/go_parser/datamodel/datamodel.go | 2 +-
 binary/go_parser/parserlib/parser.go    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index 7d52103..8336419 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -113,7 +113,7 @@ func ValidateToString(validate uint8) string {
         validation = "read-write"
     }
     if (validate/10 == 1) {
-        validation = "+consent"
+        validation += "+consent"
     }
     return validation
 }
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index dc3d1a1..0de57c2 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -464,7 +464,6 @@ func calculatAllowedStrLen(allowedDef []string) int {
 
 func allowedWrite(allowed string) {
     treeFp.Write(intToHex(len(allowed)))
-fmt.Printf("allowedHexLen: %s\n", string(intToHex(len(allowed))))
     treeFp.Write([]byte(allowed))
 }
 
@@ -590,8 +589,9 @@ func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDe
 func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
+    isGetUuidList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -608,8 +608,9 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
 func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetUuidList = true
+    isGetLeafNodeList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -643,7 +644,7 @@ func VSSReadTree(fname string) *def.Node_t {
 
 func VSSWriteTree(fname string, root *def.Node_t) {
     var err error
-    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", fname)
 	return
-- 
2.43.0


From 000166251c455007c7fda0a8f033b733143ae36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 25/31] fix: Go parser search neither drops valid matches nor
 exceeds its buffers

---
 binary/go_parser/parserlib/parser.go | 32 ++++++++++------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 0de57c2..fe79928 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -46,7 +46,6 @@ type SearchContext_t struct {
 	MatchPath string
 	CurrentDepth int  // depth in tree from rootNode, and also depth (in segments) in searchPath
 	SpeculationIndex int  // inc/dec when pathsegment in focus is wildcard
-	SpeculativeMatches [20]int  // inc when matching node is saved
 	MaxValidation int
 	NumOfMatches int
 	SearchData []SearchData_t
@@ -179,6 +178,7 @@ func traverseAndWriteNode(node *def.Node_t) {
 
 func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
 	speculationSucceded := 0
+	numOfEarlierMatches := context.NumOfMatches
 
 	incDepth(thisNode, context)
 //	fmt.Printf("before compareNodeName():VSSnodename=%s, pathnodename=%s\n", VSSgetName(thisNode), getPathSegment(0, context))
@@ -195,7 +195,7 @@ func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
 			}
 		}
 	}
-	decDepth(speculationSucceded, context)
+	decDepth(speculationSucceded, numOfEarlierMatches, context)
 	return speculationSucceded
 }
 
@@ -204,8 +204,9 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 		context.SpeculationIndex++
 	}
 	context.MaxValidation = getMaxValidation(VSSgetValidation(thisNode), context.MaxValidation)
-	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false) {
-		if ( isGetLeafNodeList == false && isGetUuidList == false) {
+	isList := isGetLeafNodeList || isGetUuidList
+	if ((isList || context.NumOfMatches < context.MaxFound) && ((VSSgetType(thisNode) != def.BRANCH && VSSgetType(thisNode) != def.STRUCT) || context.LeafNodesOnly == false)) {
+		if (isList == false) {
 			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
 			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
 		} else {
@@ -231,9 +232,6 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 			}
 		}
 		context.NumOfMatches++
-		if (context.SpeculationIndex >= 0) {
-			context.SpeculativeMatches[context.SpeculationIndex]++
-		}
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context.CurrentDepth == context.MaxDepth  || isEndOfScope(context) == true) {
 		*done = true
@@ -285,8 +283,9 @@ func popPathSegment(context *SearchContext_t) {
 func getPathSegment(offset int, context *SearchContext_t) string {
 	frontDelimiter := 0
 	for i := 1 ; i < context.CurrentDepth + offset ; i++ {
-		frontDelimiter += strings.Index(context.SearchPath[frontDelimiter+1:], ".") + 1
-		if (frontDelimiter == -1) {
+		nextDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".")
+		frontDelimiter += nextDelimiter + 1
+		if (nextDelimiter == -1) {
 			if (context.SearchPath[len(context.SearchPath)-1] == '*' && context.CurrentDepth < context.MaxDepth) {
 				return "*"
 			} else {
@@ -312,13 +311,10 @@ func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
 /**
  * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
  **/
-func decDepth(speculationSucceded int, context *SearchContext_t) {
+func decDepth(speculationSucceded int, numOfEarlierMatches int, context *SearchContext_t) {
 	//fmt.Printf("decDepth():speculationSucceded=%d\n", speculationSucceded)
-	if (context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context.NumOfMatches--
-			context.SpeculativeMatches[context.SpeculationIndex]--
-		}
+	if (context.SpeculationIndex >= 0 && speculationSucceded == 0) {  // it failed so remove what was saved from this node and on
+		context.NumOfMatches = numOfEarlierMatches
 	}
 	if (getPathSegment(0, context) == "*") {
 		context.SpeculationIndex--
@@ -540,9 +536,6 @@ func initContext(context *SearchContext_t, searchPath string, rootNode *def.Node
 	context.MatchPath = ""
 	context.NumOfMatches = 0
 	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.Node_t, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string) {
@@ -567,9 +560,6 @@ func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.
 	context.MatchPath = ""
 	context.NumOfMatches = 0
 	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string, validation *int) ([]SearchData_t, int) {
-- 
2.43.0


From a8d9d7b94102ce2b3edcd8346b761e555fa6c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 26/31] fix: an instance with the name of an existing node is
 rejected instead of lost

---
 src/vss_tools/vspec/tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..be89826 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -431,6 +431,10 @@ def expand_instance(
     log.debug(f"Requested instance names: {names}")
     for name in names:
         for root in roots:
+            # Nodes are identified by their fully qualified name. The name could be taken
+            # by a node that is not instantiated or by an instance listed more than once
+            if any(child.name == name for child in root.children):
+                raise InvalidExpansionEntryException(f"Instance '{root.get_fqn()}.{name}' is already defined")
             # Need to copy the template so that we
             # are not messing with the same node
             node = template.copy()
-- 
2.43.0


From 68b56a3dd44fce0e88704ab752296fc691099497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 27/31] fix: Do not take names with path separators as file
 names

A root or struct branch name like /some/where/x made the ApiGear, SAMM and
protobuf exporters write outside of their output directories.
---
 src/vss_tools/vspec/utils/misc.py                     | 11 +++++++++++
 src/vss_tools/vspec/vssexporters/vss2apigear.py       |  2 ++
 src/vss_tools/vspec/vssexporters/vss2protobuf.py      |  3 ++-
 .../vssexporters/vss2samm/helpers/file_helper.py      |  3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/utils/misc.py b/src/vss_tools/vspec/utils/misc.py
index 484a831..5846f71 100644
--- a/src/vss_tools/vspec/utils/misc.py
+++ b/src/vss_tools/vspec/utils/misc.py
@@ -6,6 +6,7 @@
 #
 # SPDX-License-Identifier: MPL-2.0
 import re
+from pathlib import Path
 from typing import Any
 
 
@@ -31,3 +32,13 @@ def camel_back(st):
     s1 = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", st)
     s2 = re.sub("([a-z0-9])([A-Z])", r"\1_\2", s1).lower()
     return re.sub(r"_([a-z])", lambda x: x.group(1).upper(), s2)
+
+
+def as_file_name(name: str) -> str:
+    """
+    Checks that a name taken from a model can be used as the name of a
+    generated file or directory and does not lead anywhere else
+    """
+    if Path(name).name != name or name == ".." or "\0" in name:
+        raise ValueError(f"Cannot be used as a file name: {name!r}")
+    return name
diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 3671049..0070d3d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -22,6 +22,7 @@ from vss_tools.vspec.tree import VSSNode
 from vss_tools.vspec.model import VSSDataBranch, VSSDataStruct, VSSDataDatatype
 from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.main import get_trees
+from vss_tools.vspec.utils.misc import as_file_name
 from pathlib import Path
 from math import inf
 
@@ -510,6 +511,7 @@ def cli(
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
         sys.exit(1)
+    as_file_name(tree.name)
     output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 5db4302..cc7ac91 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -26,6 +26,7 @@ from vss_tools.vspec.model import (
     VSSDataStruct,
 )
 from vss_tools.vspec.tree import VSSNode
+from vss_tools.vspec.utils.misc import as_file_name
 
 PATH_DELIMITER = "."
 DIR_DELIMITER = "/"
@@ -68,7 +69,7 @@ def traverse_data_type_tree(
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
-        struct_path = Path(node.get_fqn("/"))
+        struct_path = Path(*[as_file_name(n.name) for n in node.path])
 
         # <out-dir>/A/B/C
         package_path = out_dir / struct_path.parent
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 23d45a6..33d1187 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -10,6 +10,7 @@ from pathlib import Path
 
 from rdflib import Graph
 from vss_tools import log
+from vss_tools.vspec.utils.misc import as_file_name
 
 from ..config import config as cfg
 
@@ -46,7 +47,7 @@ def add_graph_file(path_to_file: Path, file_name: str, graph: Graph):
     filedata = filedata.replace("xsd:anyURI", "xsd:double")
 
     # Data for the ttl file, with a new line at the end
-    output_file: Path = Path(path_to_file) / f"{file_name}.ttl"
+    output_file: Path = Path(path_to_file) / f"{as_file_name(file_name)}.ttl"
     generated_files[output_file] = filedata + "\n"
 
     # Return file location
-- 
2.43.0


From bb643bcf00b183078913863f5c9e58e6554acf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 28/31] fix: Reject text that cannot be written before touching
 any output

Lone surrogates in a model ("\ud800") were accepted, but made most exporters
fail after they had opened their output. Escaped surrogate pairs are
characters and now accepted by all exporters.
---
 src/vss_tools/vspec/vspec.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index dcff450..99fde45 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -65,6 +65,17 @@ def deep_update(base: dict[str, Any], update: dict[str, Any]) -> None:
             base[key] = value
 
 
+class SpecLoader(yaml.SafeLoader):
+    """
+    A YAML text can contain escaped surrogates. A pair of them is one character,
+    any other one cannot be written to the exported files.
+    """
+
+    def construct_scalar(self, node: yaml.ScalarNode) -> Any:
+        value = super().construct_scalar(node)
+        return value.encode("utf-16-le", "surrogatepass").decode("utf-16-le")
+
+
 class VSpec:
     def __init__(
         self,
@@ -76,7 +87,7 @@ class VSpec:
 
         content = source.read_text(encoding="utf-8")
 
-        self.data = yaml.safe_load(content)
+        self.data = yaml.load(content, SpecLoader)
         if self.data is None:
             self.data = {}
 
-- 
2.43.0


From 7d128ce248c72153cb65cc06efa26e936c60554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 29/31] fix: Print the reason of a failure at every log level

With --log-level CRITICAL runs that failed for orphans, an existing ApiGear
directory or ambiguous static UIDs ended without any message.
---
 src/vss_tools/vspec/main.py                     | 4 ++--
 src/vss_tools/vspec/utils/vss2id_val.py         | 2 +-
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 5ba961a..5556615 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -116,7 +116,7 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
         data = load_vspec(include_dirs, [types_file], "Types")
         root, orphans = build_tree(data.data)
         if orphans:
-            log.error(f"Types model has orphans\n{orphans}")
+            log.critical(f"Types model has orphans\n{orphans}")
             exit(1)
         if types_root:
             node: VSSNode
@@ -229,7 +229,7 @@ def get_trees(
     root, orphans = build_tree(vspec_data.data, connect_orphans=True)
 
     if orphans:
-        log.error(f"Model has orphans\n{list(orphans.keys())}")
+        log.critical(f"Model has orphans\n{list(orphans.keys())}")
         exit(1)
 
     if expand:
diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 8231e32..05663c9 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -132,7 +132,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
                 validation_tree_nodes.pop(matched_uids[0][1])
 
             else:
-                log.error(
+                log.critical(
                     "[Validation] Multiple matches do not make sense "
                     "for the way we load the data. Please check your "
                     "input vspec!"
diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 0070d3d..374a6d0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -509,7 +509,7 @@ def cli(
     )
     log.info("Generating ApiGear output...")
     if output_dir.exists():
-        log.error("Directory already exists. Aborting..")
+        log.critical("Directory already exists. Aborting..")
         sys.exit(1)
     as_file_name(tree.name)
     output_dir.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From a2a2493945d915bab1180ff7f818841dc0978b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:56 +0000
Subject: [PATCH 30/31] fix: Write the log file independently of the locale

Under an ASCII or other narrow locale, messages with other characters were
not written to the file given with --log-file.
---
 src/vss_tools/vspec/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/cli.py b/src/vss_tools/vspec/cli.py
index 320d57a..8831366 100644
--- a/src/vss_tools/vspec/cli.py
+++ b/src/vss_tools/vspec/cli.py
@@ -25,7 +25,7 @@ def cli(ctx: click.Context, log_level: str, log_file: Path):
     if ctx.invoked_subcommand is None:
         click.echo(ctx.get_help())
     if log_file:
-        file_handler = logging.FileHandler(log_file, mode="w")
+        file_handler = logging.FileHandler(log_file, mode="w", encoding="utf-8", errors="backslashreplace")
         file_handler.setFormatter(logging.Formatter("%(asctime)s:%(levelname)s:%(message)s"))
         log.addHandler(file_handler)
 
-- 
2.43.0


From 9e0c97cd52d46e5cf8530141d7a1fb9c006f58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 31/31] fix: Read a model file once that is used several times

---
 src/vss_tools/vspec/main.py  | 11 +++++++----
 src/vss_tools/vspec/vspec.py | 29 +++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 5556615..5083d86 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -104,7 +104,9 @@ def check_extra_attribute_violations(
             raise ExtraAttributesException(f"Forbidden extra attributes detected: {extra_attributes}")
 
 
-def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode | None:
+def get_types_root(
+    types: tuple[Path, ...], include_dirs: list[Path], contents: dict[str, str] | None = None
+) -> VSSNode | None:
     if not types:
         log.debug("No user 'types' defined")
         return None
@@ -113,7 +115,7 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
     # We are iterating to be able to reference
     # types from earlier type files
     for types_file in list(types):
-        data = load_vspec(include_dirs, [types_file], "Types")
+        data = load_vspec(include_dirs, [types_file], "Types", contents)
         root, orphans = build_tree(data.data)
         if orphans:
             log.critical(f"Types model has orphans\n{orphans}")
@@ -219,9 +221,10 @@ def get_trees(
         if include_dir not in unique_include_dirs:
             unique_include_dirs.append(include_dir)
 
+    contents: dict[str, str] = {}
     try:
-        types_root = get_types_root(types, unique_include_dirs)
-        vspec_data = load_vspec(unique_include_dirs, [vspec] + list(overlays))
+        types_root = get_types_root(types, unique_include_dirs, contents)
+        vspec_data = load_vspec(unique_include_dirs, [vspec] + list(overlays), contents=contents)
     except InvalidSpecDuplicatedEntryException as e:
         log.critical(e)
         exit(1)
diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index 99fde45..d0505ef 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -7,6 +7,7 @@
 # SPDX-License-Identifier: MPL-2.0
 from __future__ import annotations
 
+import os
 from pathlib import Path
 from typing import Any
 
@@ -81,11 +82,18 @@ class VSpec:
         self,
         source: Path,
         prefix: str | None = None,
+        contents: dict[str, str] | None = None,
     ):
         self.source = source
         self.prefix = prefix
 
-        content = source.read_text(encoding="utf-8")
+        # A file that is used several times is read once,
+        # it could be replaced by another version meanwhile
+        contents = {} if contents is None else contents
+        real_path = os.path.realpath(source)
+        if real_path not in contents:
+            contents[real_path] = source.read_text(encoding="utf-8")
+        content = contents[real_path]
 
         self.data = yaml.load(content, SpecLoader)
         if self.data is None:
@@ -109,24 +117,33 @@ class VSpec:
         deep_update(self.data, other.data)
 
 
-def get_vspecs(includes: list[Path], spec: Path, prefix: str | None = None) -> list[VSpec]:
+def get_vspecs(
+    includes: list[Path], spec: Path, prefix: str | None = None, contents: dict[str, str] | None = None
+) -> list[VSpec]:
+    contents = {} if contents is None else contents
     vspecs: list[VSpec] = []
-    vspec = VSpec(spec, prefix)
+    vspec = VSpec(spec, prefix, contents)
     vspecs.append(vspec)
 
     for include in vspec.includes:
         include_spec = include.resolve_path(includes + [vspec.source.parent])
-        vspecs.extend(get_vspecs(includes, include_spec, include.prefix))
+        vspecs.extend(get_vspecs(includes, include_spec, include.prefix, contents))
 
     return vspecs
 
 
-def load_vspec(include_dirs: list[Path], specs: list[Path], identifier: str | None = None) -> VSpec:
+def load_vspec(
+    include_dirs: list[Path],
+    specs: list[Path],
+    identifier: str | None = None,
+    contents: dict[str, str] | None = None,
+) -> VSpec:
+    contents = {} if contents is None else contents
     spec = None
     vspecs: list[VSpec] = []
     for s in specs:
         includes = [s.parent] + include_dirs
-        vspecs.extend(get_vspecs(includes, s))
+        vspecs.extend(get_vspecs(includes, s, contents=contents))
     pre = "VSpecs"
     if identifier:
         pre += f" ({identifier})"
-- 
2.43.0

