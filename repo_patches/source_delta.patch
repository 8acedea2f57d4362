From e1aeccff21364ea62bca9d51f02b44fe7af0c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 01/26] fix: do not print to stdout while loading a TMX map
 with templates

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..5df88fd 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From 852fccfa1ecfa3df7384f55d8741ccdce8a8e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 02/26] fix: sniff the file format on bytes so empty or cut
 files do not crash it

---
 pytiled_parser/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..ce2033c 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -37,9 +37,9 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
+    with open(file_path, "rb") as file:
+        line = file.readline().strip()
+        if line.startswith(b"<"):
             return "tmx"
         else:
             return "json"
-- 
2.43.0


From 880892574c5cbde68111b400ee4fea90cabe2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 03/26] fix: give each object its own properties dict instead
 of a shared default

---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..2be8c6e 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.Factory(dict)
 
 
 @attr.s()
-- 
2.43.0


From f1b527534e630206e71f33bc2fb1a058c1e07d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 04/26] fix: read map, tileset, template and world files as
 UTF-8 on every platform

---
 pytiled_parser/parser.py                 | 4 ++--
 pytiled_parser/parsers/json/tiled_map.py | 4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 4 ++--
 pytiled_parser/util.py                   | 6 +++---
 pytiled_parser/world.py                  | 2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -50,12 +50,12 @@ def parse_tileset(file: Path) -> Tileset:
     parser = check_format(file)
 
     if parser == "tmx":
-        with open(file) as map_file:
+        with open(file, encoding="utf-8") as map_file:
             raw_tileset = etree.parse(map_file).getroot()
         return tmx_tileset_parse(raw_tileset, 1)
     else:
         try:
-            with open(file) as my_file:
+            with open(file, encoding="utf-8") as my_file:
                 raw_tileset = json.load(my_file)
             return json_tileset_parse(raw_tileset, 1)
         except ValueError:
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..f2ba2cf 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -64,7 +64,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -77,7 +77,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 5df88fd..48a888a 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -21,7 +21,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -34,7 +34,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index ce2033c..d74a1c1 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -52,7 +52,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -61,7 +61,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
@@ -76,7 +76,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From 7b5bbc05df0c1dab367ab6f4934c40c1e1ed6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 05/26] fix: do not repeat nested layers and tile collision
 layers at the top of a TMX map

---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 48a888a..59782ea 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From 3a9d5b6f7b2eb3f71f60d7ebfc9c4807f7aaff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 06/26] fix: keep the stored order of different kinds of layers
 in a TMX group

---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..f1a9036 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for layer in raw_layer:
+        if layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(layer, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From c92d39f5c292877785f14e2fce7144b2df884505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 07/26] fix: resolve the tilesets of template objects inside
 layer groups

---
 pytiled_parser/parsers/json/tiled_map.py | 16 ++++++++++++----
 pytiled_parser/parsers/tmx/tiled_map.py  | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index f2ba2cf..18b9930 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,12 +1,13 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import List, Union, cast
+from typing import Iterator, List, Union, cast
 
 from typing_extensions import TypedDict
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.parsers.json.layer import RawLayer
 from pytiled_parser.parsers.json.layer import parse as parse_layer
 from pytiled_parser.parsers.json.properties import RawProperty
@@ -55,6 +56,15 @@ RawTiledMap.__doc__ = """
 """
 
 
+def _object_layers(layers: List[Layer]) -> Iterator[ObjectLayer]:
+    """Find the object layers of a map, also inside of groups, in stored order."""
+    for layer in layers:
+        if isinstance(layer, LayerGroup):
+            yield from _object_layers(layer.layers or [])
+        elif isinstance(layer, ObjectLayer):
+            yield layer
+
+
 def parse(file: Path) -> TiledMap:
     """Parse the raw Tiled map into a pytiled_parser type.
 
@@ -125,9 +135,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 59782ea..47afe40 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,9 +1,11 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from typing import Iterator, List
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
@@ -12,6 +14,15 @@ from pytiled_parser.tiled_map import TiledMap, TilesetDict
 from pytiled_parser.util import check_format, parse_color
 
 
+def _object_layers(layers: List[Layer]) -> Iterator[ObjectLayer]:
+    """Find the object layers of a map, also inside of groups, in stored order."""
+    for layer in layers:
+        if isinstance(layer, LayerGroup):
+            yield from _object_layers(layer.layers or [])
+        elif isinstance(layer, ObjectLayer):
+            yield layer
+
+
 def parse(file: Path) -> TiledMap:
     """Parse the raw Tiled map into a pytiled_parser type.
 
@@ -81,9 +92,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
-- 
2.43.0


From 2ffc02a42505cb350e1883859a26ce943b866375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 08/26] fix: load a template's tileset into a map which has no
 tilesets

---
 pytiled_parser/parsers/json/tiled_map.py | 8 +++++---
 pytiled_parser/parsers/tmx/tiled_map.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 18b9930..a4e5794 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -159,9 +159,11 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            new_firstgid = highest_firstgid + last_tileset.tile_count
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 47afe40..467b958 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -116,9 +116,11 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            new_firstgid = highest_firstgid + last_tileset.tile_count
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From 5af113e377a5a527e89a0a70b560081d6dfe3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 09/26] fix: load a template's tileset when it is in the other
 format

---
 pytiled_parser/parsers/json/tiled_map.py | 12 ++++++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a4e5794..1a81caf 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -152,9 +152,17 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # The tileset may be in another format than the map
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_new_tileset = parse_json_tileset
+                        new_tileset_name = tiled_object.new_tileset["name"]
+                    else:
+                        parse_new_tileset = parse_tmx_tileset
+                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == new_tileset_name:
                             already_loaded = val
                             break
 
@@ -164,7 +172,7 @@ def parse(file: Path) -> TiledMap:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
                             new_firstgid = highest_firstgid + last_tileset.tile_count
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 467b958..03ceeec 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -109,9 +109,17 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # The tileset may be in another format than the map
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_new_tileset = parse_json_tileset
+                        new_tileset_name = tiled_object.new_tileset["name"]
+                    else:
+                        parse_new_tileset = parse_tmx_tileset
+                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == new_tileset_name:
                             already_loaded = val
                             break
 
@@ -121,7 +129,7 @@ def parse(file: Path) -> TiledMap:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
                             new_firstgid = highest_firstgid + last_tileset.tile_count
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From 25b34262c99c7e9875f017c3dee81e03df9a4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 10/26] fix: read the class of wang sets and wang colors from
 JSON tilesets

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 2d01977dfbfe5f2664a15a0527791d09460f3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 11/26] fix: let values of an object override those of its
 template

---
 pytiled_parser/parsers/json/tiled_object.py | 11 ++++++++++-
 pytiled_parser/parsers/tmx/tiled_object.py  |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..33285d3 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -317,8 +317,17 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            properties = {
+                raw_property["name"]: raw_property
+                for raw_property in loaded_template.get("properties", [])
+                + raw_object.get("properties", [])
+            }
+            if properties:
+                raw_object["properties"] = list(properties.values())
+
+            # What is stored on the object itself overrides the template
             for key in loaded_template:
-                if key != "id":
+                if key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
             raise NotImplementedError(
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..2913e01 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -279,7 +279,12 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
 
                 properties_element = raw_object.find("./properties")
                 if properties_element is not None:
-                    new_object.append(properties_element)
+                    template_properties = new_object.find("./properties")
+                    if template_properties is None:
+                        new_object.append(properties_element)
+                    else:
+                        # The last property of a name is the one which is kept
+                        template_properties.extend(list(properties_element))
 
                 raw_object = new_object
         elif isinstance(template, dict):
-- 
2.43.0


From 0a7a1ba2e47bba4825925a91a9dfc24958b7d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 12/26] fix: keep multi-line string properties of TMX files

---
 pytiled_parser/parsers/tmx/properties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..b38a729 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -12,11 +12,14 @@ def parse(raw_properties: etree.Element) -> Properties:
     for raw_property in raw_properties.findall("property"):
         type_ = raw_property.attrib.get("type")
 
-        if "value" not in raw_property.attrib:
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif raw_property.text is not None and type_ in (None, "string"):
+            # Tiled stores strings with line breaks as the text of the element
+            value_ = raw_property.text
+        else:
             continue
 
-        value_ = raw_property.attrib["value"]
-
         if type_ == "file":
             value = Path(value_)
         elif type_ == "color":
-- 
2.43.0


From b3a5b2f480b1019f7a5693991ea1181d4a2c676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 13/26] fix: reject empty compressed tile data instead of
 loading no tiles

---
 pytiled_parser/parsers/json/layer.py | 3 +++
 pytiled_parser/parsers/tmx/layer.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..c219180 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -132,6 +132,9 @@ def _decode_tile_layer_data(
         ValueError: For an unsupported compression type.
     """
     unencoded_data = base64.b64decode(data)
+    if compression and not unencoded_data:
+        raise ValueError("The compressed tile data is empty.")
+
     if compression == "zlib":
         unzipped_data = zlib.decompress(unencoded_data)
     elif compression == "gzip":
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index f1a9036..81771ca 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -77,6 +77,9 @@ def _decode_tile_layer_data(
         ValueError: For an unsupported compression type.
     """
     unencoded_data = base64.b64decode(data)
+    if compression and not unencoded_data:
+        raise ValueError("The compressed tile data is empty.")
+
     if compression == "zlib":
         unzipped_data = zlib.decompress(unencoded_data)
     elif compression == "gzip":
-- 
2.43.0


From 6ca1f497e8635c0fa11bad036769d7e95dae3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 14/26] fix: reject unsupported compression instead of using
 the compressed bytes as tiles

---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index c219180..367ca39 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -147,6 +147,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 81771ca..b8292c3 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -92,6 +92,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From 167a7a0633fbfbecebc1605c9788ec5d1b842100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 15/26] fix: load empty tile layers of infinite TMX maps

---
 pytiled_parser/parsers/tmx/layer.py     | 22 ++++++++++++++++------
 pytiled_parser/parsers/tmx/tiled_map.py |  6 ++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index b8292c3..d7b55b4 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -209,11 +209,12 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     return common
 
 
-def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
+def _parse_tile_layer(raw_layer: etree.Element, infinite: bool = False) -> TileLayer:
     """Parse the raw_layer to a TileLayer.
 
     Args:
         raw_layer: XML Element to be parsed to a TileLayer.
+        infinite: Whether the layer is part of an infinite map.
 
     Returns:
         TileLayer: The TileLayer created from raw_layer
@@ -236,7 +237,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks:
+        if infinite and not raw_chunks and not (data_element.text or "").strip():
+            # An empty layer of an infinite map has no chunks
+            pass
+        elif not raw_chunks:
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
@@ -320,12 +324,16 @@ def _parse_image_layer(raw_layer: etree.Element) -> ImageLayer:
 
 
 def _parse_group_layer(
-    raw_layer: etree.Element, parent_dir: Optional[Path] = None
+    raw_layer: etree.Element,
+    parent_dir: Optional[Path] = None,
+    infinite: bool = False,
 ) -> LayerGroup:
     """Parse the raw_layer to a LayerGroup.
 
     Args:
         raw_layer: XML Element to be parsed to a LayerGroup.
+        parent_dir: The parent directory that the map file is in.
+        infinite: Whether the layer is part of an infinite map.
 
     Returns:
         LayerGroup: The LayerGroup created from raw_layer
@@ -333,7 +341,7 @@ def _parse_group_layer(
     layers: List[Layer] = []
     for layer in raw_layer:
         if layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
-            layers.append(parse(layer, parent_dir))
+            layers.append(parse(layer, parent_dir, infinite))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
@@ -341,6 +349,7 @@ def _parse_group_layer(
 def parse(
     raw_layer: etree.Element,
     parent_dir: Optional[Path] = None,
+    infinite: bool = False,
 ) -> Layer:
     """Parse a raw Layer into a pytiled_parser object.
 
@@ -349,6 +358,7 @@ def parse(
     Args:
         raw_layer: Raw layer to be parsed.
         parent_dir: The parent directory that the map file is in.
+        infinite: Whether the layer is part of an infinite map.
 
     Returns:
         Layer: A parsed Layer.
@@ -361,10 +371,10 @@ def parse(
     if type_ == "objectgroup":
         return _parse_object_layer(raw_layer, parent_dir)
     elif type_ == "group":
-        return _parse_group_layer(raw_layer, parent_dir)
+        return _parse_group_layer(raw_layer, parent_dir, infinite)
     elif type_ == "imagelayer":
         return _parse_image_layer(raw_layer)
     elif type_ == "layer":
-        return _parse_tile_layer(raw_layer)
+        return _parse_tile_layer(raw_layer, infinite)
     else:
         raise RuntimeError("Unknown layer type in map file!")
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 03ceeec..f322e92 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -70,14 +70,16 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, int(raw_tileset.attrib["firstgid"])
             )
 
+    infinite = bool(int(raw_map.attrib["infinite"]))
+
     layers = []
     for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
-            layers.append(parse_layer(element, parent_dir))
+            layers.append(parse_layer(element, parent_dir, infinite))
 
     map_ = TiledMap(
         map_file=file,
-        infinite=bool(int(raw_map.attrib["infinite"])),
+        infinite=infinite,
         layers=layers,
         map_size=Size(int(raw_map.attrib["width"]), int(raw_map.attrib["height"])),
         next_layer_id=int(raw_map.attrib["nextlayerid"]),
-- 
2.43.0


From 42cf897fdce0d0ae9da67a5f0286fa9f943d5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 16/26] fix: do not test the truth value of XML elements

Python warns about it, so that loading a TMX file printed warnings or failed
when warnings are shown or turned into errors (PYTHONWARNINGS, -W).
---
 pytiled_parser/parsers/tmx/tiled_map.py    | 2 +-
 pytiled_parser/parsers/tmx/tiled_object.py | 2 +-
 pytiled_parser/parsers/tmx/wang_set.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index f322e92..6d77934 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -153,7 +153,7 @@ def parse(file: Path) -> TiledMap:
         map_.hex_side_length = int(raw_map.attrib["hexsidelength"])
 
     properties_element = raw_map.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         map_.properties = parse_properties(properties_element)
 
     if raw_map.attrib.get("staggeraxis") is not None:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 2913e01..5bc66c2 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -55,7 +55,7 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         common.class_ = raw_object.attrib["class"]
 
     properties_element = raw_object.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         common.properties = parse_properties(properties_element)
 
     return common
diff --git a/pytiled_parser/parsers/tmx/wang_set.py b/pytiled_parser/parsers/tmx/wang_set.py
index 0789cb1..3401311 100644
--- a/pytiled_parser/parsers/tmx/wang_set.py
+++ b/pytiled_parser/parsers/tmx/wang_set.py
@@ -38,7 +38,7 @@ def _parse_wang_color(raw_wang_color: etree.Element) -> WangColor:
         wang_color.class_ = raw_wang_color.attrib["class"]
 
     properties = raw_wang_color.find("./properties")
-    if properties:
+    if properties is not None:
         wang_color.properties = parse_properties(properties)
 
     return wang_color
@@ -74,7 +74,7 @@ def parse(raw_wangset: etree.Element) -> WangSet:
         wangset.class_ = raw_wangset.attrib["class"]
 
     properties = raw_wangset.find("./properties")
-    if properties:
+    if properties is not None:
         wangset.properties = parse_properties(properties)
 
     return wangset
-- 
2.43.0


From 66d959989081f7a79302f166e6cae744c8703b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 17/26] fix: accept TMX objects which store only a width or
 only a height

Both attributes are optional and default to 0.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 5bc66c2..04b143f 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,10 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From 7e2c798c57eebee7e8c71fe62acefc94cfdc8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 18/26] fix: accept color properties which are not set

Tiled stores a color property without a color as empty text.
---
 pytiled_parser/parsers/json/properties.py | 2 +-
 pytiled_parser/parsers/tmx/properties.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/properties.py b/pytiled_parser/parsers/json/properties.py
index 62b2e17..e73c37a 100644
--- a/pytiled_parser/parsers/json/properties.py
+++ b/pytiled_parser/parsers/json/properties.py
@@ -43,7 +43,7 @@ def parse(raw_properties: List[RawProperty]) -> Properties:
         for raw_property in raw_properties:
             if raw_property["type"] == "file":
                 value = Path(cast(str, raw_property["value"]))
-            elif raw_property["type"] == "color":
+            elif raw_property["type"] == "color" and raw_property["value"]:
                 value = parse_color(cast(str, raw_property["value"]))
             else:
                 value = raw_property["value"]
diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index b38a729..b33e403 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -22,7 +22,7 @@ def parse(raw_properties: etree.Element) -> Properties:
 
         if type_ == "file":
             value = Path(value_)
-        elif type_ == "color":
+        elif type_ == "color" and value_:
             value = parse_color(value_)
         elif type_ == "int" or type_ == "float":
             value = float(value_)
-- 
2.43.0


From a26216c2b7987e2eb03e410684469a922500ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 19/26] fix: use the documented defaults of compression and
 draworder in JSON

---
 pytiled_parser/parsers/json/layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 367ca39..912e7b1 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -280,7 +280,9 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         for chunk in raw_layer["chunks"]:
             if raw_layer.get("encoding") is not None:
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk, raw_layer["encoding"], raw_layer.get("compression", "")
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
@@ -289,7 +291,7 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         if raw_layer.get("encoding") is not None:
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
@@ -318,7 +320,7 @@ def _parse_object_layer(
 
     return ObjectLayer(
         tiled_objects=objects,
-        draw_order=raw_layer["draworder"],
+        draw_order=raw_layer.get("draworder", "topdown"),
         **_parse_common(raw_layer).__dict__,
     )
 
-- 
2.43.0


From f953b5df901528dab332c19e2f65c8d8ee0d810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 20/26] fix: let objects override the text or shape of their
 template

---
 pytiled_parser/parsers/json/tiled_object.py | 14 +++++++++++++-
 pytiled_parser/parsers/tmx/tiled_object.py  | 11 +++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33285d3..6202092 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -74,6 +74,13 @@ RawObject.__doc__ = """
 """
 
 
+# Keys of which an object has only one
+SAME_KEYS = [
+    # The kind of the object
+    ["ellipse", "point", "polygon", "polyline", "text"],
+]
+
+
 def _parse_common(raw_object: RawObject) -> TiledObject:
     """Create an Object containing all the attributes common to all types of objects.
 
@@ -326,8 +333,13 @@ def parse(
                 raw_object["properties"] = list(properties.values())
 
             # What is stored on the object itself overrides the template
+            overridden = set(raw_object)
+            for same in SAME_KEYS:
+                if not overridden.isdisjoint(same):
+                    overridden.update(same)
+
             for key in loaded_template:
-                if key not in raw_object:
+                if key not in overridden:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
             raise NotImplementedError(
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 04b143f..c48a7dc 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -16,6 +16,9 @@ from pytiled_parser.tiled_object import (
 )
 from pytiled_parser.util import load_object_template, parse_color
 
+# The elements of an object which say what kind of object it is
+SHAPE_TAGS = ["ellipse", "point", "polygon", "polyline", "text"]
+
 
 def _parse_common(raw_object: etree.Element) -> TiledObject:
     """Create an Object containing all the attributes common to all types of objects.
@@ -272,11 +275,19 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
+                # What is stored on the object itself overrides the template
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
                     new_object.attrib[key] = val
 
+                shape = [child for child in raw_object if child.tag in SHAPE_TAGS]
+                if shape:
+                    for child in list(new_object):
+                        if child.tag in SHAPE_TAGS:
+                            new_object.remove(child)
+                    new_object.extend(shape)
+
                 properties_element = raw_object.find("./properties")
                 if properties_element is not None:
                     template_properties = new_object.find("./properties")
-- 
2.43.0


From 2f657d0072a40951f3f627e3f448b8fd5ce77035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 21/26] fix: take a tile id which overrides the template as an
 id of the map

---
 pytiled_parser/parsers/json/tiled_object.py | 5 +++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 6202092..d7a4c1d 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -332,6 +332,11 @@ def parse(
             if properties:
                 raw_object["properties"] = list(properties.values())
 
+            if "gid" in raw_object:
+                # This is a tile of the map, not of the template's tileset
+                new_tileset = None
+                new_tileset_path = None
+
             # What is stored on the object itself overrides the template
             overridden = set(raw_object)
             for same in SAME_KEYS:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index c48a7dc..de85d6f 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -288,6 +288,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                             new_object.remove(child)
                     new_object.extend(shape)
 
+                if "gid" in raw_object.attrib:
+                    # This is a tile of the map, not of the template's tileset
+                    new_tileset = None
+                    new_tileset_path = None
+
                 properties_element = raw_object.find("./properties")
                 if properties_element is not None:
                     template_properties = new_object.find("./properties")
-- 
2.43.0


From c69d39c6fa77388e41f082484685b9e3658ee442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 22/26] fix: let the class of an object override its template
 under either name

---
 pytiled_parser/parsers/json/tiled_object.py | 2 ++
 pytiled_parser/parsers/tmx/tiled_object.py  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index d7a4c1d..fe0ee0e 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -76,6 +76,8 @@ RawObject.__doc__ = """
 
 # Keys of which an object has only one
 SAME_KEYS = [
+    # The class, which has two names in different versions of Tiled
+    ["class", "type"],
     # The kind of the object
     ["ellipse", "point", "polygon", "polyline", "text"],
 ]
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index de85d6f..9080da8 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -276,6 +276,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
             new_object = template.find("./object")
             if new_object is not None:
                 # What is stored on the object itself overrides the template
+                if "class" in raw_object.attrib or "type" in raw_object.attrib:
+                    # The same setting has two names in different versions of Tiled
+                    new_object.attrib.pop("class", None)
+                    new_object.attrib.pop("type", None)
+
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
-- 
2.43.0


From 2e4e48af35b8349789fb0ae852fb1f4b942f98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 23/26] fix: keep the offset of a layer which stores only one
 part of it

---
 pytiled_parser/parsers/json/layer.py | 6 ++++--
 pytiled_parser/parsers/tmx/layer.py  | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 912e7b1..432aeae 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -233,8 +233,10 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
-    if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+    if raw_layer.get("offsetx") is not None or raw_layer.get("offsety") is not None:
+        common.offset = OrderedPair(
+            raw_layer.get("offsetx", 0), raw_layer.get("offsety", 0)
+        )
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index d7b55b4..e8a00af 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -175,9 +175,13 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
-    if raw_layer.attrib.get("offsetx") is not None:
+    if (
+        raw_layer.attrib.get("offsetx") is not None
+        or raw_layer.attrib.get("offsety") is not None
+    ):
         common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
+            float(raw_layer.attrib.get("offsetx", 0)),
+            float(raw_layer.attrib.get("offsety", 0)),
         )
 
     properties_element = raw_layer.find("./properties")
-- 
2.43.0


From 26c24c5edf78042e3e0dafc02effab8aec0a3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 24/26] fix: load TMX maps of Tiled versions which stored no
 next layer id

Tiled writes nextlayerid since 1.2, tiledversion since 1.0.1 and the
infinite attribute only as an option of later versions. The JSON parser
and the TiledMap class already take all of them as optional.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 6d77934..6da578d 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -70,23 +70,28 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, int(raw_tileset.attrib["firstgid"])
             )
 
-    infinite = bool(int(raw_map.attrib["infinite"]))
+    infinite = bool(int(raw_map.attrib.get("infinite", 0)))
 
     layers = []
     for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir, infinite))
 
+    # Tiled has been storing this since version 1.2
+    next_layer_id = None
+    if raw_map.attrib.get("nextlayerid") is not None:
+        next_layer_id = int(raw_map.attrib["nextlayerid"])
+
     map_ = TiledMap(
         map_file=file,
         infinite=infinite,
         layers=layers,
         map_size=Size(int(raw_map.attrib["width"]), int(raw_map.attrib["height"])),
-        next_layer_id=int(raw_map.attrib["nextlayerid"]),
+        next_layer_id=next_layer_id,
         next_object_id=int(raw_map.attrib["nextobjectid"]),
         orientation=raw_map.attrib["orientation"],
         render_order=raw_map.attrib["renderorder"],
-        tiled_version=raw_map.attrib["tiledversion"],
+        tiled_version=raw_map.attrib.get("tiledversion", ""),
         tile_size=Size(
             int(raw_map.attrib["tilewidth"]), int(raw_map.attrib["tileheight"])
         ),
-- 
2.43.0


From bddfa4f186f53ee6b39979503e86dfa8951c111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 25/26] fix: add the tileset of a template behind the highest
 tile id in use

The ids of a collection of images may have gaps, so they may be higher
than its number of tiles.
---
 pytiled_parser/parsers/json/tiled_map.py | 6 +++++-
 pytiled_parser/parsers/tmx/tiled_map.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 1a81caf..2d40e1f 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -171,7 +171,11 @@ def parse(file: Path) -> TiledMap:
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
-                            new_firstgid = highest_firstgid + last_tileset.tile_count
+                            # The ids of a collection of images may have gaps
+                            new_firstgid = highest_firstgid + max(
+                                last_tileset.tile_count,
+                                max(last_tileset.tiles or [-1]) + 1,
+                            )
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 6da578d..920abff 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -135,7 +135,11 @@ def parse(file: Path) -> TiledMap:
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
-                            new_firstgid = highest_firstgid + last_tileset.tile_count
+                            # The ids of a collection of images may have gaps
+                            new_firstgid = highest_firstgid + max(
+                                last_tileset.tile_count,
+                                max(last_tileset.tiles or [-1]) + 1,
+                            )
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From dea167814a6c0499829f61a863db698e8701b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 26/26] fix: tell the tilesets of templates by their files, not
 by their names

A template's tileset was taken for another tileset of the map which has
the same name, and the objects made from it showed tiles of that one.
---
 pytiled_parser/parsers/json/tiled_map.py | 18 +++++++++++-------
 pytiled_parser/parsers/tmx/tiled_map.py  | 18 +++++++++++-------
 pytiled_parser/util.py                   |  4 ++--
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 2d40e1f..e813537 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Iterator, List, Union, cast
+from typing import Dict, Iterator, List, Union, cast
 
 from typing_extensions import TypedDict
 
@@ -81,11 +81,14 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets: List[Union[RawTileSet, RawTilesetMapping]] = raw_tiled_map["tilesets"]
     tilesets: TilesetDict = {}
+    # Which file each external tileset is, by its first gid
+    tileset_files: Dict[int, Path] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.get("source") is not None:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
+            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
             parser = check_format(tileset_path)
             with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
@@ -155,15 +158,15 @@ def parse(file: Path) -> TiledMap:
                     # The tileset may be in another format than the map
                     if isinstance(tiled_object.new_tileset, dict):
                         parse_new_tileset = parse_json_tileset
-                        new_tileset_name = tiled_object.new_tileset["name"]
                     else:
                         parse_new_tileset = parse_tmx_tileset
-                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
 
+                    # Names do not tell, different tilesets may have the same one
+                    new_tileset_file = tiled_object.new_tileset_path.resolve()
                     already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_tileset_name:
-                            already_loaded = val
+                    for firstgid, tileset_file in tileset_files.items():
+                        if tileset_file == new_tileset_file:
+                            already_loaded = map_.tilesets[firstgid]
                             break
 
                     if not already_loaded:
@@ -179,8 +182,9 @@ def parse(file: Path) -> TiledMap:
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-                            tiled_object.new_tileset_path,
+                            tiled_object.new_tileset_path.parent,
                         )
+                        tileset_files[new_firstgid] = new_tileset_file
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 920abff..1a89fbb 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Iterator, List
+from typing import Dict, Iterator, List
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
@@ -39,11 +39,14 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets = raw_map.findall("./tileset")
     tilesets: TilesetDict = {}
+    # Which file each external tileset is, by its first gid
+    tileset_files: Dict[int, Path] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.attrib.get("source") is not None:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
+            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
             parser = check_format(tileset_path)
             with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
@@ -119,15 +122,15 @@ def parse(file: Path) -> TiledMap:
                     # The tileset may be in another format than the map
                     if isinstance(tiled_object.new_tileset, dict):
                         parse_new_tileset = parse_json_tileset
-                        new_tileset_name = tiled_object.new_tileset["name"]
                     else:
                         parse_new_tileset = parse_tmx_tileset
-                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
 
+                    # Names do not tell, different tilesets may have the same one
+                    new_tileset_file = tiled_object.new_tileset_path.resolve()
                     already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_tileset_name:
-                            already_loaded = val
+                    for firstgid, tileset_file in tileset_files.items():
+                        if tileset_file == new_tileset_file:
+                            already_loaded = map_.tilesets[firstgid]
                             break
 
                     if not already_loaded:
@@ -143,8 +146,9 @@ def parse(file: Path) -> TiledMap:
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-                            tiled_object.new_tileset_path,
+                            tiled_object.new_tileset_path.parent,
                         )
+                        tileset_files[new_firstgid] = new_tileset_file
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index d74a1c1..01378f2 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -59,14 +59,14 @@ def load_object_template(file_path: Path) -> Any:
             if tileset_element is not None:
                 tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
     else:
         with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
 
     return (template, new_tileset, new_tileset_path)
 
-- 
2.43.0

