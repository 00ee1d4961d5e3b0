From 15d9ade79604fc7f87d6fc3aacb07b11dc7f411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:46 +0000
Subject: [PATCH 01/20] fix: saving to a bare file name failed creating a
 directory named ''

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..6b17604 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,7 +218,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -254,7 +254,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From ab81a871dd7a5187d13147c84cdb843495b3bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:50 +0000
Subject: [PATCH 02/20] fix: concurrent saves into a new directory failed when
 both created it

---
 spine_json_lib/spine_animation_editor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6b17604..f52b9d5 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,8 +218,8 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if base_dir and not os.path.isdir(base_dir):
-            os.makedirs(base_dir)
+        if base_dir:
+            os.makedirs(base_dir, exist_ok=True)
 
         with open(output_json, "w") as outfile:
             json.dump(self.to_json_data(), outfile, indent=4)
@@ -254,8 +254,8 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if base_dir and not os.path.isdir(base_dir):
-            os.makedirs(base_dir)
+        if base_dir:
+            os.makedirs(base_dir, exist_ok=True)
 
         with open(images_json, "w") as outfile:
             json.dump(self.images_references, outfile)
-- 
2.43.0


From 82bf792a7587b4116c836aed4926cfd253b5668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 03/20] fix: an interrupted save destroyed the file it was
 replacing

---
 spine_json_lib/spine_animation_editor.py |  5 +++--
 spine_json_lib/utils.py                  | 25 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index f52b9d5..9c1581a 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -14,6 +14,7 @@ from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
 from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, NodeType
 from spine_json_lib.spine_graph_container import SpineGraphContainer
+from spine_json_lib.utils import atomic_write
 
 ANIMATION_EMPTY_ATTACHMENT = {"time": 0, "name": None}
 ErasingResult = namedtuple("ErasingResult", "result_data_json result_summary")
@@ -221,7 +222,7 @@ class SpineAnimationEditor(object):
         if base_dir:
             os.makedirs(base_dir, exist_ok=True)
 
-        with open(output_json, "w") as outfile:
+        with atomic_write(output_json) as outfile:
             json.dump(self.to_json_data(), outfile, indent=4)
 
     def get_images_references(self):
@@ -257,7 +258,7 @@ class SpineAnimationEditor(object):
         if base_dir:
             os.makedirs(base_dir, exist_ok=True)
 
-        with open(images_json, "w") as outfile:
+        with atomic_write(images_json) as outfile:
             json.dump(self.images_references, outfile)
 
     def _erase_raw_animations_data(
diff --git a/spine_json_lib/utils.py b/spine_json_lib/utils.py
index 87170e6..92ad88b 100644
--- a/spine_json_lib/utils.py
+++ b/spine_json_lib/utils.py
@@ -1,4 +1,7 @@
+import os
 import re
+import threading
+from contextlib import contextmanager, suppress
 from typing import List, Any
 
 SEPARATOR = ":"
@@ -65,3 +68,25 @@ def get_tags_from_name(name):
         tags_result[tag_name] = cast_element(tag_value, tag_type)
 
     return tags_result
+
+
+@contextmanager
+def atomic_write(path):
+    """
+    Open a text file for writing that takes the place of @path only when everything
+    has been written. Whatever interrupts the writing, @path holds either its previous
+    content or the complete new one.
+    """
+    target = os.path.realpath(path)
+    # Every writer needs its own temporary file, in the same file system as the target
+    temp_path = "{}.{}.{}.tmp".format(target, os.getpid(), threading.get_ident())
+    try:
+        with open(temp_path, "w", encoding="utf-8") as outfile:
+            yield outfile
+            outfile.flush()
+            os.fsync(outfile.fileno())
+        os.replace(temp_path, target)
+    except BaseException:
+        with suppress(OSError):
+            os.unlink(temp_path)
+        raise
-- 
2.43.0


From e0677b371e95ad5919d8555016ad00b905812c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:00 +0000
Subject: [PATCH 04/20] fix: a document saved without any slot left could not
 be opened again

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..663086a 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -62,7 +62,7 @@ class SpineAnimationData(SpineData):
         del _data["skeleton"]
 
         self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.slots: List[Slot] = [Slot(value) for value in _data.get("slots", [])]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
             Skin38(value) for value in _data["skins"]
         ]
-- 
2.43.0


From a3865855fe4f7797d07b78f302028da75ca26026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:05 +0000
Subject: [PATCH 05/20] fix: files were read in the default encoding of the
 host instead of UTF-8

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 spine_json_lib/spine_animation_editor.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..fd5bc40 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -125,7 +125,7 @@ class SpineGraphParser(IGraphParser):
         cls, json_file: str, node_factory: SpineNodeFactory
     ) -> DAGraph:
         # Parse json
-        with open(json_file) as f:
+        with open(json_file, encoding="utf-8") as f:
             json_data = json.load(f)
 
         return SpineGraphParser.create_from_json_data(
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 9c1581a..a47ee13 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -59,7 +59,7 @@ class SpineAnimationEditor(object):
 
     @staticmethod
     def from_json_file(json_path: str) -> SpineAnimationEditorType:
-        with open(json_path) as f:
+        with open(json_path, encoding="utf-8") as f:
             spine_json_data = json.load(f)
 
         return SpineAnimationEditor(json_data=spine_json_data)
-- 
2.43.0


From 7878117917992321b98bf6536ffe44948122daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 06/20] fix: cleaning up undid an earlier scaling by restoring
 bones from a stale graph

---
 spine_json_lib/spine_animation_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index a47ee13..11a4834 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -142,6 +142,9 @@ class SpineAnimationEditor(object):
         - We cannot remove BONES because it affect the weight on meshes and the vertices
         information saved in the binary.
         """
+        # Bones, slots and iks are taken from the graph below, so it has to be up to date
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
+
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
-- 
2.43.0


From 3e015594135472dc1aae80d2ab1b9d85ed951ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 07/20] fix: an edit that raised left the session half changed

---
 spine_json_lib/spine_animation_editor.py | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 11a4834..2b523b9 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -1,4 +1,5 @@
 import copy
+import functools
 import json
 import os
 from collections import namedtuple
@@ -20,6 +21,29 @@ ANIMATION_EMPTY_ATTACHMENT = {"time": 0, "name": None}
 ErasingResult = namedtuple("ErasingResult", "result_data_json result_summary")
 
 
+def all_or_nothing(edit):
+    """
+    Decorator for the edits of SpineAnimationEditor: one that raises leaves the
+    animation, its images references and its graph as they were before.
+    """
+
+    @functools.wraps(edit)
+    def wrapper(self, *args, **kwargs):
+        spine_anim_data = copy.deepcopy(self.spine_anim_data)
+        # These two are never modified in place by an edit, only replaced
+        images_references = self.images_references
+        spine_graph = self.spine_graph
+        try:
+            return edit(self, *args, **kwargs)
+        except BaseException:
+            self.spine_anim_data = spine_anim_data
+            self.images_references = images_references
+            self.spine_graph = spine_graph
+            raise
+
+    return wrapper
+
+
 class AnimationEraserResult:
     def __init__(self):
         self.nodes_erased = {}
@@ -64,6 +88,7 @@ class SpineAnimationEditor(object):
 
         return SpineAnimationEditor(json_data=spine_json_data)
 
+    @all_or_nothing
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
         images_skins_refs = []
         skin_attachments_removed = {}
@@ -102,6 +127,7 @@ class SpineAnimationEditor(object):
 
         return removed_data, images_to_remove
 
+    @all_or_nothing
     def erase_animations(
         self,
         animations_to_erase: List[str],
@@ -131,6 +157,7 @@ class SpineAnimationEditor(object):
             removed_data = self.clean_animation()
         return ErasingResult(self.spine_anim_data.to_json_data(), removed_data)
 
+    @all_or_nothing
     def clean_animation(self):
         """
         - This method clean empty SLOTS and ATTACHMENTS that are not being
@@ -202,6 +229,7 @@ class SpineAnimationEditor(object):
         self._clean_attachments_in_skins(attachment_ids=attachments_ids)
         self._clean_attachments_in_slots(attachments_ids=attachments_ids)
 
+    @all_or_nothing
     def scale_animation(self, scaleX, scaleY):
         # To scale the animation we have to scale the root bone,
         # but also all the bones with 'noScale', 'onlyTranslation' and 'noScaleOrReflection'
-- 
2.43.0


From f9a8cf2a8b97f1855c8c7511333890b6548b0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 08/20] fix: edits failed when the standard output could not
 represent a name

---
 spine_json_lib/spine_animation_editor.py |  8 ++++----
 spine_json_lib/utils.py                  | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 2b523b9..5c00690 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -15,7 +15,7 @@ from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
 from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, NodeType
 from spine_json_lib.spine_graph_container import SpineGraphContainer
-from spine_json_lib.utils import atomic_write
+from spine_json_lib.utils import atomic_write, report
 
 ANIMATION_EMPTY_ATTACHMENT = {"time": 0, "name": None}
 ErasingResult = namedtuple("ErasingResult", "result_data_json result_summary")
@@ -199,7 +199,7 @@ class SpineAnimationEditor(object):
         self.remove_slots(
             slots_ids=slots_to_remove, original_slots=slots_before_removing
         )
-        print("Removed slots {}".format(slots_to_remove))
+        report("Removed slots {}".format(slots_to_remove))
 
         self.remove_attachments(attachments_ids=attachments_to_remove)
         detached_attachments = self.spine_graph.remove_heads_of_type(
@@ -208,7 +208,7 @@ class SpineAnimationEditor(object):
         detached_attachments += self.spine_graph.remove_leafs_of_type(
             NodeType.ATTACHMENT.name
         )
-        print(
+        report(
             "Removed attachments {}".format(
                 list(attachments_to_remove) + detached_attachments
             )
@@ -319,7 +319,7 @@ class SpineAnimationEditor(object):
                 del copy_json[img_id]
 
         if removed_images:
-            print("Removed images: {}".format(removed_images))
+            report("Removed images: {}".format(removed_images))
 
         self.images_references = copy_json
 
diff --git a/spine_json_lib/utils.py b/spine_json_lib/utils.py
index 92ad88b..e319198 100644
--- a/spine_json_lib/utils.py
+++ b/spine_json_lib/utils.py
@@ -1,5 +1,6 @@
 import os
 import re
+import sys
 import threading
 from contextlib import contextmanager, suppress
 from typing import List, Any
@@ -90,3 +91,15 @@ def atomic_write(path):
         with suppress(OSError):
             os.unlink(temp_path)
         raise
+
+
+def report(message):
+    """
+    Print @message, with escapes in place of the characters that the standard output
+    cannot represent.
+    """
+    try:
+        print(message)
+    except UnicodeEncodeError:
+        encoding = sys.stdout.encoding
+        print(message.encode(encoding, "backslashreplace").decode(encoding))
-- 
2.43.0


From cec8c9b36541ce4889787a9503f0d76ff9c58080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:33 +0000
Subject: [PATCH 09/20] fix: the images references listed removed images and
 lacked used ones

---
 spine_json_lib/spine_animation_editor.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 5c00690..5ec6303 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -123,7 +123,7 @@ class SpineAnimationEditor(object):
             removed_data = [], []
         else:
             removed_data = self.clean_animation()
-        self._clean_images_references(images_ids=images_to_remove)
+        self._clean_images_references()
 
         return removed_data, images_to_remove
 
@@ -214,10 +214,10 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
+        self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
 
         # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        self._clean_images_references()
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
@@ -310,18 +310,16 @@ class SpineAnimationEditor(object):
                 )
             )
 
-    def _clean_images_references(self, images_ids: List[str]) -> None:
-        copy_json = copy.deepcopy(self.images_references)
-        removed_images = []
-        for img_id, img_abs_path in self.images_references.items():
-            if img_id in images_ids:
-                removed_images.append(img_id)
-                del copy_json[img_id]
+    def _clean_images_references(self) -> None:
+        current_images = self.get_images_references()
+        removed_images = [
+            img_id for img_id in self.images_references if img_id not in current_images
+        ]
 
         if removed_images:
             report("Removed images: {}".format(removed_images))
 
-        self.images_references = copy_json
+        self.images_references = current_images
 
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
         skins_data = copy.deepcopy(self.spine_anim_data.data.skins)
-- 
2.43.0


From 2c584a50a7b7cf61e0530019b50be788fa7abdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:12 +0000
Subject: [PATCH 10/20] fix: names containing a node type were mangled when
 removed from the graph

---
 spine_json_lib/deserializer/spine_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index fd5bc40..43158e3 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,6 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        if graph_id.endswith(_suffix):
+            return graph_id[: -len(_suffix)]
+        return graph_id
-- 
2.43.0


From bc49225cc1a75f05da0dd68bf3213ce86626c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:17 +0000
Subject: [PATCH 11/20] fix: slots lost their default attachment when another
 attachment's name was like its graph id

---
 spine_json_lib/spine_animation_editor.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 5ec6303..e706cde 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -356,12 +356,8 @@ class SpineAnimationEditor(object):
         copy_slots_data = copy.deepcopy(self.spine_anim_data.data.slots)
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
-            if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
-                    copy_slots_data[slot_idx].attachment = None
+            if default_attachment_id in attachments_ids:
+                copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
 
-- 
2.43.0


From d57394c91f74be56ed4efe6f8ef06ded27f3210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:22 +0000
Subject: [PATCH 12/20] fix: linked meshes lost their parent or their color
 when its skin was erased

---
 spine_json_lib/data/spine_anim_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 663086a..018c349 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -146,20 +146,21 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or "default") == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From 6c14a44c25af5903355bf85e41cb6e70b9de46c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:27 +0000
Subject: [PATCH 13/20] fix: cleaning up removed meshes of visible slots that
 share their id with an unused attachment

---
 spine_json_lib/data/spine_anim_data.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 018c349..f79ab36 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -303,6 +303,15 @@ class SpineAnimationData(SpineData):
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
 
+        # Attachments are erased by id: the id of a skin mesh whose slot is visible has to be kept
+        visible_meshes_ids = frozenset(
+            attachment_id
+            for skin in self.skins
+            for slot_id, attachment_data in skin.attachments.items()
+            for attachment_id, attachment in attachment_data.items()
+            if isinstance(attachment, SkinMesh) and slot_id not in invisible_slots
+        )
+
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
             for slot_id, attachment_data in skin.attachments.items():
@@ -311,10 +320,7 @@ class SpineAnimationData(SpineData):
                 for attachment_id in attachments_ids:
                     if attachment_id not in l_attachments_used:
                         # Avoid removing skinmeshes if parent slot is visible...
-                        if (
-                            isinstance(attachment_data[attachment_id], SkinMesh)
-                            and slot_id not in invisible_slots
-                        ):
+                        if attachment_id in visible_meshes_ids:
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-- 
2.43.0


From 20b35163c20da79100462f681ba4c953991daeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:11 +0000
Subject: [PATCH 14/20] fix: cleaning up removed the slots and paths that path
 constraints follow

---
 spine_json_lib/data/spine_anim_data.py   | 12 ++++++++++++
 spine_json_lib/spine_animation_editor.py |  6 +++++-
 spine_json_lib/spine_graph_container.py  | 19 +++++++++++++++----
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index f79ab36..f01169d 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -13,6 +13,7 @@ from spine_json_lib.data.data_types.skin import (
     SkinLinkedMesh,
     SkinAttachment,
     SkinMesh,
+    SkinPath,
 )
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
 from spine_json_lib.data.data_types.transform import Transform
@@ -299,6 +300,17 @@ class SpineAnimationData(SpineData):
                 (lambda x, y: x | y), anim_used_attachments.values()
             )
 
+        # Path constraints need the slot of the path they follow, and its paths
+        path_slots = frozenset(path.target for path in self.path)
+        visible_slots |= slots_set & path_slots
+        l_attachments_used |= frozenset(
+            attachment_id
+            for skin in self.skins
+            for slot_id, attachment_data in skin.attachments.items()
+            for attachment_id, attachment in attachment_data.items()
+            if isinstance(attachment, SkinPath) and slot_id in path_slots
+        )
+
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index e706cde..2d024c6 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -185,7 +185,11 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        # unless a path constraint follows them
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=[path.target for path in self.spine_anim_data.data.path],
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..7c6daad 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -56,13 +56,24 @@ class SpineGraphContainer(object):
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=()) -> List[str]:
         """
         Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        but the ones in @ids_to_keep, and return the list of ids
         """
+        graph_ids_to_keep = [
+            SpineGraphParser._to_graph_id(type_name, base_id) for base_id in ids_to_keep
+        ]
+
+        def get_leafs_to_remove():
+            return [
+                s_id
+                for s_id in self.get_leafs_of_type(node_type=type_name)
+                if s_id not in graph_ids_to_keep
+            ]
+
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = get_leafs_to_remove()
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +83,7 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = get_leafs_to_remove()
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From a8dccb87e7746fb998fb762515098e016bc7ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:16 +0000
Subject: [PATCH 15/20] fix: cleaning up changed the draw order by leaving out
 slots with offset 0

---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..c04e6ef 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -82,7 +82,7 @@ class DrawOrderTimeline(SpineData):
         return [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
-- 
2.43.0


From 88bffb4b80d8ee4fe51b9075d8d47da6ee4e4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:21 +0000
Subject: [PATCH 16/20] fix: cleaning up failed when an animation shows no slot

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index f01169d..04cdf70 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -297,7 +297,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset()
             )
 
         # Path constraints need the slot of the path they follow, and its paths
-- 
2.43.0


From e23d7ee90c4e527d59cfb56ca4e39155e0bb2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:26 +0000
Subject: [PATCH 17/20] fix: a root bone that does not inherit scale was scaled
 twice

---
 spine_json_lib/spine_animation_editor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 2d024c6..9e53e3c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -239,11 +239,16 @@ class SpineAnimationEditor(object):
         # but also all the bones with 'noScale', 'onlyTranslation' and 'noScaleOrReflection'
         # attributes as these don't inherit scale from parent roots
         spine_data = self.spine_anim_data.data
+        root_bone = spine_data.get_bone("root")
         for bone in spine_data.bones:
 
-            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
+            if bone is not root_bone and bone.transform in [
+                "noScale",
+                "noScaleOrReflection",
+                "onlyTranslation",
+            ]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
-        spine_data.get_bone("root").scale(scaleX=scaleX, scaleY=scaleY)
+        root_bone.scale(scaleX=scaleX, scaleY=scaleY)
 
     @property
     def spine_version(self):
-- 
2.43.0


From f138ccdb133410885eef077633c0fefd53f57ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:31 +0000
Subject: [PATCH 18/20] fix: attributes were lost because of defaults that are
 not the ones of the format

---
 spine_json_lib/data/data_types/events.py    | 6 ++----
 spine_json_lib/data/data_types/path.py      | 6 +++---
 spine_json_lib/data/data_types/transform.py | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..654db7f 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,13 +18,11 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
+    # int, float and string have no fixed default: they are inherited from the event
+    DEFAULT_VALUES = {"name": ""}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
         "audio": "",
         "volume": 1,
         "balance": 0,
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From 58f12179ebe5268934370898e0859267a422acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 19/20] fix: opening a document with a cycle of bones never
 ended

---
 spine_json_lib/data/spine_anim_data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 04cdf70..ce57359 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -18,7 +18,10 @@ from spine_json_lib.data.data_types.skin import (
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
 from spine_json_lib.data.data_types.transform import Transform
 from spine_json_lib.data.data_types.base_type import SpineData
-from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
+from spine_json_lib.data.spine_exceptions import (
+    SpineJsonEditorError,
+    SpineParsingException,
+)
 from spine_json_lib.data.spine_version_type import SpineVersion
 
 
@@ -99,9 +102,15 @@ class SpineAnimationData(SpineData):
         """
         result_scale = 1.0
         iter_bone = bone
+        visited_bones = []
 
         # This will iterate every bone up in tree looking for 'scale' until we found the root
         while iter_bone.name != "root":
+            if iter_bone.name in visited_bones:
+                raise SpineParsingException(
+                    message="Bone {} is its own ancestor".format(iter_bone.name)
+                )
+            visited_bones.append(iter_bone.name)
             b_scale = iter_bone.get_scale_in_name()
             result_scale *= b_scale
             iter_bone = self.get_bone(iter_bone.parent)
-- 
2.43.0


From 952e6259a2c5fafdd9efe13f4e0b6e9fca82da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 20/20] fix: the unused images reported when erasing skins were
 incomplete and could be None

---
 spine_json_lib/data/spine_anim_data.py   |  9 ++++-----
 spine_json_lib/spine_animation_editor.py | 12 ++++--------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index ce57359..d2bd5ae 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -180,12 +180,11 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
-                    if image_path is not None:
-                        removed_attachments.setdefault(attachment_id, {})
-                        removed_attachments[attachment_id][slot_id] = image_path
+                    image_path = slot_data.path or slot_data.name or slot_id
+                    removed_attachments.setdefault(attachment_id, {})
+                    removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 9e53e3c..ef8bc38 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -110,14 +110,10 @@ class SpineAnimationEditor(object):
                     images_skins_refs.append(attachment_path)
 
         # Check which attachments are not being used in the remaining skins
-        images_to_remove = []
-
-        for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
-                images_to_remove.append(img)
+        current_images = self.get_images_references()
+        images_to_remove = [
+            img for img in images_skins_refs if img not in current_images
+        ]
 
         if is_safe_mode:
             removed_data = [], []
-- 
2.43.0

