From dc5c398d445d0a54c8b6fcf2478492e1e8c1b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 01/35] fix: write the updated archive next to its destination
 and replace it atomically

'skops update' wrote its temporary file to tmp_dir / f'{output_file}.tmp'. For a
relative destination in a sub-directory that path does not exist; for an absolute
destination it is outside of the temporary directory and is left behind on
failure; and moving it from another filesystem copies over the destination, so
that an interruption leaves a partial file.
---
 skops/cli/_update.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..100687f 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -74,10 +74,14 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    # The temporary file has to be on the same filesystem as the destination,
+    # otherwise it cannot be moved there atomically. Hence place it in a
+    # temporary directory next to the destination.
+    output_path = Path(output_file)
+    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / f"{output_path.name}.tmp"
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_path)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From 577b76b4114bd9ade3490233916bc1e0293088aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:51 +0000
Subject: [PATCH 02/35] fix: load defaultdicts whose keys are not str

---
 skops/io/_general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..5553b8b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -116,7 +116,8 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
+        # pass the items as a mapping, since keys don't have to be str
+        instance = defaultdict(None, self.children["main"].construct())
         instance.default_factory = self.children["default_factory"].construct()
         return instance
 
-- 
2.43.0


From 09824e263a42cded67f503fdd31d5b53aa8fce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:51 +0000
Subject: [PATCH 03/35] fix: keep the type of numpy.bytes_ scalars

---
 skops/io/_general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 5553b8b..3ba7f23 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -613,6 +613,9 @@ class BytesNode(Node):
 
     def _construct(self):
         content = self.children["content"].getvalue()
+        if f"{self.module_name}.{self.class_name}" == "numpy.bytes_":
+            # numpy.bytes_ is a subclass of bytes and thus stored like bytes
+            content = np.bytes_(content)
         return content
 
     def format(self):
-- 
2.43.0


From e3d0d6870efe3d5a592ec79909c97c33fab8ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 04/35] fix: restore dict keys that JSON object names cannot
 represent

---
 skops/io/_general.py | 50 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 3ba7f23..643bb89 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -43,20 +43,47 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "DictNode",
     }
 
-    key_types = get_state([type(key) for key in obj.keys()], save_context)
-    content = {}
+    key_types = [type(key) for key in obj.keys()]
+    keys, names, values = [], [], []
     for key, value in obj.items():
         if isinstance(value, property):
             continue
+        keys.append(key)
         if np.isscalar(key) and hasattr(key, "item"):
             # convert numpy value to python object
             key = key.item()  # type: ignore
-        content[key] = get_state(value, save_context)
-    res["content"] = content
-    res["key_types"] = key_types
+        names.append(key)
+        values.append(get_state(value, save_context))
+
+    if not _are_exact_json_keys(names) and all(map(_is_json_or_numpy_scalar, keys)):
+        # The keys can't be told apart or restored once they are the (str) names
+        # of a JSON object, so store the keys themselves, next to the values.
+        res["keys"] = get_state(keys, save_context)
+        names = list(range(len(keys)))
+        key_types = []
+
+    res["content"] = dict(zip(names, values))
+    res["key_types"] = get_state(key_types, save_context)
     return res
 
 
+def _is_json_or_numpy_scalar(key: Any) -> bool:
+    return key is None or isinstance(key, (str, int, float, np.number, np.bool_))
+
+
+def _are_exact_json_keys(keys: Sequence[Any]) -> bool:
+    # Whether the keys are still distinct, and can be converted back by calling
+    # their type, after being written as the names of a JSON object.
+    if all(isinstance(key, str) for key in keys):
+        return True
+    if not all(
+        isinstance(key, (str, int, float)) and not isinstance(key, bool)
+        for key in keys
+    ):
+        return False
+    return len(json.loads(json.dumps(dict.fromkeys(keys)))) == len(keys)
+
+
 class DictNode(Node):
     def __init__(
         self,
@@ -73,9 +100,22 @@ class DictNode(Node):
                 for key, value in state["content"].items()
             },
         }
+        if "keys" in state:
+            self.children["keys"] = get_tree(
+                state["keys"], load_context, trusted=trusted
+            )
 
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
+        if "keys" in self.children:
+            keys = self.children["keys"].construct()
+            for key, val in zip(keys, self.children["content"].values()):
+                if key in content:
+                    # only NaNs repeat, use another object to keep them apart
+                    key = -(-key)
+                content[key] = val.construct()
+            return content
+
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
             content[k_type(key)] = val.construct()
-- 
2.43.0


From effab8c3ac5a7e2bb94b5de35a4a2caeeefaac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 05/35] fix: restore random states over any bit generator, and
 nothing but bit generators

---
 skops/io/_numpy.py        | 22 +++++++++++++++++-----
 skops/io/old/_numpy_v0.py |  5 +++--
 skops/io/old/_numpy_v1.py |  5 ++---
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..ebf4193 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -154,6 +154,18 @@ def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any
     return res
 
 
+def get_bit_generator_cls(name: Any) -> Any:
+    """Get the class of a bit generator from its name.
+
+    The name is part of the archive, thus don't resolve anything but the classes
+    of bit generators.
+    """
+    cls = getattr(np.random, name, None) if isinstance(name, str) else None
+    if not (isinstance(cls, type) and issubclass(cls, np.random.BitGenerator)):
+        raise ValueError(f"Unknown bit generator {name!r}.")
+    return cls
+
+
 class RandomStateNode(Node):
     def __init__(
         self,
@@ -169,8 +181,10 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        content = self.children["content"].construct()
+        bit_generator_cls = get_bit_generator_cls(content["bit_generator"])
+        random_state = gettype(self.module_name, self.class_name)(bit_generator_cls())
+        random_state.set_state(content)
         return random_state
 
 
@@ -214,9 +228,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..fc64b90 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
+from skops.io._numpy import get_bit_generator_cls
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 0
@@ -23,8 +24,8 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
+        bit_generator = get_bit_generator_cls(
+            self.children["bit_generator_state"]["bit_generator"]
         )()
         bit_generator.state = self.children["bit_generator_state"]
 
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..6a44f13 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
+from skops.io._numpy import get_bit_generator_cls
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 1
@@ -28,9 +29,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From ddc2d3cf08eda12c679077f20a8e7391be63c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 06/35] fix: dump generators whose bit generator has no seed
 sequence

---
 skops/io/_numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index ebf4193..3902192 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -190,7 +190,9 @@ class RandomStateNode(Node):
 
 def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     bit_generator_state = get_state(obj.bit_generator.state, save_context)
-    seed_seq_state = get_state(obj.bit_generator.seed_seq.state, save_context)
+    # legacy seeded bit generators don't have a seed sequence
+    seed_seq = obj.bit_generator.seed_seq
+    seed_seq_state = get_state(seed_seq and seed_seq.state, save_context)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -225,7 +227,7 @@ class RandomGeneratorNode(Node):
             "SeedSequence",
         )
         seed_seq_state = self.children["seed_seq_state"].construct()
-        seed_seq = seed_seq_cls(**seed_seq_state)
+        seed_seq = seed_seq_cls(**seed_seq_state) if seed_seq_state else None
 
         bit_generator_state = self.children["bit_generator_state"].construct()
         bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
-- 
2.43.0


From a104fca842c49052394e87b847389c933fd7d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 07/35] fix: keep the shape of subarray dtypes

---
 skops/io/_numpy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 3902192..2b98411 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -241,13 +241,17 @@ class RandomGeneratorNode(Node):
 def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
-    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    # Arrays cannot have a subarray dtype, which can only be part of a field.
+    is_subarray = obj.subdtype is not None
+    tmp: np.typing.NDArray = np.ndarray(0, dtype=[("", obj)] if is_subarray else obj)
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
         "__loader__": "DTypeNode",
         "content": get_state(tmp, save_context),
     }
+    if is_subarray:
+        res["subarray"] = True
     return res
 
 
@@ -262,13 +266,15 @@ class DTypeNode(Node):
         self.children = {
             "content": get_tree(state["content"], load_context, trusted=trusted)
         }
+        self.is_subarray = "subarray" in state
         # TODO: what should we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        return self.children["content"].construct().dtype
+        dtype = self.children["content"].construct().dtype
+        return dtype[0] if self.is_subarray else dtype
 
 
 # tuples of type and function that gets the state of that type
-- 
2.43.0


From 64295dc755c346216354e41d9a64e0abfcf0b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 08/35] fix: store a masked array that is referenced several
 times only once

---
 skops/io/_numpy.py | 7 +++++--
 skops/io/_utils.py | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 2b98411..d61c8a6 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -111,13 +111,16 @@ class NdArrayNode(Node):
 
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    # data and mask are new views each time they're accessed, so use the same ones
+    # if the masked array is encountered again, to store it only once
+    data, mask = save_context.views.setdefault(id(obj), (obj.data, obj.mask))
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "MaskedArrayNode",
         "content": {
-            "data": get_state(obj.data, save_context),
-            "mask": get_state(obj.mask, save_context),
+            "data": get_state(data, save_context),
+            "mask": get_state(mask, save_context),
         },
     }
     return res
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..0298a3e 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -110,6 +110,8 @@ class SaveContext:
     zip_file: ZipFile
     protocol: int = PROTOCOL
     memo: dict[int, Any] = field(default_factory=dict)
+    # views of memoized objects, by the id of the object
+    views: dict[int, Any] = field(default_factory=dict)
 
     def memoize(self, obj: Any) -> int:
         # Currently, the only purpose for saving the object id is to make sure
@@ -123,6 +125,7 @@ class SaveContext:
 
     def clear_memo(self) -> None:
         self.memo.clear()
+        self.views.clear()
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From d383d04e2349fe650bb8763ca6a1a5dbf72a20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 09/35] fix: keep the fill value and the hard mask of masked
 arrays

---
 skops/io/_numpy.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index d61c8a6..f9a85c7 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -123,6 +123,12 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
             "mask": get_state(mask, save_context),
         },
     }
+    if obj._fill_value is not None and (
+        str(obj.fill_value) != str(np.ma.default_fill_value(obj))
+    ):
+        res["content"]["fill_value"] = get_state(obj.fill_value, save_context)
+    if obj.hardmask:
+        res["content"]["hard_mask"] = get_state(obj.hardmask, save_context)
     return res
 
 
@@ -139,11 +145,21 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        for key in ("fill_value", "hard_mask"):
+            if key in state["content"]:
+                self.children[key] = get_tree(
+                    state["content"][key], load_context, trusted=trusted
+                )
 
     def _construct(self):
         data = self.children["data"].construct()
         mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        options = {
+            key: self.children[key].construct()
+            for key in ("fill_value", "hard_mask")
+            if key in self.children
+        }
+        return np.ma.MaskedArray(data, mask, **options)
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From 5454ed37fa8d6fed154130763656791bb5d6015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 10/35] fix: trust numpy.bytes_ scalars like all numpy scalars

---
 skops/io/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 643bb89..08be52c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -648,7 +648,7 @@ class BytesNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = self._get_trusted(trusted, [bytes])
+        self.trusted = self._get_trusted(trusted, [bytes, np.bytes_])
         self.children = {"content": io.BytesIO(load_context.src.read(state["file"]))}
 
     def _construct(self):
-- 
2.43.0


From 0ed705eb6a78edd74abfecfa056e2cab231b63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 11/35] fix: don't mix ids of the loading process with those of
 the archive

---
 skops/io/_sklearn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..13fad17 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -165,7 +165,7 @@ class ReduceNode(Node):
                 {
                     "__class__": constructor.__name__,
                     "__module__": get_module(constructor),
-                    "__id__": id(constructor),
+                    # no __id__, it could be the id of another node
                 },
                 load_context,
                 trusted=trusted,
-- 
2.43.0


From 197bb9e1a024b0a18f02bc5150ca622e8731e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 12/35] fix: keep unit separator characters in section names

---
 skops/card/_model_card.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..143ad8d 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,9 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    # only split on slashes that are not escaped
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 1a20325b3461b1b9d3f7e803a464f9f3a273a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 13/35] fix: don't list subsections of folded sections in the
 table of contents

---
 skops/card/_model_card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 143ad8d..52cfa19 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1272,7 +1272,7 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            if val.subsections and not val.folded:
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From 2e4b68d456b72b5945ca331a168f862bd1b84613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 14/35] fix: use only the last part of the section name as
 heading of a table

---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 52cfa19..20f4505 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -929,8 +929,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From 6b1db212828c4e6e4e7575d2640ee058913f8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 15/35] fix: default the alt text of each plot to its own title

---
 skops/card/_model_card.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 20f4505..c742695 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -859,11 +859,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
-- 
2.43.0


From 6ef02d4998e66982009c44ad4ffc0f7d5c491608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 16/35] fix: restore the indentation when an element cannot be
 converted

---
 skops/card/_markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..078bf8b 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -71,8 +71,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
-- 
2.43.0


From 1bfa786f336b85461819482f6d6c456e6eff2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 17/35] fix: render tables whose names or values aren't plain
 words

---
 skops/card/_model_card.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c742695..31e112a 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -40,6 +40,12 @@ def wrap_as_details(text: str, folded: bool) -> str:
     return f"<details>\n<summary> Click to expand </summary>\n\n{text}\n\n</details>"
 
 
+def format_table_cell(value: Any) -> str:
+    # Replace line breaks with <br /> (html new line tag) so that they are not
+    # converted into new rows, and escape | so that it doesn't start a new cell.
+    return re.sub(r"\r\n|\r|\n", "<br />", str(value)).replace("|", "\\|")
+
+
 def split_subsection_names(key: str) -> list[str]:
     r"""Split a string containing multiple sections into a list of strings for
     each.
@@ -202,10 +208,11 @@ class TableSection(Section):
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
-            # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
+            name = format_table_cell(key)
+            while name in table.field_names:
+                # PrettyTable requires names to be unique, but spaces don't matter
+                name += " "
+            table.add_column(name, [format_table_cell(value) for value in values])
 
         table = table.get_string()
 
-- 
2.43.0


From 1211cd925b74d368488bd1cbf03cb25a68c58859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 18/35] fix: give each header of a parsed document a section of
 its own

---
 skops/card/_parser.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..a346bea 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -58,14 +58,17 @@ class PandocParser:
         else:
             raise ValueError(f"Markup of type {markup_type} is not supported (yet)")
 
-    def _add_section(
-        self, section_name: str, card: Card, section_trace: list[str]
-    ) -> Section:
+    def _add_section(self, title: str, siblings: dict[str, Section]) -> Section:
         # Add a new section to the card, which can be a subsection, and return
-        # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
-        return cur_section
+        # it. The title is taken as is, i.e. a "/" doesn't separate sections.
+        key = name = title.strip()
+        count = 1
+        while key in siblings:
+            # headings can be repeated but keys cannot
+            count += 1
+            key = f"{name} ({count})"
+        siblings[key] = Section(title=title, content="")
+        return siblings[key]
 
     def _add_content(self, content: str, section: Section | None) -> None:
         # Add content to the current section
@@ -86,9 +89,7 @@ class PandocParser:
             # should we require each Formattable to have an update method?
             raise ValueError(f"Could not modify content of {section.content}")
 
-    def _parse_header(
-        self, item: PandocItem, section_trace: list[str]
-    ) -> tuple[str, int]:
+    def _parse_header(self, item: PandocItem) -> tuple[str, int]:
         # Headers are the only type of item that needs to be handled
         # differently. This is because we structure the underlying model card
         # data as a tree with nodes corresponding to headers. To assign the
@@ -119,7 +120,8 @@ class PandocParser:
             model card.
         """
         section: Section | None = None
-        section_trace: list[str] = []
+        # level and section of the headers that the current position is nested in
+        section_trace: list[tuple[int, Section]] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -128,10 +130,16 @@ class PandocParser:
         # nodes.
         for item in json.loads(self.source)["blocks"]:
             if item["t"] == "Header":
-                content, level = self._parse_header(item, section_trace=section_trace)
+                content, level = self._parse_header(item)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
-                section = self._add_section(res, card=card, section_trace=section_trace)
+                while section_trace and section_trace[-1][0] >= level:
+                    section_trace.pop()
+                if section_trace:
+                    siblings = section_trace[-1][1].subsections
+                else:
+                    siblings = card._data
+                section = self._add_section(res, siblings=siblings)
+                section_trace.append((level, section))
             else:
                 res = self._post_process(self.mapping(item))
                 self._add_content(res, section=section)
-- 
2.43.0


From ead45eb2ad1b6865e7356be0231abb253662aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 19/35] fix: keep all columns of parsed tables that repeat a
 column name

---
 skops/card/_markup.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 078bf8b..51eb12e 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -260,6 +260,11 @@ class Markdown:
             # pandoc < 2.5
             columns, body = self._table_old(item)
 
+        for i in range(len(columns)):
+            # names can be repeated but keys cannot, trailing spaces don't matter
+            while columns[i] in columns[:i]:
+                columns[i] += " "
+
         table: Mapping[str, Sequence[Any]]
         if not body:
             table = {key: [] for key in columns}
-- 
2.43.0


From b18481ccba438cc1aeee80992fd8a69b65798498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 20/35] fix: audit each node of an archive only once

---
 skops/io/_audit.py | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index ac93662..9a5250b 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -217,18 +217,28 @@ class Node:
         unsafe_set : set
             A set of unsafe types.
         """
-        if hasattr(self, "_computing_unsafe_set"):
-            # this means we're already computing this node's unsafe set, so we
-            # return an empty set and let the computation of the parent node
-            # continue. This is to avoid infinite recursion.
-            return set()
-
-        with temp_setattr(self, _computing_unsafe_set=True):
-            res = set()
-            if not self.is_self_safe():
-                res.add(self.module_name + "." + self.class_name)
-
-            for child in self.children.values():
+        # Nodes can be shared and contain themselves, so keep track of the nodes that
+        # were visited. Going through each path instead could take forever.
+        res: set[str] = set()
+        visited: set[int] = set()
+        pending: list[Node] = [self]
+        while pending:
+            node = pending.pop()
+            if id(node) in visited:
+                continue
+            visited.add(id(node))
+
+            if node is not self and (
+                type(node).get_unsafe_set is not Node.get_unsafe_set
+            ):
+                # a type of node with its own way to determine its unsafe set
+                res.update(node.get_unsafe_set())
+                continue
+
+            if not node.is_self_safe():
+                res.add(node.module_name + "." + node.class_name)
+
+            for child in node.children.values():
                 if child is None:
                     continue
 
@@ -236,21 +246,19 @@ class Node:
                 # other than ListNode and DictNode, children are all of type Node.
                 if isinstance(child, list):
                     # iterate through the list
-                    for value in child:
-                        res.update(value.get_unsafe_set())
+                    pending.extend(child)
                 elif isinstance(child, dict):
                     # iterate through the values of the dict only
                     # TODO: should we check the types of the keys?
-                    for value in child.values():
-                        res.update(value.get_unsafe_set())
+                    pending.extend(child.values())
                 elif isinstance(child, Node):
                     # delegate to the child Node
-                    res.update(child.get_unsafe_set())
+                    pending.append(child)
                 elif type(child) is type:
                     # the if condition bellow is not merged with the previous
                     # one because if the above condition is True, the following
                     # conditions about BytesIO, etc should be ignored.
-                    if not check_type(get_module(child), child.__name__, self.trusted):
+                    if not check_type(get_module(child), child.__name__, node.trusted):
                         # if the child is a type, we check its safety
                         res.add(get_module(child) + "." + child.__name__)
                 elif isinstance(child, (io.BytesIO, str)):
-- 
2.43.0


From 5726d1bf6b7f3def867209f820f6231f060fa59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 21/35] fix: persist slices of values that are no JSON scalars

---
 skops/io/_general.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 08be52c..ab28e20 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -392,15 +392,16 @@ class TypeNode(Node):
 
 
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    content = {"start": obj.start, "stop": obj.stop, "step": obj.step}
+    for key, value in content.items():
+        # usually, the values can be part of the schema as they are
+        if value is not None and type(value) not in (bool, int, str):
+            content[key] = get_state(value, save_context)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "SliceNode",
-        "content": {
-            "start": obj.start,
-            "stop": obj.stop,
-            "step": obj.step,
-        },
+        "content": content,
     }
     return res
 
@@ -414,20 +415,25 @@ class SliceNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
+        self.content = [state["content"][key] for key in ("start", "stop", "step")]
+        self.content = [
+            get_tree(value, load_context, trusted=trusted)
+            if isinstance(value, dict)
+            else value
+            for value in self.content
+        ]
         self.children = {
-            "start": state["content"]["start"],
-            "stop": state["content"]["stop"],
-            "step": state["content"]["step"],
+            "content": [value for value in self.content if isinstance(value, Node)]
         }
 
     def _construct(self):
         return slice(
-            self.children["start"], self.children["stop"], self.children["step"]
+            *(
+                value.construct() if isinstance(value, Node) else value
+                for value in self.content
+            )
         )
 
-    def get_unsafe_set(self):
-        return set()
-
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # This method is for objects which can either be persisted with json, or
-- 
2.43.0


From 948fe50867576179b52d9daac6cfc22223716c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 22/35] fix: load record arrays and the masked constant as what
 they are

---
 skops/io/_numpy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f9a85c7..91d2914 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -87,7 +87,12 @@ class NdArrayNode(Node):
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
+                cls = gettype(self.module_name, self.class_name)
+                if issubclass(cls, np.ndarray):
+                    # e.g. record arrays, whose constructor takes other arguments
+                    content = content.view(cls)
+                else:
+                    content = cls(content)
             return content
 
         if self.type == "json":
@@ -159,6 +164,8 @@ class MaskedArrayNode(Node):
             for key in ("fill_value", "hard_mask")
             if key in self.children
         }
+        if f"{self.module_name}.{self.class_name}" == "numpy.ma.core.MaskedConstant":
+            return np.ma.masked  # a singleton
         return np.ma.MaskedArray(data, mask, **options)
 
 
-- 
2.43.0


From c57eff505d6ac7092019689d3aaf5bc0c82b7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 23/35] fix: tell apart several NaNs of a set or dict after
 loading

---
 skops/io/_general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index ab28e20..b3e4472 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -617,7 +617,9 @@ class JsonNode(Node):
         return set()
 
     def _construct(self):
-        return json.loads(self.content)
+        # parse constants with float, so as not to get the same NaN each time, since
+        # sets and dicts would no longer tell them apart
+        return json.loads(self.content, parse_constant=float)
 
     def format(self) -> str:
         """Representation of the node's content.
-- 
2.43.0


From e59381412de7315f458c545adddcd2005f9bb80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 24/35] fix: persist masked arrays of any dtype with a fill
 value

---
 skops/io/_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 91d2914..f5ed623 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -128,8 +128,9 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
             "mask": get_state(mask, save_context),
         },
     }
+    default_fill_value = np.asarray(np.ma.default_fill_value(obj))
     if obj._fill_value is not None and (
-        str(obj.fill_value) != str(np.ma.default_fill_value(obj))
+        repr(np.asarray(obj.fill_value).tolist()) != repr(default_fill_value.tolist())
     ):
         res["content"]["fill_value"] = get_state(obj.fill_value, save_context)
     if obj.hardmask:
-- 
2.43.0


From c491fb2c12c21d043176d32f68117eaa82ea9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 25/35] fix: keep headings of parsed documents on one line

---
 skops/card/_markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 51eb12e..e55166f 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -144,7 +144,8 @@ class Markdown:
     def _header(self, value: tuple[int, Any, list[dict[str, str]]]) -> str:
         level, _, content_parts = value
         section_name = self._make_content(content_parts)
-        return section_name
+        # a markdown heading has to fit on one line
+        return section_name.replace("\n", " ")
 
     def _image(self, value) -> str:
         (ident, _, keyvals), caption, (dest, typef) = value
-- 
2.43.0


From b93cb017364b992ccfaea3772e2abceef03e8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 26/35] fix: convert images inside of text

---
 skops/card/_markup.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index e55166f..f575dc2 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -148,17 +148,11 @@ class Markdown:
         return section_name.replace("\n", " ")
 
     def _image(self, value) -> str:
-        (ident, _, keyvals), caption, (dest, typef) = value
+        # the title is "fig:..." if the image is a figure, images inside of text
+        # can have any title; as for links, it's not preserved
+        (ident, _, keyvals), caption, (dest, _) = value
         # it seems like ident and keyvals are not relevant for markdown
 
-        if not caption:  # pragma: no cover
-            # not sure if this can be reached, just to be safe
-            raise ValueError("Figure missing a caption")
-
-        if not typef.startswith("fig:"):  # pragma: no cover
-            # not sure if this can be reached, just to be safe
-            raise ValueError(f"Cannot deal with figure of type '{typef}'")
-
         caption = "".join(self.__call__(i) for i in caption)
         content = f"![{caption}]({dest})"
         return content
@@ -173,7 +167,6 @@ class Markdown:
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
         plain_fig = body["c"][0]["c"]
-        plain_fig[2][1] = "fig:"
         return self._image(plain_fig)
 
     @staticmethod
-- 
2.43.0


From 34e7beed134c17c7154c002e061870e6f2e3cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 27/35] fix: keep all cells, rows and the caption of parsed
 tables

---
 skops/card/_markup.py | 96 +++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 50 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index f575dc2..1e03e17 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -185,73 +185,66 @@ class Markdown:
         _, txt = item
         return f"`{txt}`"
 
+    def _table_cell(self, content) -> str:
+        # a cell can contain any number of blocks, including none
+        return "\n".join(self.__call__(part) for part in content)
+
     def _table_cols_old(self, items) -> list[str]:
-        columns = []
-        for (content,) in items:
-            column = self.__call__(content)
-            columns.append(column)
-        return columns
-
-    def _table_cols_new(self, items) -> list[str]:  # pragma: no cover
-        columns = []
-        fn = self.__call__
-        for item in items:
-            _, alignment, _, _, content = item
-            column = "".join(fn(part) for part in content)
-            columns.append(column)
-        return columns
+        return [self._table_cell(content) for content in items]
 
     def _table_body_old(self, items) -> list[list[str]]:
-        body = []
-        for row_items in items:
-            row = []
-            for col_row_item in row_items:
-                if not col_row_item:
-                    content = ""
-                else:
-                    content = col_row_item[0]
-                row.append(self.__call__(content))
-            body.append(row)
-        return body
-
-    def _table_body_new(self, items) -> list[list[str]]:  # pragma: no cover
-        body = []
-        fn = self.__call__
+        return [[self._table_cell(content) for content in row] for row in items]
+
+    def _table_rows_new(self, items, ncols: int) -> list[list[str]]:
+        rows = []
+        # number of following rows that a cell of this column extends to
+        covered = [0] * ncols
         for _, row_items in items:
-            row = []
-            for col_row_item in row_items:
-                _, alignment, _, _, content = col_row_item
-                row.append("".join(fn(part) for part in content))
-            body.append(row)
-        return body
+            row = [""] * ncols
+            free = [i for i in range(ncols) if not covered[i]]
+            covered = [max(0, num - 1) for num in covered]
+            for row_item in row_items:
+                _, alignment, rowspan, colspan, content = row_item
+                row[free[0]] = self._table_cell(content)
+                for i in free[:colspan]:
+                    covered[i] = rowspan - 1
+                free = free[colspan:]
+            rows.append(row)
+        return rows
 
     def _table_old(self, item) -> tuple[list[str], list[list[str]]]:
         # pandoc < 2.10
-        _, _, _, thead, tbody = item
-        columns = self._table_cols_old(thead)
+        _, aligns, _, thead, tbody = item
+        columns = self._table_cols_old(thead) or [""] * len(aligns)
         body = self._table_body_old(tbody)
         return columns, body
 
-    def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
+    def _table_new(self, item) -> tuple[list[str], list[list[str]]]:
         # pandoc >= 2.10
         # attr capt specs thead tbody tfoot
-        _, _, _, thead, tbody, _ = item
-        # header
-        (_, thead_bodies) = thead
-        (attr, thead_body) = thead_bodies[0]  # multiple headers?
-        columns = self._table_cols_new(thead_body)
-        # rows
-        # attr rhc hd bd
-        _, _, _, trows = tbody[0]  # multiple groups of rows?
-        body = self._table_body_new(trows)
+        _, _, specs, (_, head_rows), tbody, (_, foot_rows) = item
+        ncols = len(specs)
+        # markdown tables have exactly one header row and one group of rows
+        columns, *body = self._table_rows_new(head_rows, ncols) or [[""] * ncols]
+        for _, _, body_head_rows, body_rows in tbody:
+            body += self._table_rows_new(body_head_rows, ncols)
+            body += self._table_rows_new(body_rows, ncols)
+        body += self._table_rows_new(foot_rows, ncols)
         return columns, body
 
+    def _table_caption(self, item) -> str:
+        if len(item) == 6:
+            # pandoc >= 2.10, (short caption, blocks)
+            _, blocks = item[1]
+            return " ".join(self.__call__(block) for block in blocks)
+        return self._make_content(item[0])
+
     def _table(self, item) -> str:
-        if len(item) == 6:  # pragma: no cover
-            # pandoc >= 2.5
+        if len(item) == 6:
+            # pandoc >= 2.10
             columns, body = self._table_new(item)
         else:
-            # pandoc < 2.5
+            # pandoc < 2.10
             columns, body = self._table_old(item)
 
         for i in range(len(columns)):
@@ -268,6 +261,9 @@ class Markdown:
             table = {key: val for key, val in zip(columns, data_transposed)}
 
         res = TableSection(title="", content="", table=table).format()
+        caption = self._table_caption(item)
+        if caption:
+            res += f"\n\n: {caption}"
         return res
 
     def _parse_div(self, item) -> str:
-- 
2.43.0


From d832cec6c0ffbeaf591bbc794bb09d77423fff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 28/35] fix: check the size of the state before passing it to
 compiled __setstate__

---
 skops/io/_general.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index b3e4472..eadffed 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -544,6 +544,20 @@ class ObjectNode(Node):
         attrs = self.children["attrs"].construct()
         if attrs is not None:
             if hasattr(instance, "__setstate__"):
+                methods = [
+                    getattr(cls, name, None) for name in ("__setstate__", "__getstate__")
+                ]
+                if not any(isinstance(m, (FunctionType, type(None))) for m in methods):
+                    # A compiled __setstate__ might read the state without checking
+                    # its size, which crashes the interpreter.
+                    expected = instance.__getstate__()
+                    if isinstance(expected, tuple) and (
+                        not isinstance(attrs, tuple) or len(attrs) != len(expected)
+                    ):
+                        raise ValueError(
+                            f"The state of {self.class_name} has to be a tuple of size "
+                            f"{len(expected)}."
+                        )
                 instance.__setstate__(attrs)
             else:
                 instance.__dict__.update(attrs)
-- 
2.43.0


From 5d036edf545cee7bd2cb8084c57e6fa49e944e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 29/35] fix: refuse trees whose nodes are not a 1-dimensional
 array

---
 skops/io/_sklearn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 13fad17..747f810 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import Any, Optional, Sequence, Type
 
+import numpy as np
 from sklearn.cluster import Birch
 from sklearn.tree._tree import Tree
 
@@ -218,6 +219,13 @@ class TreeNode(ReduceNode):
         self.trusted = self._get_trusted(trusted, [get_module(Tree) + ".Tree"])
         super().__init__(state, load_context, constructor=Tree, trusted=self.trusted)
 
+    def _construct(self):
+        # Tree reads the first dimension of the nodes without checking that there is
+        # one, which crashes the interpreter.
+        if np.ndim(self.children["attrs"].construct()["nodes"]) != 1:
+            raise ValueError("The nodes of a tree have to be a 1-dimensional array.")
+        return super()._construct()
+
 
 def loss_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     reduce = obj.__reduce__()
-- 
2.43.0


From 6e7941d411f27fdaee4e22446bc9a6234a6f4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 30/35] fix: check that a mask matches the data before creating
 a masked array

---
 skops/io/_numpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f5ed623..6ded8de 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -167,6 +167,12 @@ class MaskedArrayNode(Node):
         }
         if f"{self.module_name}.{self.class_name}" == "numpy.ma.core.MaskedConstant":
             return np.ma.masked  # a singleton
+        if isinstance(mask, np.ndarray) and (
+            mask.size not in (1, data.size)
+            or mask.dtype != np.ma.make_mask_descr(data.dtype)
+        ):
+            # numpy would convert the mask first, no matter how large it is
+            raise ValueError("The mask does not match the data of the masked array.")
         return np.ma.MaskedArray(data, mask, **options)
 
 
-- 
2.43.0


From 67b06e8326f1fe7c551b0ab7e4f45cd1c869f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 31/35] fix: do not import the type of a loss before the audit

---
 skops/io/_sklearn.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 747f810..289af55 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -154,18 +154,24 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: Optional[Type[Any]] = None,
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
         reduce = state["__reduce__"]
+        if constructor is not None:
+            class_name, module_name = constructor.__name__, get_module(constructor)
+        else:
+            # The object is constructed from its own type, which may only be imported
+            # after the audit.
+            class_name, module_name = self.class_name, self.module_name
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
                 {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
+                    "__class__": class_name,
+                    "__module__": module_name,
                     # no __id__, it could be the id of another node
                 },
                 load_context,
@@ -260,12 +266,7 @@ class LossNode(ReduceNode):
         self.trusted = self._get_trusted(
             trusted, [get_module(x) + "." + x.__name__ for x in ALLOWED_LOSSES]
         )
-        super().__init__(
-            state,
-            load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
-            trusted=self.trusted,
-        )
+        super().__init__(state, load_context, trusted=self.trusted)
 
 
 # TODO: remove once support for sklearn<1.2 is dropped.
-- 
2.43.0


From f6d98a214ddc83f2c9f5179ebc244f717727ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 32/35] fix: keep the shape of object arrays with items that
 are sequences

---
 skops/io/_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 6ded8de..d15b755 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -108,7 +108,10 @@ class NdArrayNode(Node):
                 for i, v in enumerate(tmp):
                     content[i] = v
             else:
-                content = np.array(tmp, dtype="O")
+                # without a given shape, numpy unfolds the items as deep as it can
+                content = np.empty(shape, dtype="O")
+                if content.size:
+                    content[...] = tmp
 
             return content
 
-- 
2.43.0


From ffaf232dce5240084380f3f698116292edae4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 33/35] fix: add_permutation_importances saves its own figure

plt.savefig saves whatever figure is current; when another thread creates a
figure in between, the card got the plot of the other thread.
---
 skops/card/_model_card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 31e112a..0bcdc40 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1023,7 +1023,7 @@ class Card:
                 " different filename for the plot."
             )
         sorted_importances_idx = permutation_importances.importances_mean.argsort()
-        _, ax = plt.subplots()
+        fig, ax = plt.subplots()
         boxplot(
             ax,
             x=permutation_importances.importances[sorted_importances_idx].T,
@@ -1032,7 +1032,7 @@ class Card:
         )
         ax.set_title(plot_name)
         ax.set_xlabel("Decrease in Score")
-        plt.savefig(plot_file)
+        fig.savefig(plot_file)
         self.add_plot(description=description, alt_text=None, **{plot_name: plot_file})
 
         return self
-- 
2.43.0


From 8697f914dd1d1716c639f59ed5fc08aff6b3fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 34/35] fix: Card.get_model can be called from several threads

Two threads that both found the model file changed deleted the cached model
twice, and the second one raised an AttributeError.
---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 0bcdc40..6c2eeae 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -464,7 +464,8 @@ class Card:
 
             # if hash changed, invalidate cache by deleting attribute
             if model_hash != self._model_hash:
-                del self._model
+                # another thread may have done so already
+                self.__dict__.pop("_model", None)
                 self._model_hash = model_hash
 
         return self._model
-- 
2.43.0


From 0b188948670c90f672a363a9019f89049333956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 35/35] fix: keep the memory layout of the mask of structured
 masked arrays

---
 skops/io/_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index d15b755..2b685bf 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -176,7 +176,9 @@ class MaskedArrayNode(Node):
         ):
             # numpy would convert the mask first, no matter how large it is
             raise ValueError("The mask does not match the data of the masked array.")
-        return np.ma.MaskedArray(data, mask, **options)
+        # data has no mask of its own to keep, but numpy gives structured data one whose
+        # memory layout would replace the one of the mask
+        return np.ma.MaskedArray(data, mask, keep_mask=False, **options)
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0

