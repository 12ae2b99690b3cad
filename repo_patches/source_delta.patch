From 1a72edaa3e0010243b3ad274b107f77bb68ffd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 01/13] fix: validate returns None after switching to an etree
 without XMLSchema

The cached lxml schema was still used for elements of the other
implementation, which raised a TypeError.
---
 fastkml/validator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..d3fa032 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,6 +130,8 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
+    if not hasattr(config.etree, "XMLSchema"):
+        return None
     try:
         schema_parser = get_schema_parser(schema)
     except AttributeError:
-- 
2.43.0


From bd56f5e814d87b478b640406a339d62cd9f83f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 02/13] fix: KML.parse no longer modifies the name_spaces
 passed by the caller

---
 fastkml/kml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..d59cfc4 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -237,10 +237,9 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = {**config.NAME_SPACES, **(name_spaces or {})}
         if ns:
             name_spaces["kml"] = ns
-        name_spaces = {**config.NAME_SPACES, **name_spaces}
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
-- 
2.43.0


From 735c97683d1dc7ebcc063768daf7576300c5f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 03/13] fix: concurrent registrations for a new class are not
 lost

---
 fastkml/registry.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fastkml/registry.py b/fastkml/registry.py
index d603a80..893b9ca 100644
--- a/fastkml/registry.py
+++ b/fastkml/registry.py
@@ -151,9 +151,7 @@ class Registry:
         attributes are processed in fastkml.
 
         """
-        existing = self._registry.get(cls, [])
-        existing.append(item)
-        self._registry[cls] = existing
+        self._registry.setdefault(cls, []).append(item)
 
     def get(self, cls: Type["_XMLObject"]) -> List[RegistryItem]:
         """
-- 
2.43.0


From cc050d97a458ff30ea84f4cf76c8255b52a0bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 04/13] fix: pad the year of gYear and gYearMonth values to
 four digits

strftime does not pad years before 1000, the written value could not be
read back.
---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..4ae03f2 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04d}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04d}-{self.dt.month:02d}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From 6b61a819b4b8bc0cbd27e33a108f5f92c404a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 05/13] fix: KML.write encodes the document before it truncates
 the target

Text that can not be encoded as UTF-8 destroyed an existing file.
---
 fastkml/kml.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index d59cfc4..15397db 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -281,12 +281,16 @@ class KML(_XMLObject):
                 encoding="unicode",
             )
 
+        # Encode before the file is opened (and truncated): text that can not be
+        # encoded must not destroy an existing file.
+        xml_bytes = xml_content.encode("UTF-8")
+
         if file_path.suffix == ".kmz":
             with zipfile.ZipFile(file_path, "w", zipfile.ZIP_DEFLATED) as kmz:
-                kmz.writestr("doc.kml", xml_content)
+                kmz.writestr("doc.kml", xml_bytes)
         else:
-            with file_path.open("w", encoding="UTF-8") as file:
-                file.write(xml_content)
+            with file_path.open("wb") as file:
+                file.write(xml_bytes)
 
 
 registry.register(
-- 
2.43.0


From 96ae52e92f2ce9d42fbdf68ae6201687fbf7015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 06/13] fix: write kmz files when the clock is outside of the
 zip date range

With the system clock before 1980 or after 2107 the write failed, after the
target had been truncated.
---
 fastkml/kml.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 15397db..71adf5b 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -27,12 +27,14 @@ http://schemas.opengis.net/kml/.
 """
 
 import logging
+import time
 import zipfile
 from pathlib import Path
 from typing import IO
 from typing import Any
 from typing import AnyStr
 from typing import Dict
+from typing import Final
 from typing import Iterable
 from typing import List
 from typing import Optional
@@ -60,6 +62,10 @@ from fastkml.types import Element
 
 logger = logging.getLogger(__name__)
 
+# The time stamps a zip archive can represent.
+MIN_ZIP_DATE_TIME: Final = (1980, 1, 1, 0, 0, 0)
+MAX_ZIP_DATE_TIME: Final = (2107, 12, 31, 23, 59, 59)
+
 kml_children = Union[
     Folder,
     Document,
@@ -286,8 +292,17 @@ class KML(_XMLObject):
         xml_bytes = xml_content.encode("UTF-8")
 
         if file_path.suffix == ".kmz":
+            kmz_member = zipfile.ZipInfo(
+                "doc.kml",
+                date_time=min(
+                    max(time.localtime()[:6], MIN_ZIP_DATE_TIME),
+                    MAX_ZIP_DATE_TIME,
+                ),
+            )
+            kmz_member.compress_type = zipfile.ZIP_DEFLATED
+            kmz_member.external_attr = 0o600 << 16
             with zipfile.ZipFile(file_path, "w", zipfile.ZIP_DEFLATED) as kmz:
-                kmz.writestr("doc.kml", xml_bytes)
+                kmz.writestr(kmz_member, xml_bytes)
         else:
             with file_path.open("wb") as file:
                 file.write(xml_bytes)
-- 
2.43.0


From 1e83fcb03741bd8a2530d0e7e57428c7317cb382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 07/13] fix: read a ScreenOverlay that is a direct child of kml

---
 fastkml/kml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 71adf5b..a70da0f 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -56,6 +56,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -72,6 +73,7 @@ kml_children = Union[
     Placemark,
     GroundOverlay,
     PhotoOverlay,
+    ScreenOverlay,
     NetworkLinkControl,
 ]
 
@@ -318,12 +320,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From eeba7ccfd155bd02a6ec769b7e492a7c7188fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 08/13] fix: report invalid integer attributes like any other
 invalid value

A ValueError was raised, even when parsing with strict=False.
---
 fastkml/helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..d059c28 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 0355111c5041bd285296afa41b04fd0d575a6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 09/13] fix: a damaged sample of a gx:Track does not affect the
 other samples

An empty when raised a TypeError. Invalid values, skipped when parsing with
strict=False, shifted the values that follow to other samples or raised a
TypeError.
---
 fastkml/gx.py      | 20 +++++-------
 fastkml/helpers.py | 78 ++++++++++++++++++++++++++--------------------
 2 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..b871f80 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -210,9 +210,9 @@ class Track(_Geometry):
         target_id: Optional[str] = None,
         altitude_mode: Optional[AltitudeMode] = None,
         track_items: Optional[Iterable[TrackItem]] = None,
-        whens: Optional[Iterable[KmlDateTime]] = None,
-        coords: Optional[Iterable[PointType]] = None,
-        angles: Optional[Iterable[PointType]] = None,
+        whens: Optional[Iterable[Optional[KmlDateTime]]] = None,
+        coords: Optional[Iterable[Optional[PointType]]] = None,
+        angles: Optional[Iterable[Optional[PointType]]] = None,
         extended_data: Optional[ExtendedData] = None,
         **kwargs: Any,
     ) -> None:
@@ -250,23 +250,19 @@ class Track(_Geometry):
             If both `geometry` and `track_items` are specified.
 
         """
-        angles = list(angles) if angles else []
+        angles = [angle for angle in angles if angle != ()] if angles else []
         if (whens or coords) and track_items:
             msg = "Cannot specify both geometry and track_items"
             raise ValueError(msg)
         if not track_items and whens and coords:
             track_items = [
                 TrackItem(
-                    when=cast(KmlDateTime, when),
+                    when=when,
                     coord=geo.Point(*coord),
-                    angle=Angle(*angle),
-                )
-                for when, coord, angle in zip_longest(
-                    whens,
-                    coords,
-                    angles,
-                    fillvalue=(),
+                    angle=Angle(*(angle or ())),
                 )
+                for when, coord, angle in zip_longest(whens, coords, angles)
+                if when and coord
             ]
         self.track_items = list(track_items) if track_items else []
         self.extended_data = extended_data
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index d059c28..96c8ccf 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1147,24 +1147,30 @@ def datetime_subelement_list_kwarg(
     kwarg: str,
     classes: Tuple[Type[object], ...],
     strict: bool,
-) -> Dict[str, List["KmlDateTime"]]:
-    """Extract a list of KML datetime values from subelements of an XML element."""
-    args_list: List[KmlDateTime] = []
+) -> Dict[str, List[Optional["KmlDateTime"]]]:
+    """
+    Extract a list of KML datetime values from subelements of an XML element.
+
+    Empty or invalid subelements are represented by None, to keep the position of the
+    other values.
+    """
+    args_list: List[Optional[KmlDateTime]] = []
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
-            try:
-                args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
-                )
-            except ValueError as exc:  # noqa: PERF203
-                handle_error(
-                    error=exc,
-                    strict=strict,
-                    element=element,
-                    node=subelement,
-                    expected="DateTime",
-                )
+            value = None
+            if node_text := clean_string(subelement.text):
+                try:
+                    value = cls.parse(node_text)  # type: ignore[attr-defined]
+                except ValueError as exc:
+                    handle_error(
+                        error=exc,
+                        strict=strict,
+                        element=element,
+                        node=subelement,
+                        expected="DateTime",
+                    )
+            args_list.append(value)
     return {kwarg: args_list} if args_list else {}
 
 
@@ -1172,23 +1178,29 @@ def get_coord_args(
     element: Element,
     subelements: Iterable[Element],
     strict: bool,  # noqa: FBT001
-) -> Iterable[PointType]:
-    """Extract a list of KML coordinate values from subelements of an XML element."""
+) -> Iterable[Optional[PointType]]:
+    """
+    Extract a list of KML coordinate values from subelements of an XML element.
+
+    Empty subelements are represented by an empty tuple, invalid subelements by None,
+    to keep the position of the other values.
+    """
     for subelement in subelements:
-        if subelement.text:
-            try:
-                yield cast(
-                    PointType,
-                    tuple(float(coord) for coord in subelement.text.split()),
-                )
-            except ValueError as exc:
-                handle_error(
-                    error=exc,
-                    strict=strict,
-                    element=element,
-                    node=subelement,
-                    expected="Coordinates",
-                )
+        value = None
+        try:
+            value = cast(
+                PointType,
+                tuple(float(coord) for coord in (subelement.text or "").split()),
+            )
+        except ValueError as exc:
+            handle_error(
+                error=exc,
+                strict=strict,
+                element=element,
+                node=subelement,
+                expected="Coordinates",
+            )
+        yield value
 
 
 def coords_subelement_list_kwarg(
@@ -1200,9 +1212,9 @@ def coords_subelement_list_kwarg(
     kwarg: str,
     classes: Tuple[Type[object], ...],
     strict: bool,
-) -> Dict[str, List[PointType]]:
+) -> Dict[str, List[Optional[PointType]]]:
     """Extract a list of KML coordinate values from subelements of an XML element."""
-    args_list: List[PointType] = []
+    args_list: List[Optional[PointType]] = []
     if subelements := element.findall(f"{ns}{node_name}"):
         args_list = list(get_coord_args(element, subelements, strict))
     return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From e0ff7d330a7e9389b2eb4cf616bb8cd7e0d4b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 10/13] fix: track items without an angle do not take over the
 angle of a later item

Items without an angle were skipped when the angles were written, the
following angles moved to other items when the track was read.
---
 fastkml/gx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index b871f80..28b452b 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -349,10 +349,12 @@ class Track(_Geometry):
         Returns
         -------
         Tuple[Angle]
-            The angles of the track items.
+            The angles of the track items, empty if none of the items has an angle.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From 7dd5c276800ff47948847df23a65655422405465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 11/13] fix: concurrent validations report their own errors

The error log of the shared schema parser could be replaced by another thread
before it was read: the wrong errors were logged, or an IndexError was raised
instead of the AssertionError.
---
 fastkml/gx.py        |  1 -
 fastkml/validator.py | 15 ++++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 28b452b..9af7dac 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -87,7 +87,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 from typing import Tuple
-from typing import cast
 
 import pygeoif.geometry as geo
 from pygeoif.types import PointType
diff --git a/fastkml/validator.py b/fastkml/validator.py
index d3fa032..81b8879 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -17,6 +17,7 @@
 
 import logging
 import pathlib
+import threading
 from functools import lru_cache
 from typing import TYPE_CHECKING
 from typing import Final
@@ -39,6 +40,9 @@ __all__ = [
 
 logger = logging.getLogger(__name__)
 
+# The error log belongs to the schema parser, which is shared between threads.
+_validation_lock = threading.RLock()
+
 MUTUAL_EXCLUSIVE: Final = "Only one of element and file_to_validate can be provided."
 REQUIRE_ONE_OF: Final = "Either element or file_to_validate must be provided."
 
@@ -140,9 +144,10 @@ def validate(
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
     assert element is not None  # noqa: S101
-    try:
-        schema_parser.assert_(element)  # noqa: PT009
-    except AssertionError:
-        handle_validation_error(schema_parser, element)
-        raise
+    with _validation_lock:
+        try:
+            schema_parser.assert_(element)  # noqa: PT009
+        except AssertionError:
+            handle_validation_error(schema_parser, element)
+            raise
     return True
-- 
2.43.0


From fd888bb27dab8ed12417e016c3b767d9408842ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:57 +0000
Subject: [PATCH 12/13] fix: a schema import that cannot be read is an error,
 not a weaker schema

---
 fastkml/validator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 81b8879..499db2c 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -67,7 +67,15 @@ def get_schema_parser(
     """
     if schema is None:
         schema = pathlib.Path(__file__).parent / "schema" / "ogckml22.xsd"
-    return config.etree.XMLSchema(config.etree.parse(schema))
+    schema_parser = config.etree.XMLSchema(config.etree.parse(schema))
+    for entry in schema_parser.error_log:
+        # libxml2 skips an import that it cannot load with just a warning.
+        if (
+            entry.type_name == "SCHEMAP_WARN_UNLOCATED_SCHEMA"
+            and "location 'http" not in entry.message
+        ):
+            raise OSError(entry.message)
+    return schema_parser
 
 
 def handle_validation_error(
-- 
2.43.0


From 87f4e8450df1f250cd8b4d25fc8213d68ae05604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:19 +0000
Subject: [PATCH 13/13] fix: report schema errors of an element that is part of
 a larger document

---
 fastkml/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 499db2c..ab18e16 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -92,11 +92,11 @@ def handle_validation_error(
 
     """
     log = schema_parser.error_log
+    # The paths in the log start at the element, wherever it is in its document.
+    tree = element if hasattr(element, "getroot") else config.etree.ElementTree(element)
     for error_entry in log:
         try:
-            parent = element.xpath(error_entry.path)[  # type: ignore[attr-defined]
-                0
-            ].getparent()
+            parent = tree.xpath(error_entry.path)[0].getparent()
         except config.etree.XPathEvalError:
             parent = element
         if parent is None:
-- 
2.43.0

