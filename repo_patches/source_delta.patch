From f768546ec77234e61f109828eaadb87ddeae9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 01/84] fix: compute WKB coordinate sequence size without
 32-bit overflow

---
 src/geoarrow/wkb_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..09cb541 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,7 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed = (int64_t)n_coords * coord_size_elements * sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
-- 
2.43.0


From 9c7ecb7bec177a487c211372f83da2b5d3ce2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 02/84] fix: track remaining bytes after reading WKB
 coordinates

---
 src/geoarrow/wkb_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 09cb541..87f5c7d 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -71,6 +71,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 2fefc1e59da49d90c6238ceeaa1f98394fc93a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 03/84] fix: parse flat MULTIPOINT with leading whitespace or
 EMPTY members

---
 src/geoarrow/wkt_reader.c | 60 +++++++++++----------------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..d306d7e 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -197,36 +197,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v,
-                                     enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
-  // Read the first coordinate (there must always be one)
-  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-  ResetCoordCache(s);
-  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-  NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-  NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-  GeoArrowWKTSkipWhitespace(s);
-
-  // Read the rest of the coordinates
-  while (PeekChar(s) != ')') {
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    ResetCoordCache(s);
-    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-    GeoArrowWKTSkipWhitespace(s);
-  }
-
-  GeoArrowWKTAdvanceUnsafe(s, 1);
-  return GEOARROW_OK;
-}
-
 static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
                                              struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
@@ -275,6 +245,21 @@ static inline int ReadPolygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
+// Reads one MULTIPOINT member: (1 2), EMPTY, or (for the flat version) 1 2
+static inline int ReadMultipointItem(struct WKTReaderPrivate* s,
+                                     struct GeoArrowVisitor* v,
+                                     enum GeoArrowDimensions dimensions) {
+  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
+  if (PeekChar(s) == '(' || PeekChar(s) == 'E') {
+    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+  } else {
+    ResetCoordCache(s);
+    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
+    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
+  }
+  return v->geom_end(v);
+}
+
 static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v,
                                  enum GeoArrowDimensions dimensions) {
   GeoArrowWKTSkipWhitespace(s);
@@ -283,17 +268,8 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     GeoArrowWKTSkipWhitespace(s);
 
     // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
-    // if it doesn't look like the verbose version, try the flat version
-    if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
-      return ReadMultipointFlat(s, v, dimensions);
-    }
-
     // Read the first geometry (there must always be one)
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+    NANOARROW_RETURN_NOT_OK(ReadMultipointItem(s, v, dimensions));
     GeoArrowWKTSkipWhitespace(s);
 
     // Read the rest of the geometries
@@ -301,9 +277,7 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
-      NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-      NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-      NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+      NANOARROW_RETURN_NOT_OK(ReadMultipointItem(s, v, dimensions));
       GeoArrowWKTSkipWhitespace(s);
     }
 
-- 
2.43.0


From 5c9544bbcad0b0db3d9ba531d5f9b6535c90420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 04/84] fix: limit GEOMETRYCOLLECTION nesting when reading WKT

---
 src/geoarrow/wkt_reader.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index d306d7e..cd17b1d 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -8,10 +8,14 @@
 
 #define COORD_CACHE_SIZE_COORDS 64
 
+// The maximum nesting of GEOMETRYCOLLECTIONs (the WKB reader has the same limit)
+#define WKT_MAX_LEVEL 255
+
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  int level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -361,6 +365,12 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
                                          struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
+    if (s->level == WKT_MAX_LEVEL) {
+      GeoArrowErrorSet(v->error, "WKTReader exceeded maximum recursion");
+      return ENOTSUP;
+    }
+
+    s->level++;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
@@ -377,6 +387,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
     }
 
+    s->level--;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     return GEOARROW_OK;
   }
@@ -494,6 +505,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From f4d947c2a5a43bb3575cd43cd50c4ef6cb7afcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 05/84] fix: reject trailing characters when parsing numbers
 with fast_float

---
 src/geoarrow/double_parse_fast_float.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..c715f2c 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,8 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  // The entire input must be consumed (as in the strtod()-based implementation)
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From 48db5f547f5d04fccdc31917ac40dd30514006da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 06/84] fix: keep trailing zeroes of integers when printing
 with precision 0

---
 src/geoarrow/double_print.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..bc711fb 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -32,7 +32,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
-  // Strip trailing zeroes + decimal
+  // Strip trailing zeroes + decimal (an integer has no trailing zeroes to strip)
+  if (precision == 0) {
+    return n_chars;
+  }
+
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
       n_chars--;
-- 
2.43.0


From 105d455dd31ada6fd54027f03eec35374cd800d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 07/84] fix: stay within the input and terminate when parsing
 JSON metadata

---
 src/geoarrow/metadata.c | 101 +++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 44 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..eed775c 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -112,7 +112,7 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
                                   struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (s->size_bytes == 0 || s->data[0] != '[') {
     return EINVAL;
   }
 
@@ -120,26 +120,29 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   s->data++;
   struct ArrowStringView tmp_value;
   while (s->size_bytes > 0) {
-    if (SkipUntil(s, "[{\"]")) {
-      char c = *(s->data);
-      switch (c) {
-        case '\"':
-          NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
-          break;
-        case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
-          break;
-        case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
-          break;
-        case ']':
-          s->size_bytes--;
-          s->data++;
-          out->size_bytes = s->data - out->data;
-          return GEOARROW_OK;
-        default:
-          break;
-      }
+    // Fails at the end of the input or at an embedded null character
+    if (!SkipUntil(s, "[{\"]")) {
+      return EINVAL;
+    }
+
+    char c = *(s->data);
+    switch (c) {
+      case '\"':
+        NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
+        break;
+      case '[':
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        break;
+      case '{':
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        break;
+      case ']':
+        s->size_bytes--;
+        s->data++;
+        out->size_bytes = s->data - out->data;
+        return GEOARROW_OK;
+      default:
+        break;
     }
   }
 
@@ -149,7 +152,7 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (s->size_bytes == 0 || s->data[0] != '{') {
     return EINVAL;
   }
 
@@ -157,26 +160,29 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
   s->data++;
   struct ArrowStringView tmp_value;
   while (s->size_bytes > 0) {
-    if (SkipUntil(s, "{[\"}")) {
-      char c = *(s->data);
-      switch (c) {
-        case '\"':
-          NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
-          break;
-        case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
-          break;
-        case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
-          break;
-        case '}':
-          s->size_bytes--;
-          s->data++;
-          out->size_bytes = s->data - out->data;
-          return GEOARROW_OK;
-        default:
-          break;
-      }
+    // Fails at the end of the input or at an embedded null character
+    if (!SkipUntil(s, "{[\"}")) {
+      return EINVAL;
+    }
+
+    char c = *(s->data);
+    switch (c) {
+      case '\"':
+        NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
+        break;
+      case '[':
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        break;
+      case '{':
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        break;
+      case '}':
+        s->size_bytes--;
+        s->data++;
+        out->size_bytes = s->data - out->data;
+        return GEOARROW_OK;
+      default:
+        break;
     }
   }
 
@@ -197,6 +203,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
 
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
+
     switch (s->data[0]) {
       case '[':
         NANOARROW_RETURN_NOT_OK(FindList(s, &v));
@@ -273,7 +283,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     }
 
-    SkipUntil(s, ",}");
+    if (!SkipUntil(s, ",}")) {
+      return EINVAL;
+    }
+
     if (s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
-- 
2.43.0


From a35b9b6329add745bfd554e224088301502a7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 08/84] fix: limit the nesting of JSON metadata

---
 src/geoarrow/metadata.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index eed775c..756a320 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,11 +106,19 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+// The maximum nesting of JSON lists and objects. Values are parsed recursively, so this
+// bounds the stack used by metadata that may not come from a trusted source.
+#define JSON_MAX_LEVEL 255
+
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
+                                    int level);
+
+static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
+                                  int level) {
+  if (level >= JSON_MAX_LEVEL) {
+    return EINVAL;
+  }
 
-static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
   out->data = s->data;
   if (s->size_bytes == 0 || s->data[0] != '[') {
     return EINVAL;
@@ -131,10 +139,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
         NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
         break;
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, level + 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, level + 1));
         break;
       case ']':
         s->size_bytes--;
@@ -149,8 +157,12 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
+                                    int level) {
+  if (level >= JSON_MAX_LEVEL) {
+    return EINVAL;
+  }
+
   out->data = s->data;
   if (s->size_bytes == 0 || s->data[0] != '{') {
     return EINVAL;
@@ -171,10 +183,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
         NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
         break;
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, level + 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, level + 1));
         break;
       case '}':
         s->size_bytes--;
@@ -209,10 +221,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 0));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From 52636806e0dd2ee20a3f0c1ddd3f2ceaa5a882a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 09/84] fix: compare the value of crs_type when parsing
 metadata

---
 src/geoarrow/metadata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 756a320..8075e61 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -277,13 +277,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 && strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From 58260989fb9541e6b6b83c90bafd5aad303592bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 10/84] fix: escape backslashes when serializing a CRS

---
 src/geoarrow/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 8075e61..87bb9e9 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -474,7 +474,7 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        if (val == '"') {
+        if (val == '\\' || val == '"') {
           *out++ = '\\';
         }
 
-- 
2.43.0


From 906f4ed655255f0d2dc605d4feb6d3f63446f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 11/84] fix: match the geoarrow.wkb extension name exactly

---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From 26a5a84e14d4fd3abbf9d533151641def99dc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 12/84] fix: set GeoArrowSchemaView.schema when parsing an
 ArrowSchema

---
 src/geoarrow/schema_view.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index b4757f1..dc33bc5 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -339,6 +339,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     return EINVAL;
   }
 
+  schema_view->schema = (struct ArrowSchema*)schema;
   schema_view->extension_name.data = na_schema_view->extension_name.data;
   schema_view->extension_name.size_bytes = na_schema_view->extension_name.size_bytes;
   schema_view->extension_metadata.data = na_schema_view->extension_metadata.data;
-- 
2.43.0


From 310f637b5c94056f3ef262bd18b028e8e4fd9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 13/84] fix: free the array writer when its type is not
 supported

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From d8ce04239871c1f52182fcb20ac6da5331840e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 14/84] fix: truncate elements after a null when limiting the
 size of WKT

---
 src/geoarrow/wkt_writer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..3bdf7a8 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -248,6 +248,13 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
+  if (private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >
+          private->max_element_size_bytes) {
+    private->values.size_bytes =
+        private->values_feat_start + private->max_element_size_bytes;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -260,13 +267,6 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     return ArrowBitmapAppend(&private->validity, 1, 1);
   }
 
-  if (private->max_element_size_bytes >= 0 &&
-      (private->values.size_bytes - private->values_feat_start) >
-          private->max_element_size_bytes) {
-    private->values.size_bytes =
-        private->values_feat_start + private->max_element_size_bytes;
-  }
-
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 5823224ceaabaaee15f58b8e14c3b7378d309cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 15/84] fix: return EAGAIN from every WKT writer callback once
 the size limit is reached

---
 src/geoarrow/wkt_writer.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 3bdf7a8..c49fb0c 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -31,6 +31,17 @@ static inline int WKTWriterCheckLevel(struct WKTWriterPrivate* private) {
   }
 }
 
+// Once the maximum element size has been reached, no more input is needed
+static inline int WKTWriterCheckElementSize(struct WKTWriterPrivate* private) {
+  if (private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >=
+          private->max_element_size_bytes) {
+    return EAGAIN;
+  } else {
+    return GEOARROW_OK;
+  }
+}
+
 static inline int WKTWriterWrite(struct WKTWriterPrivate* private, const char* value) {
   return ArrowBufferAppend(&private->values, value, strlen(value));
 }
@@ -70,6 +81,7 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   private->level++;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckElementSize(private));
 
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
@@ -121,6 +133,7 @@ static int ring_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   private->level++;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckElementSize(private));
 
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
@@ -146,6 +159,7 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckElementSize(private));
 
   int64_t max_chars_per_coord_theoretical =
       // space + comma after coordinate
@@ -195,11 +209,7 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
   // Write the remaining coordinates (which all have leading commas)
   for (int64_t i = 1; i < n_coords; i++) {
     // Check if we've hit our max number of bytes for this feature
-    if (private->max_element_size_bytes >= 0 &&
-        (private->values.size_bytes - private->values_feat_start) >=
-            private->max_element_size_bytes) {
-      return EAGAIN;
-    }
+    NANOARROW_RETURN_NOT_OK(WKTWriterCheckElementSize(private));
 
     NANOARROW_RETURN_NOT_OK(
         ArrowBufferReserve(&private->values, max_chars_per_coord_theoretical));
-- 
2.43.0


From af8734de1247944ede3a83b263fbd5f517d078b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 16/84] fix: refuse coordinates after a finished sequence when
 writing LINESTRING and MULTIPOINT

---
 src/geoarrow/native_writer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..a80a616 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -604,6 +604,7 @@ static int ring_end_multipoint(struct GeoArrowVisitor* v) {
 
   private_data->level--;
   private_data->size[0]++;
+  private_data->size[1] = 0;
   if (private_data->builder.view.coords.size_coords > 2147483647) {
     return EOVERFLOW;
   }
@@ -627,6 +628,7 @@ static int geom_end_multipoint(struct GeoArrowVisitor* v) {
 
   if (private_data->level == 1) {
     private_data->size[0]++;
+    private_data->size[1] = 0;
     private_data->level--;
     if (private_data->builder.view.coords.size_coords > 2147483647) {
       return EOVERFLOW;
@@ -664,6 +666,11 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
+  } else if (private_data->size[1] != 0) {
+    // Coordinates after the end of the sequence (e.g., a POINT that follows a
+    // LINESTRING in a collection) would otherwise become part of the next feature
+    GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
+    return EINVAL;
   }
 
   if (private_data->feat_is_null) {
-- 
2.43.0


From 5d0798632243c6dd85fb8d28a89ffe418fbc167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 17/84] fix: leave the visitor's error in place when
 initialising an array writer's visitor

---
 src/geoarrow/array_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index b5bf59a..032e70d 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -92,13 +92,16 @@ GeoArrowErrorCode GeoArrowArrayWriterInitVisitor(struct GeoArrowArrayWriter* wri
                                                  struct GeoArrowVisitor* v) {
   struct GeoArrowArrayWriterPrivate* private_data =
       (struct GeoArrowArrayWriterPrivate*)writer->private_data;
+  struct GeoArrowError* previous_error = v->error;
 
   switch (private_data->type) {
     case GEOARROW_TYPE_WKT:
       GeoArrowWKTWriterInitVisitor(&private_data->wkt_writer, v);
+      v->error = previous_error;
       return GEOARROW_OK;
     case GEOARROW_TYPE_WKB:
       GeoArrowWKBWriterInitVisitor(&private_data->wkb_writer, v);
+      v->error = previous_error;
       return GEOARROW_OK;
     default:
       return GeoArrowNativeWriterInitVisitor(&private_data->native_writer, v);
-- 
2.43.0


From 847b1fbf3377a2849f634d8b99478a6dd9786fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 18/84] fix: reject unmatched ring_end and geom_end in the WKB
 writer

---
 src/geoarrow/wkb_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..d6b7817 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -116,7 +116,8 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  // There is nothing to end unless there was a matching start
+  if (private->level == 0 || private->values.data == NULL) {
     return EINVAL;
   }
   memcpy(private->values.data + private->size_pos[private->level],
@@ -128,7 +129,8 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  // There is nothing to end unless there was a matching start
+  if (private->level == 0 || private->values.data == NULL) {
     return EINVAL;
   }
 
-- 
2.43.0


From e7627b13729b50695e5b89117b43de1274f326b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 19/84] fix: reject feat_end before feat_start in the WKB and
 WKT writers

---
 src/geoarrow/wkb_writer.c | 6 ++++++
 src/geoarrow/wkt_writer.c | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index d6b7817..4870000 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -167,6 +167,10 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
 
+  if (private->length == 0) {
+    return EINVAL;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -193,6 +197,8 @@ GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
   private->length = 0;
   private->level = 0;
   private->null_count = 0;
+  private->feat_is_null = 0;
+  private->size[0] = 0;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
   ArrowBufferInit(&private->values);
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index c49fb0c..3660868 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -258,6 +258,10 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
+  if (private->length == 0) {
+    return EINVAL;
+  }
+
   if (private->max_element_size_bytes >= 0 &&
       (private->values.size_bytes - private->values_feat_start) >
           private->max_element_size_bytes) {
@@ -289,8 +293,10 @@ GeoArrowErrorCode GeoArrowWKTWriterInit(struct GeoArrowWKTWriter* writer) {
 
   private->storage_type = NANOARROW_TYPE_STRING;
   private->length = 0;
-  private->level = 0;
+  private->level = -1;
   private->null_count = 0;
+  private->feat_is_null = 0;
+  private->values_feat_start = 0;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
   ArrowBufferInit(&private->values);
-- 
2.43.0


From ddb3f3f6b51948051062041b174be034c99b67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 20/84] fix: do not carry the state of a feature into the next
 batch of the native writer

---
 src/geoarrow/native_writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index a80a616..739e1f9 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -105,6 +105,11 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
 
+  private_data->feat_is_null = 0;
+  private_data->nesting_multipoint = 0;
+  private_data->level = 0;
+  memset(private_data->size, 0, sizeof(private_data->size));
+
   private_data->output_initialized = 1;
   return GEOARROW_OK;
 }
-- 
2.43.0


From 414932c98a92b70906ad0a993527d3fee005f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 21/84] fix: check the nesting level before adding a node in
 the geometry visitor

---
 src/geoarrow/geometry.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..6dddccc 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -237,6 +237,12 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
+
+  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
+    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
@@ -264,11 +270,6 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       break;
   }
 
-  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
-    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
-    return EINVAL;
-  }
-
   private_data->current_level++;
   return GEOARROW_OK;
 }
-- 
2.43.0


From 6b923f0f3adbc9db0c159cc4f486c67472965398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 22/84] fix: reject invalid dimensions in the geometry visitor

---
 src/geoarrow/geometry.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 6dddccc..3a3ab0f 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -243,6 +243,17 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
     return EINVAL;
   }
 
+  switch (dimensions) {
+    case GEOARROW_DIMENSIONS_XY:
+    case GEOARROW_DIMENSIONS_XYZ:
+    case GEOARROW_DIMENSIONS_XYM:
+    case GEOARROW_DIMENSIONS_XYZM:
+      break;
+    default:
+      GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)dimensions);
+      return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
-- 
2.43.0


From 84922a4b171230a32d89bbaef69a9e4e9517184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 23/84] fix: reject coordinates with fewer values than their
 geometry in the native writer

---
 src/geoarrow/native_writer.c | 41 ++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 739e1f9..713fb80 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -438,6 +438,32 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   return GEOARROW_OK;
 }
 
+// Appends coordinates whose dimensions were declared by the last geom_start. These may
+// not match when callbacks are called in an unexpected order.
+static GeoArrowErrorCode GeoArrowNativeWriterVisitCoords(
+    struct GeoArrowNativeWriterPrivate* private_data,
+    const struct GeoArrowCoordView* coords) {
+  int32_t n_values_required = 2;
+  switch (private_data->last_dimensions) {
+    case GEOARROW_DIMENSIONS_XYZ:
+    case GEOARROW_DIMENSIONS_XYM:
+      n_values_required = 3;
+      break;
+    case GEOARROW_DIMENSIONS_XYZM:
+      n_values_required = 4;
+      break;
+    default:
+      break;
+  }
+
+  if (coords->n_values < n_values_required) {
+    return EINVAL;
+  }
+
+  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
+                                     private_data->last_dimensions, 0, coords->n_coords);
+}
+
 static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
@@ -474,8 +500,7 @@ static int coords_point(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[0] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterVisitCoords(private_data, coords);
 }
 
 static int ring_end_point(struct GeoArrowVisitor* v) {
@@ -504,9 +529,6 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
   // If there weren't any coords (i.e., EMPTY), we need to write some NANs here
   // if there was >1 coords, we also need to error or we'll get misaligned output
   if (private_data->size[0] == 0) {
-    int n_dim =
-        _GeoArrowkNumDimensions[private_data->builder.view.schema_view.dimensions];
-    private_data->empty_coord.n_values = n_dim;
     NANOARROW_RETURN_NOT_OK(coords_point(v, &private_data->empty_coord));
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 coordinate to POINT");
@@ -598,8 +620,7 @@ static int coords_multipoint(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[1] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterVisitCoords(private_data, coords);
 }
 
 static int ring_end_multipoint(struct GeoArrowVisitor* v) {
@@ -756,8 +777,7 @@ static int coords_multilinestring(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[1] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterVisitCoords(private_data, coords);
 }
 
 static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
@@ -914,8 +934,7 @@ static int coords_multipolygon(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[2] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterVisitCoords(private_data, coords);
 }
 
 static int ring_end_multipolygon(struct GeoArrowVisitor* v) {
-- 
2.43.0


From 13957e412f4d59cd090f0b5ecb637b12c6de8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 24/84] fix: only write sizes within the values of the current
 batch in the WKB writer

---
 src/geoarrow/wkb_writer.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 4870000..7239b64 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -40,6 +40,18 @@ static inline int WKBWriterCheckLevel(struct WKBWriterPrivate* private) {
   }
 }
 
+// Writes the final size of the geometry or ring at the current level. There is none if
+// a ring_end matches the start of a POINT or if the start was part of another batch.
+static inline int WKBWriterWriteSize(struct WKBWriterPrivate* private) {
+  int64_t pos = private->size_pos[private->level];
+  if (pos < 0 || (pos + (int64_t)sizeof(uint32_t)) > private->values.size_bytes) {
+    return EINVAL;
+  }
+
+  memcpy(private->values.data + pos, private->size + private->level, sizeof(uint32_t));
+  return GEOARROW_OK;
+}
+
 static int feat_start_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   private->level = 0;
@@ -68,6 +80,7 @@ static int geom_start_wkb(struct GeoArrowVisitor* v,
   private->level++;
   private->geometry_type[private->level] = geometry_type;
   private->dimensions[private->level] = dimensions;
+  private->size_pos[private->level] = -1;
   private->size[private->level] = 0;
 
   NANOARROW_RETURN_NOT_OK(
@@ -120,8 +133,7 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
   if (private->level == 0 || private->values.data == NULL) {
     return EINVAL;
   }
-  memcpy(private->values.data + private->size_pos[private->level],
-         private->size + private->level, sizeof(uint32_t));
+  NANOARROW_RETURN_NOT_OK(WKBWriterWriteSize(private));
   private->level--;
   return GEOARROW_OK;
 }
@@ -135,8 +147,7 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
   }
 
   if (private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_POINT) {
-    memcpy(private->values.data + private->size_pos[private->level],
-           private->size + private->level, sizeof(uint32_t));
+    NANOARROW_RETURN_NOT_OK(WKBWriterWriteSize(private));
   } else if (private->size[private->level] == 0) {
     switch (private->dimensions[private->level]) {
       case GEOARROW_DIMENSIONS_XY:
-- 
2.43.0


From e2dee55afaa3aa9c3c3912d18fdf5fa1908c76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 25/84] fix: reject inconsistent nodes when visiting a geometry

---
 src/geoarrow/geometry.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 3a3ab0f..e5360c7 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -423,6 +423,19 @@ void GeoArrowGeometryInitVisitor(struct GeoArrowGeometry* geom,
 
 static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     const struct GeoArrowGeometryNode* node, struct GeoArrowVisitor* v) {
+  if (node->geometry_type != GEOARROW_GEOMETRY_TYPE_POINT &&
+      node->geometry_type != GEOARROW_GEOMETRY_TYPE_LINESTRING) {
+    GeoArrowErrorSet(v->error, "Expected sequence but got geometry_type: %d",
+                     (int)node->geometry_type);
+    return EINVAL;
+  }
+
+  if (node->dimensions < GEOARROW_DIMENSIONS_XY ||
+      node->dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)node->dimensions);
+    return EINVAL;
+  }
+
   double coords[COORD_CACHE_SIZE_ELEMENTS];
   struct GeoArrowCoordView coord_view;
   coord_view.n_values = _GeoArrowkNumDimensions[node->dimensions];
@@ -464,6 +477,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
-- 
2.43.0


From a229434e75b802c7201ab087b2542911ab85bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 26/84] fix: only count coordinates that were appended in the
 native writer

---
 src/geoarrow/native_writer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 713fb80..249d057 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -499,8 +499,9 @@ static int coords_point(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterVisitCoords(private_data, coords));
   private_data->size[0] += coords->n_coords;
-  return GeoArrowNativeWriterVisitCoords(private_data, coords);
+  return GEOARROW_OK;
 }
 
 static int ring_end_point(struct GeoArrowVisitor* v) {
@@ -619,8 +620,9 @@ static int coords_multipoint(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterVisitCoords(private_data, coords));
   private_data->size[1] += coords->n_coords;
-  return GeoArrowNativeWriterVisitCoords(private_data, coords);
+  return GEOARROW_OK;
 }
 
 static int ring_end_multipoint(struct GeoArrowVisitor* v) {
@@ -776,8 +778,9 @@ static int coords_multilinestring(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterVisitCoords(private_data, coords));
   private_data->size[1] += coords->n_coords;
-  return GeoArrowNativeWriterVisitCoords(private_data, coords);
+  return GEOARROW_OK;
 }
 
 static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
@@ -933,8 +936,9 @@ static int coords_multipolygon(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterVisitCoords(private_data, coords));
   private_data->size[2] += coords->n_coords;
-  return GeoArrowNativeWriterVisitCoords(private_data, coords);
+  return GEOARROW_OK;
 }
 
 static int ring_end_multipolygon(struct GeoArrowVisitor* v) {
-- 
2.43.0


From befa7c9b679dc960d111a37d8c593421b5b9436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 27/84] fix: free the reader of an earlier start() when
 starting a kernel again

---
 src/geoarrow/kernel.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..95caec6 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -239,6 +239,11 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
     case GEOARROW_TYPE_UNINITIALIZED:
       return EINVAL;
     default:
+      // A previous call to start() may already have initialized the reader
+      if (private_data->reader.private_data != NULL) {
+        GeoArrowArrayReaderReset(&private_data->reader);
+      }
+
       NANOARROW_RETURN_NOT_OK(
           GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
       if (private_data->visit_by_feature) {
-- 
2.43.0


From e439e9b4c1d8152d5361febb20bf5cb172efeefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 28/84] fix: do not leak or write through NULL when an
 allocation fails in nanoarrow

---
 src/vendor/nanoarrow/nanoarrow.c | 26 +++++++++++++++++++-------
 src/vendor/nanoarrow/nanoarrow.h | 21 +++++++++++----------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index da621c9..8c6af00 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -247,6 +247,9 @@ struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) {
 static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* allocator,
                                                  uint8_t* ptr, int64_t old_size,
                                                  int64_t new_size) {
+  NANOARROW_UNUSED(allocator);
+  NANOARROW_UNUSED(ptr);
+  NANOARROW_UNUSED(old_size);
   NANOARROW_UNUSED(new_size);
 
   // Attempting to reallocate a buffer with a custom deallocator is
@@ -257,11 +260,9 @@ static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* al
                           "ArrowBufferDeallocator()");
 #endif
 
-  // In release mode, ensure the the deallocator is called exactly
-  // once using the pointer it was given and return NULL, which
-  // will trigger the caller to return ENOMEM.
-  allocator->free(allocator, ptr, old_size);
-  *allocator = ArrowBufferAllocatorDefault();
+  // In release mode, return NULL, which will trigger the caller to return
+  // ENOMEM. The buffer keeps its data and its deallocator, which is called
+  // exactly once when the buffer is reset.
   return NULL;
 }
 
@@ -2458,6 +2459,12 @@ ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* array,
   ArrowBufferInit(&private_data->buffers[1]);
   private_data->buffer_data =
       (const void**)ArrowMalloc(sizeof(void*) * NANOARROW_MAX_FIXED_BUFFERS);
+  if (private_data->buffer_data == NULL) {
+    ArrowFree(private_data);
+    array->release = NULL;
+    return ENOMEM;
+  }
+
   for (int i = 0; i < NANOARROW_MAX_FIXED_BUFFERS; ++i) {
     private_data->buffer_data[i] = NULL;
   }
@@ -2551,7 +2558,12 @@ ArrowErrorCode ArrowArrayInitFromSchema(struct ArrowArray* array,
                                         struct ArrowError* error) {
   struct ArrowArrayView array_view;
   NANOARROW_RETURN_NOT_OK(ArrowArrayViewInitFromSchema(&array_view, schema, error));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromArrayView(array, &array_view, error));
+  int result = ArrowArrayInitFromArrayView(array, &array_view, error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayViewReset(&array_view);
+    return result;
+  }
+
   if (array_view.storage_type == NANOARROW_TYPE_DENSE_UNION ||
       array_view.storage_type == NANOARROW_TYPE_SPARSE_UNION) {
     struct ArrowArrayPrivateData* private_data =
@@ -2583,6 +2595,7 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
   }
 
   memset(array->children, 0, n_children * sizeof(struct ArrowArray*));
+  array->n_children = n_children;
 
   for (int64_t i = 0; i < n_children; i++) {
     array->children[i] = (struct ArrowArray*)ArrowMalloc(sizeof(struct ArrowArray));
@@ -2592,7 +2605,6 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
     array->children[i]->release = NULL;
   }
 
-  array->n_children = n_children;
   return NANOARROW_OK;
 }
 
diff --git a/src/vendor/nanoarrow/nanoarrow.h b/src/vendor/nanoarrow/nanoarrow.h
index 61cf62f..015160f 100644
--- a/src/vendor/nanoarrow/nanoarrow.h
+++ b/src/vendor/nanoarrow/nanoarrow.h
@@ -2535,15 +2535,15 @@ static inline ArrowErrorCode ArrowBufferResize(struct ArrowBuffer* buffer,
                            (shrink_to_fit && new_size_bytes < buffer->capacity_bytes);
 
   if (needs_reallocation) {
-    buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                                buffer->capacity_bytes, new_size_bytes);
+    uint8_t* data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
+                                                 buffer->capacity_bytes, new_size_bytes);
 
-    if (buffer->data == NULL && new_size_bytes > 0) {
-      buffer->capacity_bytes = 0;
-      buffer->size_bytes = 0;
+    // On failure the original allocation is still valid and still owned by buffer
+    if (data == NULL && new_size_bytes > 0) {
       return ENOMEM;
     }
 
+    buffer->data = data;
     buffer->capacity_bytes = new_size_bytes;
   }
 
@@ -2560,15 +2560,16 @@ static inline ArrowErrorCode ArrowBufferReserve(struct ArrowBuffer* buffer,
 
   int64_t new_capacity_bytes =
       _ArrowGrowByFactor(buffer->capacity_bytes, min_capacity_bytes);
-  buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                              buffer->capacity_bytes, new_capacity_bytes);
+  uint8_t* data =
+      buffer->allocator.reallocate(&buffer->allocator, buffer->data,
+                                   buffer->capacity_bytes, new_capacity_bytes);
 
-  if (buffer->data == NULL && new_capacity_bytes > 0) {
-    buffer->capacity_bytes = 0;
-    buffer->size_bytes = 0;
+  // On failure the original allocation is still valid and still owned by buffer
+  if (data == NULL && new_capacity_bytes > 0) {
     return ENOMEM;
   }
 
+  buffer->data = data;
   buffer->capacity_bytes = new_capacity_bytes;
   return NANOARROW_OK;
 }
-- 
2.43.0


From e854c13f120a5d3efea79abae51701fcd8acecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 29/84] fix: release a partly initialised schema when its
 initialisation fails

---
 src/geoarrow/schema.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..3677def 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,9 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
-  schema->release = NULL;
-
+static GeoArrowErrorCode GeoArrowSchemaInitInternal(struct ArrowSchema* schema,
+                                                    enum GeoArrowType type) {
   switch (type) {
     case GEOARROW_TYPE_WKB:
       return ArrowSchemaInitFromType(schema, NANOARROW_TYPE_BINARY);
@@ -205,6 +204,17 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  schema->release = NULL;
+
+  int result = GeoArrowSchemaInitInternal(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
   const char* ext_type = GeoArrowExtensionNameFromType(type);
@@ -236,5 +246,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From 8f4ae9fd2aa133c9679a01e0b6ff886f8a56eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 30/84] fix: keep the builder usable when it can't be prepared
 for the next batch

---
 src/geoarrow/builder.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..aeb0ffd 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -19,13 +19,9 @@ struct BuilderPrivate {
   struct ArrowBuffer* buffers[9];
 };
 
-static ArrowErrorCode GeoArrowBuilderInitArrayAndCachePointers(
-    struct GeoArrowBuilder* builder) {
+static ArrowErrorCode GeoArrowBuilderCachePointers(struct GeoArrowBuilder* builder) {
   struct BuilderPrivate* private = (struct BuilderPrivate*)builder->private_data;
 
-  NANOARROW_RETURN_NOT_OK(
-      ArrowArrayInitFromSchema(&private->array, &private->schema, NULL));
-
   private->validity = ArrowArrayValidityBitmap(&private->array);
 
   struct _GeoArrowFindBufferResult res;
@@ -102,7 +98,14 @@ static GeoArrowErrorCode GeoArrowBuilderInitInternal(struct GeoArrowBuilder* bui
   }
 
   // Initialize an empty array; cache the ArrowBitmap and ArrowBuffer pointers we need
-  result = GeoArrowBuilderInitArrayAndCachePointers(builder);
+  result = ArrowArrayInitFromSchema(&private->array, &private->schema, NULL);
+  if (result == GEOARROW_OK) {
+    result = GeoArrowBuilderCachePointers(builder);
+    if (result != GEOARROW_OK) {
+      private->array.release(&private->array);
+    }
+  }
+
   if (result != GEOARROW_OK) {
     private->schema.release(&private->schema);
     ArrowFree(private);
@@ -271,20 +274,14 @@ GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* builder,
     private->array.null_count = -1;
   }
 
-  // Move the result out of private so we can maybe prepare for the next round
-  struct ArrowArray tmp;
-  ArrowArrayMove(&private->array, &tmp);
-
-  // Prepare for another round of building
-  int result = GeoArrowBuilderInitArrayAndCachePointers(builder);
-  if (result != GEOARROW_OK) {
-    tmp.release(&tmp);
-    return result;
-  }
+  // Prepare an array for another round of building
+  struct ArrowArray next;
+  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromSchema(&next, &private->schema, NULL));
 
   // Move the result
-  ArrowArrayMove(&tmp, array);
-  return GEOARROW_OK;
+  ArrowArrayMove(&private->array, array);
+  ArrowArrayMove(&next, &private->array);
+  return GeoArrowBuilderCachePointers(builder);
 }
 
 void GeoArrowBuilderReset(struct GeoArrowBuilder* builder) {
-- 
2.43.0


From dea075fe5b3af0899a60a276e830ed48577a93ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 31/84] fix: stop when the box kernel fails to allocate its
 output

---
 src/geoarrow/kernel.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 95caec6..6d1673c 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -488,8 +488,12 @@ static ArrowErrorCode schema_box(struct ArrowSchema* schema,
   }
 
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(schema, GEOARROW_TYPE_BOX));
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaSetMetadata(schema, &metadata));
-  return GEOARROW_OK;
+  int result = GeoArrowSchemaSetMetadata(schema, &metadata);
+  if (result != GEOARROW_OK) {
+    schema->release(schema);
+  }
+
+  return result;
 }
 
 static ArrowErrorCode array_box(struct ArrowArray* array) {
@@ -525,6 +529,8 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
-- 
2.43.0


From 4c154029da63a565446f9bcc2e989bdc02515191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 32/84] fix: don't hand out an array when finishing a WKB or
 WKT writer fails

---
 src/geoarrow/wkb_writer.c | 17 +++++++++++++++--
 src/geoarrow/wkt_writer.c | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7239b64..39743fa 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -245,7 +245,14 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
 
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
+
+  int result = ArrowArrayInitFromType(array, private->storage_type);
+  if (result != NANOARROW_OK) {
+    // Remove the offset that was just appended
+    private->offsets.size_bytes -= sizeof(int32_t);
+    return result;
+  }
+
   ArrowArraySetValidityBitmap(array, &private->validity);
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
@@ -253,7 +260,13 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayRelease(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 3660868..194337f 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -349,7 +349,14 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   }
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
+
+  int result = ArrowArrayInitFromType(array, private->storage_type);
+  if (result != NANOARROW_OK) {
+    // Remove the offset that was just appended
+    private->offsets.size_bytes -= sizeof(int32_t);
+    return result;
+  }
+
   ArrowArraySetValidityBitmap(array, &private->validity);
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
@@ -357,7 +364,13 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayRelease(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKTWriterReset(struct GeoArrowWKTWriter* writer) {
-- 
2.43.0


From 5aa787ff662723bf16b7032eacec85a92bf143e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 33/84] fix: set the sizes of a geometry whose children are all
 empty

---
 src/geoarrow/geometry.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index e5360c7..2b72453 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -364,15 +364,14 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-  const uint8_t* end = private_data->coords.data + private_data->coords.size_bytes;
+  const uint8_t* end = private_data->coords.data;
+  if (private_data->coords.size_bytes > 0) {
+    end += private_data->coords.size_bytes;
+  }
+
   struct GeoArrowGeometryNode* node_begin = geom->root;
   struct GeoArrowGeometryNode* node_end = geom->root + geom->size_nodes;
 
-- 
2.43.0


From de793fbd5bc8d4f36a3a46a99cc358f32dba85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 34/84] fix: keep the coordinate builder consistent when
 reserving one of its buffers fails

---
 src/geoarrow/geoarrow_type_inline.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..c614978 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -735,6 +735,7 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
       return GEOARROW_OK;
 
     case GEOARROW_COORD_TYPE_SEPARATE:
+      result = GEOARROW_OK;
       for (int64_t i = last_buffer - n_values + 1; i <= last_buffer; i++) {
         // Sync the coord view size back to the buffer size
         builder->view.buffers[i].size_bytes = writable_view->size_coords * sizeof(double);
@@ -743,19 +744,26 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
         result = GeoArrowBuilderReserveBuffer(builder, i,
                                               additional_size_coords * sizeof(double));
         if (result != GEOARROW_OK) {
-          return result;
+          break;
         }
       }
 
-      // Sync the capacity and pointers back to the writable view
+      // Sync the capacity and pointers back to the writable view, also on failure
+      // because some of the buffers may have been moved. After a failure the buffers
+      // do not necessarily grow in step.
       writable_view->capacity_coords =
           builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
       for (int i = 0; i < n_values; i++) {
-        writable_view->values[i] =
-            builder->view.buffers[last_buffer - n_values + 1 + i].data.as_double;
+        struct GeoArrowWritableBufferView* buffer =
+            builder->view.buffers + last_buffer - n_values + 1 + i;
+        writable_view->values[i] = buffer->data.as_double;
+        if ((int64_t)(buffer->capacity_bytes / sizeof(double)) <
+            writable_view->capacity_coords) {
+          writable_view->capacity_coords = buffer->capacity_bytes / sizeof(double);
+        }
       }
 
-      return GEOARROW_OK;
+      return result;
     default:
       // Because there is no include <errno.h> here yet
       return -1;
-- 
2.43.0


From cd342e95ec0e461dd0b92f2b08f6cb598ec73182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 35/84] fix: mark deep-copied coordinates as being in native
 byte order

---
 src/geoarrow/geometry.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 2b72453..556a526 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -140,6 +140,9 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
           node->coord_stride[i] = n_values * sizeof(double);
         }
 
+        // The copied coordinates are always in native byte order
+        node->flags &= (uint8_t)~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
+
         coords_buf += bytes_written;
         coords_buf_size -= bytes_written;
         break;
-- 
2.43.0


From 7bfcba52ea350bbda9bf2af1b30a46279042b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 36/84] fix: compute the size of a written sequence with 64
 bits

---
 src/geoarrow/geoarrow_type_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index c614978..264a390 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -466,7 +466,7 @@ static inline int64_t GeoArrowGeometryNodeWriteSequence(
     const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
   uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];
   uint32_t n_coords = node->size;
-  int64_t bytes_required = n_values * n_coords * sizeof(double);
+  int64_t bytes_required = (int64_t)n_values * n_coords * sizeof(double);
   if (dst_size < bytes_required) {
     return bytes_required;
   }
-- 
2.43.0


From d990087bca559f2bef686e0e9b5113eab59d589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 37/84] fix: don't swap the bytes of the NaN that fills missing
 dimensions

---
 src/geoarrow/geoarrow_type_inline.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 264a390..5d06b6e 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -543,7 +543,9 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // The NaN used to fill missing dimensions is always in native byte order
+          if (map[i] != -1 &&
+              (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From 0a944d5b8fd7d056ed88fb5eeaba24028d4c5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 38/84] fix: reject buffer indices that the builder doesn't
 have

---
 src/geoarrow/builder.c              | 4 ++++
 src/geoarrow/geoarrow_type_inline.h | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index aeb0ffd..c5efdbd 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -135,6 +135,10 @@ GeoArrowErrorCode GeoArrowBuilderInitFromSchema(struct GeoArrowBuilder* builder,
 
 GeoArrowErrorCode GeoArrowBuilderReserveBuffer(struct GeoArrowBuilder* builder, int64_t i,
                                                int64_t additional_size_bytes) {
+  if (i < 0 || i >= builder->view.n_buffers) {
+    return EINVAL;
+  }
+
   struct BuilderPrivate* private = (struct BuilderPrivate*)builder->private_data;
   struct ArrowBuffer* buffer_src = private->buffers[i];
   struct GeoArrowWritableBufferView* buffer_dst = builder->view.buffers + i;
diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 5d06b6e..eea9c1d 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -285,8 +285,9 @@ static const int _GeoArrowkNumDimensions[] = {-1, 2, 3, 3, 4};
 
 static inline int GeoArrowBuilderBufferCheck(struct GeoArrowBuilder* builder, int64_t i,
                                              int64_t additional_size_bytes) {
-  return builder->view.buffers[i].capacity_bytes >=
-         (builder->view.buffers[i].size_bytes + additional_size_bytes);
+  return i >= 0 && i < builder->view.n_buffers &&
+         builder->view.buffers[i].capacity_bytes >=
+             (builder->view.buffers[i].size_bytes + additional_size_bytes);
 }
 
 static inline void GeoArrowBuilderAppendBufferUnsafe(struct GeoArrowBuilder* builder,
-- 
2.43.0


From 4c65edebf10856ec73783b22eec8ec31f19a7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 39/84] fix: keep offsets and validity in step when the native
 writer is used both ways

---
 src/geoarrow/native_writer.c | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 249d057..3d7fded 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -16,8 +16,6 @@ struct GeoArrowNativeWriterPrivate {
 
   struct ArrowBitmap validity;
   int64_t null_count;
-  int64_t current_length;
-  int32_t last_offset[4];
 
   // Fields to keep track of state
   int output_initialized;
@@ -98,9 +96,7 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
   }
 
   private_data->null_count = 0;
-  private_data->current_length = 0;
   NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
-  memset(private_data->last_offset, 0, sizeof(private_data->last_offset));
 
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
@@ -160,11 +156,21 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
     return EOVERFLOW;
   }
 
-  int32_t* p_last_offset = private_data->last_offset + offset;
-  (*p_last_offset) += size;
+  // Features may also have been written by the visitor, so continue from the last offset
+  // that is actually in the buffer
+  const struct GeoArrowWritableBufferView* buffer =
+      private_data->builder.view.buffers + 1 + offset;
+  int32_t last_offset;
+  memcpy(&last_offset, buffer->data.as_uint8 + buffer->size_bytes - sizeof(int32_t),
+         sizeof(int32_t));
+  if (size > (uint32_t)(INT32_MAX - last_offset)) {
+    GeoArrowErrorSet(error, "Offset exceeds INT32_MAX in GeoArrow native array");
+    return EOVERFLOW;
+  }
 
+  last_offset += (int32_t)size;
   GEOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, p_last_offset, 1));
+      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, &last_offset, 1));
 
   return GEOARROW_OK;
 }
@@ -261,14 +267,21 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
-  private_data->current_length++;
-
   if (!is_valid) {
     if (private_data->validity.buffer.data == NULL) {
+      // The length includes the feature that was just appended and those that were
+      // written by the visitor
+      int64_t current_length;
+      if (private_data->builder.view.n_offsets == 0) {
+        current_length = private_data->builder.view.coords.size_coords;
+      } else {
+        current_length =
+            private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
+      }
+
       NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, private_data->current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1,
-                              private_data->current_length - 1);
+          ArrowBitmapReserve(&private_data->validity, current_length));
+      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
     }
 
     private_data->null_count++;
-- 
2.43.0


From 7d4304ed48ac04e0c4dd79ad6bcedd34ee8dfb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 40/84] fix: leave nothing behind when the WKB writer rejects a
 geometry

---
 src/geoarrow/wkb_writer.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 39743fa..35ffc67 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -386,9 +386,18 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendBuffer(struct ArrowBuffer* value
 GeoArrowErrorCode GeoArrowWKBWriterAppend(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowGeometryView geom) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendBuffer(&private_data->values, geom));
+  int64_t values_size_bytes = private_data->values.size_bytes;
+  GEOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private_data->offsets, (int32_t)values_size_bytes));
+
+  GeoArrowErrorCode result = GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
+  if (result != GEOARROW_OK) {
+    // Remove what was written of a geometry that can't be written
+    private_data->values.size_bytes = values_size_bytes;
+    private_data->offsets.size_bytes -= sizeof(int32_t);
+    return result;
+  }
+
   GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 1));
   return GEOARROW_OK;
 }
-- 
2.43.0


From 3518e38f823059aea2f129f7a4e237bc1e6a740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 41/84] fix: mark UDFs and their factory as released

---
 src/geoarrow/scalar_udf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..8f45363 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -7,7 +7,7 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
                                              struct GeoArrowScalarUdf* out);
 
 static void GeoArrowScalarUdfVoidFactoryRelease(struct GeoArrowScalarUdfFactory* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 GeoArrowErrorCode GeoArrowScalarUdfFactoryInit(struct GeoArrowScalarUdfFactory* out,
@@ -66,7 +66,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
@@ -76,4 +76,5 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
   out->execute = &GeoArrowScalarUdfVoidExecute;
   out->get_last_error = &GeoArrowScalarUdfVoidGetLastError;
   out->release = &GeoArrowScalarUdfVoidRelease;
+  out->private_data = NULL;
 }
-- 
2.43.0


From f0af293b87f98266c741920125d1a3288f6e3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 42/84] fix: reject serialized arrays with an unexpected number
 of buffers

---
 src/geoarrow/array_reader.c |  8 ++++++++
 src/geoarrow/array_view.c   | 13 +++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/array_reader.c b/src/geoarrow/array_reader.c
index 896b5ac..b204d4a 100644
--- a/src/geoarrow/array_reader.c
+++ b/src/geoarrow/array_reader.c
@@ -225,6 +225,14 @@ GeoArrowErrorCode GeoArrowArrayReaderSetArray(struct GeoArrowArrayReader* reader
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKB_VIEW:
+      // ArrowArrayViewSetArray() looks at the buffers before checking n_buffers
+      if (array->n_buffers < 3) {
+        GeoArrowErrorSet(error,
+                         "Unexpected number of buffers for serialized array "
+                         "in GeoArrowArrayReaderSetArray()");
+        return EINVAL;
+      }
+
       GEOARROW_RETURN_NOT_OK(ArrowArrayViewSetArray(&private_data->src.arrow, array,
                                                     (struct ArrowError*)error));
       break;
diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..122cdc3 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -204,7 +204,15 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
 }
 
 static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
-    struct GeoArrowArrayView* array_view, const struct ArrowArray* array) {
+    struct GeoArrowArrayView* array_view, const struct ArrowArray* array,
+    struct GeoArrowError* error) {
+  if (array->n_buffers != 3) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers for serialized array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
@@ -250,7 +258,8 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
-- 
2.43.0


From e1da451b84d3aa690f53534d8796547f085d54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 43/84] fix: strided dimension iterators ignored the stride in
 [] and loaded one byte in post-increment

---
 src/geoarrow/hpp/array_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..9d287b3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -161,7 +161,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
@@ -202,7 +202,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From 4da99374edc5281ccd6824b1d5d6d5054c43be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 44/84] fix: empty XYZ and XYM boxes were missing bounds

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 9d287b3..d72788a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -433,7 +433,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -453,7 +454,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From 397f6e8c8faa96da133200a18b081cd9df54d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 45/84] fix: visiting edges into another coordinate type did
 not compile

---
 src/geoarrow/hpp/array_util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d72788a..d683b98 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -640,7 +640,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
@@ -1111,7 +1111,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1233,7 +1233,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From 6291f466c7dd7416de80e8a7b0693ba7407e7a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 46/84] fix: unaligned sequences could not be initialised from
 a view or sliced when byte-swapped

---
 src/geoarrow/hpp/array_util.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d683b98..a699cbd 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -705,8 +705,9 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size ||
+        !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
@@ -782,8 +783,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence out = *this;
     out.offset += offset;
     out.length = length;
     return out;
-- 
2.43.0


From e8af68bc1c32e54f68ce0cf5ad801eadb26cde24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 47/84] fix: a fresh WKBGeometry had indeterminate sizes

---
 src/geoarrow/hpp/wkb_util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..e596738 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -55,7 +55,7 @@ struct WKBSequence {
   uint32_t length{};
   uint32_t stride{};
   enum GeoArrowDimensions dimensions {};
-  uint8_t endianness;
+  uint8_t endianness{};
 
   /// \brief The number of coordinates in the sequence
   uint32_t size() const { return length; }
@@ -256,9 +256,9 @@ class WKBGeometry {
   // Vectors managed privately to ensure that all the stack-allocated memory associated
   // with the geometries is not freed when the vector is resized to zero.
   std::vector<WKBSequence> sequences_;
-  uint32_t num_sequences_;
+  uint32_t num_sequences_{};
   std::vector<WKBGeometry> geometries_;
-  uint32_t num_geometries_;
+  uint32_t num_geometries_{};
 };
 
 /// \brief Parse Well-known binary blobs
-- 
2.43.0


From 33f0aaf7acc07e98ec018e74163cb7c9ef738e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 48/84] fix: WKB type codes of 4000 and above were parsed as XY
 geometries

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index e596738..1629a0e 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -372,6 +372,8 @@ class WKBParser {
     geometry_type &= kEWKBMask;
 
     switch (geometry_type / 1000) {
+      case 0:
+        break;
       case 1:
         has_z = true;
         break;
@@ -382,6 +384,8 @@ class WKBParser {
         has_z = true;
         has_m = true;
         break;
+      default:
+        return INVALID_GEOMETRY_TYPE;
     }
 
     last_coord_stride_ = 2 + has_z + has_m;
-- 
2.43.0


From fbbf5e10efc02f9ac30636ca66eabfa75e1c2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 49/84] fix: limit the nesting of parsed WKB so that it cannot
 exhaust the stack

---
 src/geoarrow/hpp/wkb_util.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 1629a0e..62acdb9 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,9 +277,16 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief Geometries were nested more deeply than kMaxNestingLevel
+    TOO_MANY_LEVELS
   };
 
+  /// \brief The maximum number of geometries that can contain each other
+  ///
+  /// Parsing and visiting are recursive, so this bounds the use of the stack.
+  static constexpr int kMaxNestingLevel = 255;
+
   WKBParser() = default;
 
   /// \brief Parse a GeoArrowBufferView into out, placing the end of the sequence in
@@ -295,6 +302,7 @@ class WKBParser {
                const uint8_t** cursor = nullptr) {
     data_ = cursor_ = data;
     remaining_ = size;
+    level_ = 0;
     Status status = ParseGeometry(out);
     if (status != OK) {
       return status;
@@ -323,6 +331,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case TOO_MANY_LEVELS:
+        return "TOO_MANY_LEVELS";
       default:
         return "UNKNOWN";
     }
@@ -332,6 +342,7 @@ class WKBParser {
   const uint8_t* data_{};
   const uint8_t* cursor_{};
   size_t remaining_{};
+  int level_{};
   uint8_t last_endian_;
   enum GeoArrowDimensions last_dimensions_;
   uint32_t last_coord_stride_;
@@ -474,6 +485,11 @@ class WKBParser {
       return status;
     }
 
+    if (level_ >= kMaxNestingLevel) {
+      return TOO_MANY_LEVELS;
+    }
+
+    ++level_;
     uint32_t size = ReadUInt32Unchecked();
     for (uint32_t i = 0; i < size; ++i) {
       status = ParseGeometry(out->AppendGeometry());
@@ -482,6 +498,7 @@ class WKBParser {
       }
     }
 
+    --level_;
     return OK;
   }
 
-- 
2.43.0


From 293c6c8a1930d07e70aec5f51e7b5a5f1070c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 50/84] fix: parsing a WKB buffer view ignored the upper half
 of its size

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 62acdb9..35246bd 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -293,7 +293,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From a71c27cd5759b8d164a63e3d2c2eef8f077093fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 51/84] fix: setting a second array on an ArrayReader leaked
 the first

---
 src/geoarrow/hpp/array_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..09b016f 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -46,6 +46,10 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    if (array_.array.release != nullptr) {
+      array_.array.release(&array_.array);
+    }
+
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
     SetArrayNonOwning(&array_.array);
-- 
2.43.0


From 8f079f71246356d713e4cb2986b9b443bb0f5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 52/84] fix: InitSchema leaked the schema when the metadata
 could not be set

---
 src/geoarrow/hpp/geometry_data_type.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index c55e9b1..c5379fa 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -211,8 +211,11 @@ class GeometryDataType {
   void InitSchema(struct ArrowSchema* schema_out) const {
     GEOARROW_THROW_NOT_OK(nullptr,
                           GeoArrowSchemaInitExtension(schema_out, schema_view_.type));
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowSchemaSetMetadata(schema_out, &metadata_view_));
+    GeoArrowErrorCode result = GeoArrowSchemaSetMetadata(schema_out, &metadata_view_);
+    if (result != GEOARROW_OK) {
+      schema_out->release(schema_out);
+      throw ::geoarrow::ErrnoException(result, "GeoArrowSchemaSetMetadata()", nullptr);
+    }
   }
 
   void InitStorageSchema(struct ArrowSchema* schema_out) const {
-- 
2.43.0


From b7c8fe24176d5dd80253ccb56053e0628993597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 53/84] fix: SetBufferWrapped() with a buffer view did not
 compile

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..74e6b13 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -36,7 +36,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From 6e4c265f4a2cbc6e7d43a700caf1cef72e7d34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 54/84] fix: ArrayWriter::SetFlatMultipoint() set the precision
 instead

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 74e6b13..ea4ffff 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -106,7 +106,7 @@ class ArrayWriter {
 
   void SetFlatMultipoint(bool flat_multipoint) {
     GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+                          GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From 6d17286f8319757092b6302a7f543aaf2ed19a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 55/84] fix: extension_metadata() and crs() wrote to NULL when
 out of memory

---
 src/geoarrow/hpp/geometry_data_type.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index c5379fa..9d93f73 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -235,10 +235,8 @@ class GeometryDataType {
 
   std::string extension_metadata() const {
     int64_t metadata_size = GeoArrowMetadataSerialize(&metadata_view_, nullptr, 0);
-    char* out = reinterpret_cast<char*>(malloc(metadata_size));
-    GeoArrowMetadataSerialize(&metadata_view_, out, metadata_size);
-    std::string metadata(out, metadata_size);
-    free(out);
+    std::string metadata(metadata_size, '\0');
+    GeoArrowMetadataSerialize(&metadata_view_, &metadata[0], metadata_size);
     return metadata;
   }
 
@@ -269,11 +267,9 @@ class GeometryDataType {
 
   std::string crs() const {
     int64_t len = GeoArrowUnescapeCrs(metadata_view_.crs, nullptr, 0);
-    char* out = reinterpret_cast<char*>(malloc(len));
-    GeoArrowUnescapeCrs(metadata_view_.crs, out, len);
-    std::string out_str(out, len);
-    free(out);
-    return out_str;
+    std::string out(len, '\0');
+    GeoArrowUnescapeCrs(metadata_view_.crs, &out[0], len);
+    return out;
   }
 
   std::string ToString(size_t max_crs_size = 40) const {
-- 
2.43.0


From 619efd366d81a07160f9a1bfdffbf8dc09b0e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 56/84] fix: a builder given an empty owned buffer without data
 could not be finished

---
 src/geoarrow/builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index c5efdbd..1170bec 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -255,6 +255,12 @@ GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* builder,
   for (int64_t i = 0; i < builder->view.n_buffers; i++) {
     private->buffers[i]->size_bytes = builder->view.buffers[i].size_bytes;
 
+    // Finishing allocates a buffer in place of NULL, which is not possible for an
+    // owned buffer: an owned NULL has nothing to keep alive, so give it back now
+    if (private->buffers[i]->data == NULL && private->buffers[i]->size_bytes == 0) {
+      ArrowBufferReset(private->buffers[i]);
+    }
+
     res.array = NULL;
     _GeoArrowArrayFindBuffer(&private->array, &res, i, 0, 0);
     if (res.array == NULL) {
-- 
2.43.0


From 92ccf7ea51d4cf2195dbe1a543f5229dfb1c4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 57/84] fix: CArrayView.buffers() lost an offset buffer of
 multipolygons and cut short or overran others

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 61 +++++++++++------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index cb24350..5fdcc84 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -172,7 +172,7 @@ cdef extern from "geoarrow_type.h":
         void* private_data
 
     struct GeoArrowCoordView:
-        const double* values[4]
+        const double* values[8]
         int64_t n_coords
         int32_t n_values
         int32_t coords_stride
@@ -186,6 +186,7 @@ cdef extern from "geoarrow_type.h":
         const int32_t* offsets[3]
         int32_t first_offset[3]
         int32_t last_offset[3]
+        const uint8_t* data
         GeoArrowCoordView coords
 
 
@@ -560,52 +561,50 @@ cdef class CArrayView:
             raise ValueError(error.message.decode('UTF-8'))
 
     def buffers(self):
-        buffers = []
+        # Each buffer starts where the array's buffer starts (i.e., array offsets are
+        # not applied) and ends with the last value that the array refers to.
+        cdef GeoArrowArrayView* view = &self.c_array_view
+        cdef bool is_serialized = (view.schema_view.type == GEOARROW_TYPE_WKB or
+                                   view.schema_view.type == GEOARROW_TYPE_WKT)
+        cdef int64_t n_values = view.length[0]
         cdef int64_t length
+        cdef int i
 
         # Validity not quite implemented
-        buf = None
-        buffers.append(buf)
+        buffers = [None]
 
-        if self.c_array_view.n_offsets > 0:
-            buf = CArrayViewBuffer(
-                self,
-                <uintptr_t>self.c_array_view.offsets[0],
-                4,
-                self.c_array_view.offset[0] + self.c_array_view.length[0] + 1,
-                'i'
-            )
+        for i in range(view.n_offsets):
+            if view.length[i] > 0:
+                length = view.offset[i] + n_values + 1
+            else:
+                # There may be no offsets: for native types the view has a zero instead
+                length = 0 if is_serialized else 1
+
+            buf = CArrayViewBuffer(self, <uintptr_t>view.offsets[i], 4, length, 'i')
             buffers.append(buf)
 
-        if self.c_array_view.n_offsets > 1:
-            for i in range(self.c_array_view.n_offsets - 1):
-                length = self.c_array_view.last_offset[i]
-                buf = CArrayViewBuffer(
-                    self,
-                    <uintptr_t>self.c_array_view.offsets[i + 1],
-                    4,
-                    length + 1,
-                    'i'
-                )
+            if not is_serialized:
+                n_values = view.last_offset[i]
+            elif length > 0:
+                n_values = view.offsets[i][length - 1]
+
+        if is_serialized:
+            buf = CArrayViewBuffer(self, <uintptr_t>view.data, 1, n_values, 'B')
             buffers.append(buf)
+            return buffers
 
-        cdef GeoArrowCoordView* coords = &self.c_array_view.coords
+        cdef GeoArrowCoordView* coords = &view.coords
+        length = view.offset[view.n_offsets] + n_values
         if coords.coords_stride == 1:
             for i in range(coords.n_values):
-                buf = CArrayViewBuffer(
-                    self,
-                    <uintptr_t>coords.values[i],
-                    8,
-                    coords.n_coords,
-                    'd'
-                )
+                buf = CArrayViewBuffer(self, <uintptr_t>coords.values[i], 8, length, 'd')
                 buffers.append(buf)
         elif coords.coords_stride == coords.n_values:
             buf = CArrayViewBuffer(
                 self,
                 <uintptr_t>coords.values[0],
                 8,
-                coords.n_coords * coords.n_values,
+                length * coords.n_values,
                 'd'
             )
             buffers.append(buf)
-- 
2.43.0


From d8301f186448b7a4e946c4975540b27921dbe5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 58/84] fix: creating a CArrayView from an unsuitable array
 raised AttributeError

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 5fdcc84..0e326cf 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -558,7 +558,7 @@ cdef class CArrayView:
 
         result = GeoArrowArrayViewSetArray(&self.c_array_view, &array.c_array, &error.c_error)
         if result != GEOARROW_OK:
-            raise ValueError(error.message.decode('UTF-8'))
+            error.raise_message("GeoArrowArrayViewSetArray()", result)
 
     def buffers(self):
         # Each buffer starts where the array's buffer starts (i.e., array offsets are
-- 
2.43.0


From 16f6347a4d3266aac5f45e80990f826e08c9115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 59/84] fix: buffers of a CArrayView could be written to

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 0e326cf..bee71e3 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -5,7 +5,7 @@
 """Low-level geoarrow Python bindings."""
 
 from libc.stdint cimport uint8_t, int32_t, int64_t, uintptr_t
-from cpython cimport Py_buffer, PyObject
+from cpython cimport Py_buffer, PyBUF_WRITABLE, PyObject
 from libcpp cimport bool
 from libcpp.string cimport string
 
@@ -629,6 +629,9 @@ cdef class CArrayViewBuffer:
         self._format = format
 
     def __getbuffer__(self, Py_buffer *buffer, int flags):
+        if flags & PyBUF_WRITABLE:
+            raise BufferError("CArrayViewBuffer is not writable")
+
         buffer.buf = self._ptr
 
         if self._format == 'i':
-- 
2.43.0


From 2fdc6f08f10584e9e058cad31f3aa9cfadf9f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 60/84] fix: starting a kernel read past the end of empty or
 invalid options

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 32 +++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index bee71e3..28236d2 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -5,6 +5,7 @@
 """Low-level geoarrow Python bindings."""
 
 from libc.stdint cimport uint8_t, int32_t, int64_t, uintptr_t
+from libc.string cimport memcpy
 from cpython cimport Py_buffer, PyBUF_WRITABLE, PyObject
 from libcpp cimport bool
 from libcpp.string cimport string
@@ -496,11 +497,38 @@ cdef class CKernel:
         if self.c_kernel.release != NULL:
             self.c_kernel.release(&self.c_kernel)
 
-    def start(self, SchemaHolder schema, const char* options):
+    @staticmethod
+    def _assert_options_valid(const uint8_t[::1] options):
+        # The kernel is passed a pointer and relies on the lengths found in the
+        # (Arrow schema metadata-encoded) options
+        cdef int64_t pos = 4
+        cdef int32_t n = 0
+        cdef int32_t size = 0
+        if options.shape[0] < pos:
+            raise ValueError("Kernel options are not valid encoded metadata")
+
+        memcpy(&n, &options[0], 4)
+        for _ in range(2 * <int64_t>n):
+            if options.shape[0] - pos < 4:
+                raise ValueError("Kernel options are not valid encoded metadata")
+            memcpy(&size, &options[pos], 4)
+            pos += 4
+            if size < 0 or size > options.shape[0] - pos:
+                raise ValueError("Kernel options are not valid encoded metadata")
+            pos += size
+
+    def start(self, SchemaHolder schema, options):
+        # No options are no bytes, for which there is nothing to read
+        cdef const char* c_options = options
+        if len(options) > 0:
+            CKernel._assert_options_valid(options)
+        else:
+            c_options = NULL
+
         cdef Error error = Error()
         out = SchemaHolder()
         cdef int result = self.c_kernel.start(&self.c_kernel, &schema.c_schema,
-                                              options, &out.c_schema, &error.c_error)
+                                              c_options, &out.c_schema, &error.c_error)
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::start()", result)
 
-- 
2.43.0


From 10cef85572ddf83a59520b62120be4e5269f8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 61/84] fix: the error for an unknown kernel did not name it

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 28236d2..0f9a013 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -491,7 +491,7 @@ cdef class CKernel:
         self.cname_str = cname.decode("UTF-8")
         cdef int result = GeoArrowKernelInit(&self.c_kernel, cname, NULL)
         if result != GEOARROW_OK:
-            Error.raise_error("GeoArrowKernelInit('{self.cname_str}'>)", result)
+            Error.raise_error(f"GeoArrowKernelInit('{self.cname_str}')", result)
 
     def __dealloc__(self):
         if self.c_kernel.release != NULL:
-- 
2.43.0


From 05b7e9f284609dac086bef91d895450cdb711cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 62/84] fix: CKernel.finish() always failed for scalar kernels

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 0f9a013..d4898be 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -497,6 +497,9 @@ cdef class CKernel:
         if self.c_kernel.release != NULL:
             self.c_kernel.release(&self.c_kernel)
 
+    def _is_agg(self):
+        return self.cname_str.endswith("_agg")
+
     @staticmethod
     def _assert_options_valid(const uint8_t[::1] options):
         # The kernel is passed a pointer and relies on the lengths found in the
@@ -549,9 +552,11 @@ cdef class CKernel:
     def finish(self):
         cdef Error error = Error()
         out = ArrayHolder()
+        # Only aggregate kernels have a result here
+        cdef ArrowArray* c_out = &out.c_array if self._is_agg() else NULL
         cdef int result
         with nogil:
-            result = self.c_kernel.finish(&self.c_kernel, &out.c_array, &error.c_error)
+            result = self.c_kernel.finish(&self.c_kernel, c_out, &error.c_error)
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-- 
2.43.0


From e268c3475e1a6a109e2be5a29c0d94e259479001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 63/84] fix: CKernel.push_batch_agg() crashed for scalar
 kernels

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index d4898be..c4d7d39 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -561,6 +561,9 @@ cdef class CKernel:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
     def push_batch_agg(self, ArrayHolder array):
+        if not self._is_agg():
+            raise ValueError(f"Kernel '{self.cname_str}' is not an aggregate kernel")
+
         cdef Error error = Error()
         cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,
                                                    NULL, &error.c_error)
-- 
2.43.0


From 26ade5b0d946e4f60a96e25b39e831f00e786c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 64/84] fix: using a kernel whose start() had failed could
 crash

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index c4d7d39..5f267cb 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -485,6 +485,7 @@ cdef class CGeometryDataType:
 cdef class CKernel:
     cdef GeoArrowKernel c_kernel
     cdef object cname_str
+    cdef bool _failed
 
     def __cinit__(self, const char* name):
         cdef const char* cname = <const char*>name
@@ -497,6 +498,10 @@ cdef class CKernel:
         if self.c_kernel.release != NULL:
             self.c_kernel.release(&self.c_kernel)
 
+    def _assert_usable(self):
+        if self._failed:
+            raise ValueError(f"start() has failed for kernel '{self.cname_str}'")
+
     def _is_agg(self):
         return self.cname_str.endswith("_agg")
 
@@ -532,12 +537,15 @@ cdef class CKernel:
         out = SchemaHolder()
         cdef int result = self.c_kernel.start(&self.c_kernel, &schema.c_schema,
                                               c_options, &out.c_schema, &error.c_error)
+        # If start() failed, the only thing that can be done with the kernel is start()
+        self._failed = result != GEOARROW_OK
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::start()", result)
 
         return out
 
     def push_batch(self, ArrayHolder array):
+        self._assert_usable()
         cdef Error error = Error()
         out = ArrayHolder()
         cdef int result
@@ -550,6 +558,7 @@ cdef class CKernel:
         return out
 
     def finish(self):
+        self._assert_usable()
         cdef Error error = Error()
         out = ArrayHolder()
         # Only aggregate kernels have a result here
@@ -561,6 +570,7 @@ cdef class CKernel:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
     def push_batch_agg(self, ArrayHolder array):
+        self._assert_usable()
         if not self._is_agg():
             raise ValueError(f"Kernel '{self.cname_str}' is not an aggregate kernel")
 
@@ -571,6 +581,7 @@ cdef class CKernel:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::push_batch()", result)
 
     def finish_agg(self):
+        self._assert_usable()
         cdef Error error = Error()
         out = ArrayHolder()
         cdef int result = self.c_kernel.finish(&self.c_kernel, &out.c_array, &error.c_error)
-- 
2.43.0


From 95e634e015adaec892213e91736e0b7cb3cd2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 65/84] fix: None or a released array or schema crashed kernels
 and array views

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 5f267cb..6335f3d 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -320,9 +320,12 @@ cdef class SchemaHolder:
     def is_valid(self):
         return self.c_schema.release != NULL
 
-    def release(self):
+    def _assert_valid(self):
         if self.c_schema.release == NULL:
             raise ValueError('Schema is already released')
+
+    def release(self):
+        self._assert_valid()
         self.c_schema.release(&self.c_schema)
 
 
@@ -342,9 +345,12 @@ cdef class ArrayHolder:
     def is_valid(self):
         return self.c_array.release != NULL
 
-    def release(self):
+    def _assert_valid(self):
         if self.c_array.release == NULL:
             raise ValueError('Array is already released')
+
+    def release(self):
+        self._assert_valid()
         self.c_array.release(&self.c_array)
 
 
@@ -473,12 +479,12 @@ cdef class CGeometryDataType:
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromExtension(SchemaHolder schema):
+    def FromExtension(SchemaHolder schema not None):
         cdef GeometryDataType ctype = GeometryDataType.Make1(&schema.c_schema)
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromStorage(SchemaHolder schema, string extension_name, string extension_metadata):
+    def FromStorage(SchemaHolder schema not None, string extension_name, string extension_metadata):
         cdef GeometryDataType ctype = GeometryDataType.Make2(&schema.c_schema, extension_name, extension_metadata)
         return CGeometryDataType._move_from_ctype(&ctype)
 
@@ -525,7 +531,8 @@ cdef class CKernel:
                 raise ValueError("Kernel options are not valid encoded metadata")
             pos += size
 
-    def start(self, SchemaHolder schema, options):
+    def start(self, SchemaHolder schema not None, options):
+        schema._assert_valid()
         # No options are no bytes, for which there is nothing to read
         cdef const char* c_options = options
         if len(options) > 0:
@@ -544,7 +551,8 @@ cdef class CKernel:
 
         return out
 
-    def push_batch(self, ArrayHolder array):
+    def push_batch(self, ArrayHolder array not None):
+        array._assert_valid()
         self._assert_usable()
         cdef Error error = Error()
         out = ArrayHolder()
@@ -569,7 +577,8 @@ cdef class CKernel:
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-    def push_batch_agg(self, ArrayHolder array):
+    def push_batch_agg(self, ArrayHolder array not None):
+        array._assert_valid()
         self._assert_usable()
         if not self._is_agg():
             raise ValueError(f"Kernel '{self.cname_str}' is not an aggregate kernel")
@@ -595,7 +604,8 @@ cdef class CArrayView:
     cdef GeoArrowArrayView c_array_view
     cdef object _base
 
-    def __cinit__(self, ArrayHolder array, SchemaHolder schema):
+    def __cinit__(self, ArrayHolder array not None, SchemaHolder schema not None):
+        array._assert_valid()
         self._base = array
 
         cdef Error error = Error()
@@ -706,7 +716,7 @@ cdef class CBuilder:
     cdef GeoArrowBuilder c_builder
     cdef SchemaHolder _schema
 
-    def __cinit__(self, SchemaHolder schema):
+    def __cinit__(self, SchemaHolder schema not None):
         self._schema = schema
         cdef Error error = Error()
         cdef int result = GeoArrowBuilderInitFromSchema(&self.c_builder, &schema.c_schema, &error.c_error)
-- 
2.43.0


From 878f7bac916191905b73e897fdc3275801e99d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 66/84] fix: CBuilder took the wrong values from strided
 buffers

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 6335f3d..1115d13 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -727,19 +727,19 @@ cdef class CBuilder:
         GeoArrowBuilderReset(&self.c_builder)
 
     def set_buffer_uint8(self, int64_t i, object obj):
-        cdef const unsigned char[:] view = memoryview(obj)
+        cdef const unsigned char[::1] view = memoryview(obj)
         cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
-        cdef const int32_t[:] view = memoryview(obj)
+        cdef const int32_t[::1] view = memoryview(obj)
         cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
-        cdef const double[:] view = memoryview(obj)
+        cdef const double[::1] view = memoryview(obj)
         cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 8)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
-- 
2.43.0


From fc06018431e4bacffb1fe806016d482f75e82d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 67/84] fix: CBuilder refused empty buffers

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 1115d13..74a87cd 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -728,19 +728,22 @@ cdef class CBuilder:
 
     def set_buffer_uint8(self, int64_t i, object obj):
         cdef const unsigned char[::1] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0])
+        cdef const unsigned char* data = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, data, view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
         cdef const int32_t[::1] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 4)
+        cdef const int32_t* data = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, data, view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
         cdef const double[::1] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 8)
+        cdef const double* data = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, data, view.shape[0] * 8)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
-- 
2.43.0


From 72d185de0d5678ea2a581bd017b19df5f8efdc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 68/84] fix: resizing an object given to CBuilder left a
 dangling buffer

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 74a87cd..bb949d3 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -727,21 +727,27 @@ cdef class CBuilder:
         GeoArrowBuilderReset(&self.c_builder)
 
     def set_buffer_uint8(self, int64_t i, object obj):
-        cdef const unsigned char[::1] view = memoryview(obj)
+        # The memoryview must live as long as the data is used: obj may otherwise resize
+        obj = memoryview(obj)
+        cdef const unsigned char[::1] view = obj
         cdef const unsigned char* data = &(view[0]) if view.shape[0] > 0 else NULL
         cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, data, view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
-        cdef const int32_t[::1] view = memoryview(obj)
+        # The memoryview must live as long as the data is used: obj may otherwise resize
+        obj = memoryview(obj)
+        cdef const int32_t[::1] view = obj
         cdef const int32_t* data = &(view[0]) if view.shape[0] > 0 else NULL
         cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, data, view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
-        cdef const double[::1] view = memoryview(obj)
+        # The memoryview must live as long as the data is used: obj may otherwise resize
+        obj = memoryview(obj)
+        cdef const double[::1] view = obj
         cdef const double* data = &(view[0]) if view.shape[0] > 0 else NULL
         cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, data, view.shape[0] * 8)
         if result != GEOARROW_OK:
-- 
2.43.0


From f69ea7b916c526a5a9957ad733ef692508615859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 69/84] fix: buffers owned by Python objects were freed without
 holding the GIL

---
 .../src/geoarrow/c/geoarrow_python/geoarrow_python.h      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index 7c8dd8e..4f1fcf3 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -7,9 +7,15 @@
 #include "geoarrow/geoarrow.h"
 
 static void PyGeoArrowBufferFree(uint8_t* ptr, int64_t size, void* private_data) {
-  // Acquire the GIL? This buffer very well maybe freed from another thread.
+  // This buffer may be freed from another thread (or after the interpreter is gone)
+  if (!Py_IsInitialized()) {
+    return;
+  }
+
+  PyGILState_STATE gil_state = PyGILState_Ensure();
   PyObject* obj = (PyObject*)private_data;
   Py_DECREF(obj);
+  PyGILState_Release(gil_state);
 }
 
 static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* builder,
-- 
2.43.0


From 09d77e80226c97d49ac5487ba6cfe83c4928632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 70/84] fix: repr() of a CGeometryDataType failed if a
 multi-byte character of the CRS was cut off

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index bb949d3..05d0972 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -364,7 +364,7 @@ cdef class CGeometryDataType:
         if self.c_vector_type.id() == GEOARROW_TYPE_UNINITIALIZED:
             return "<Uninitialized CGeometryDataType>"
 
-        return self.c_vector_type.ToString().decode()
+        return self.c_vector_type.ToString().decode("UTF-8", "replace")
 
     @staticmethod
     cdef _move_from_ctype(GeometryDataType* c_vector_type):
-- 
2.43.0


From 9af2b0764f89b4287973de70590cc6c8292b1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 71/84] fix: array views accepted coordinate and box arrays
 with other buffers than a struct or fixed-size list has

---
 src/geoarrow/array_view.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 122cdc3..0559402 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -170,6 +170,13 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
         return EINVAL;
     }
 
+    if (array->n_buffers != 1) {
+      GeoArrowErrorSet(error,
+                       "Unexpected number of buffers for coordinate array "
+                       "in GeoArrowArrayViewSetArray()");
+      return EINVAL;
+    }
+
     return GEOARROW_OK;
   }
 
@@ -249,6 +256,13 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArrayBox(
         ((const double*)array->children[i]->buffers[1]) + array->children[i]->offset;
   }
 
+  if (array->n_buffers != 1) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers for box array struct "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From cbd86a64bd70dcefecc3c71e983c900592b44b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 72/84] fix: GeometryExtensionType::Make() dropped the metadata
 of the GeometryDataType it was given

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index af8465f..41016fb 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -42,7 +42,10 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
   static ::arrow::Result<std::shared_ptr<GeometryExtensionType>> Make(
       GeometryDataType type, const std::string& metadata = "") {
     try {
-      type = GeometryDataType::Make(type.id(), metadata);
+      if (!metadata.empty()) {
+        type = GeometryDataType::Make(type.id(), metadata);
+      }
+
       internal::SchemaHolder schema{};
       type.InitStorageSchema(&schema.schema);
       ARROW_ASSIGN_OR_RAISE(auto storage_type, ::arrow::ImportType(&schema.schema));
-- 
2.43.0


From c830c39c26bcee17e2ff290accdea46f24cacfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 73/84] fix: extension types derived by WithGeometryType(),
 WithCoordType() or WithDimensions() kept the storage type of the original

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 30 +++++++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index 41016fb..5fe2ddd 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -111,27 +111,47 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithGeometryType(
       enum GeoArrowGeometryType geometry_type) {
-    return FromStorageAndType(storage_type(), type_.WithGeometryType(geometry_type));
+    try {
+      return Make(type_.WithGeometryType(geometry_type));
+    } catch (Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithCoordType(
       enum GeoArrowCoordType coord_type) const {
-    return FromStorageAndType(storage_type(), type_.WithCoordType(coord_type));
+    try {
+      return Make(type_.WithCoordType(coord_type));
+    } catch (Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithDimensions(
       enum GeoArrowDimensions dimensions) const {
-    return FromStorageAndType(storage_type(), type_.WithDimensions(dimensions));
+    try {
+      return Make(type_.WithDimensions(dimensions));
+    } catch (Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithEdgeType(
       enum GeoArrowEdgeType edge_type) {
-    return FromStorageAndType(storage_type(), type_.WithEdgeType(edge_type));
+    try {
+      return FromStorageAndType(storage_type(), type_.WithEdgeType(edge_type));
+    } catch (Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithCrs(
       const std::string& crs, enum GeoArrowCrsType crs_type = GEOARROW_CRS_TYPE_UNKNOWN) {
-    return FromStorageAndType(storage_type(), type_.WithCrs(crs, crs_type));
+    try {
+      return FromStorageAndType(storage_type(), type_.WithCrs(crs, crs_type));
+    } catch (Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
  private:
-- 
2.43.0


From b49a0f65f402597ee8d0ae1bd1f99960a4dbea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 74/84] fix: RegisterAll() and UnregisterAll() left out
 geoarrow.wkt and geoarrow.box

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index 5fe2ddd..d7bd025 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -182,8 +182,9 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
       : ::arrow::ExtensionType(storage_type), extension_name_(extension_name) {}
 
   static std::vector<std::string> all_ext_names() {
-    return {"geoarrow.wkb",         "geoarrow.point",      "geoarrow.linestring",
-            "geoarrow.polygon",     "geoarrow.multipoint", "geoarrow.multilinestring",
+    return {"geoarrow.wkb",          "geoarrow.wkt",        "geoarrow.box",
+            "geoarrow.point",        "geoarrow.linestring", "geoarrow.polygon",
+            "geoarrow.multipoint",   "geoarrow.multilinestring",
             "geoarrow.multipolygon"};
   }
 };
-- 
2.43.0


From 8dbc7cb993f0ef6969688365acd5129e641008fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 75/84] fix: extension types for interleaved XYZ and XYM
 coordinates compared as equal

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index d7bd025..28db51b 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -75,8 +75,11 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
   std::string extension_name() const override { return extension_name_; }
 
   bool ExtensionEquals(const ::arrow::ExtensionType& other) const override {
-    return extension_name() == other.extension_name() &&
-           Serialize() == other.Serialize() &&
+    // Arrow does not compare the names of list children, which are all that sets
+    // interleaved XYZ and XYM apart
+    auto geo_other = dynamic_cast<const GeometryExtensionType*>(&other);
+    return geo_other != nullptr && extension_name() == other.extension_name() &&
+           type_.id() == geo_other->type_.id() && Serialize() == other.Serialize() &&
            storage_type()->Equals(other.storage_type());
   }
 
-- 
2.43.0


From 856dd4ffb8ede87d842180438f9d7fa854c8e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 76/84] fix: point coords of dimensions a node doesn't have at
 a NaN

GeoArrowGeometryNodeSetInterleaved() and GeoArrowGeometryNodeSetSeparated()
pointed all four coords at the buffer, beyond its end for the dimensions that
aren't there (and from NULL for an empty buffer).
---
 src/geoarrow/geoarrow_type_inline.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index eea9c1d..313bd2a 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -388,11 +388,18 @@ static inline void GeoArrowGeometryNodeSetInterleaved(
   node->geometry_type = (uint8_t)geometry_type;
   node->dimensions = (uint8_t)dimensions;
 
-  int32_t coord_stride_bytes = _GeoArrowkNumDimensions[dimensions] * sizeof(double);
+  int32_t n_dimensions = _GeoArrowkNumDimensions[dimensions];
+  int32_t coord_stride_bytes = n_dimensions * sizeof(double);
   node->size = (uint32_t)(coords.size_bytes / coord_stride_bytes);
   for (int i = 0; i < 4; i++) {
-    node->coord_stride[i] = coord_stride_bytes;
-    node->coords[i] = coords.data + (i * sizeof(double));
+    if (i < n_dimensions && node->size > 0) {
+      node->coord_stride[i] = coord_stride_bytes;
+      node->coords[i] = coords.data + (i * sizeof(double));
+    } else {
+      // Empty dimensions must point to a valid NaN
+      node->coord_stride[i] = 0;
+      node->coords[i] = _GeoArrowkEmptyPointCoords;
+    }
   }
 }
 
@@ -406,11 +413,18 @@ static inline void GeoArrowGeometryNodeSetSeparated(
   node->geometry_type = (uint8_t)geometry_type;
   node->dimensions = (uint8_t)dimensions;
 
-  int64_t dimension_size_bytes = coords.size_bytes / _GeoArrowkNumDimensions[dimensions];
+  int32_t n_dimensions = _GeoArrowkNumDimensions[dimensions];
+  int64_t dimension_size_bytes = coords.size_bytes / n_dimensions;
   node->size = (uint32_t)(dimension_size_bytes / sizeof(double));
   for (int i = 0; i < 4; i++) {
-    node->coord_stride[i] = sizeof(double);
-    node->coords[i] = coords.data + (i * dimension_size_bytes);
+    if (i < n_dimensions && node->size > 0) {
+      node->coord_stride[i] = sizeof(double);
+      node->coords[i] = coords.data + (i * dimension_size_bytes);
+    } else {
+      // Empty dimensions must point to a valid NaN
+      node->coord_stride[i] = 0;
+      node->coords[i] = _GeoArrowkEmptyPointCoords;
+    }
   }
 }
 
-- 
2.43.0


From a74e14afcc6c5f7a94d7c158de6c5c135ca09bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 77/84] fix: don't leave pointers to the source in a deep copy

The coords of absent dimensions still pointed at the source and those of empty
sequences at (or beyond) the end of the copied coordinates.
---
 src/geoarrow/geometry.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 556a526..61fd7e0 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -135,9 +135,15 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
             GeoArrowGeometryNodeWriteSequence(node, coords_buf, coords_buf_size);
         // NANOARROW_DCHECK(bytes_written <= coords_buf_size);
 
-        for (int i = 0; i < n_values; i++) {
-          node->coords[i] = coords_buf + (i * sizeof(double));
-          node->coord_stride[i] = n_values * sizeof(double);
+        for (int i = 0; i < 4; i++) {
+          if (i < n_values && bytes_written > 0) {
+            node->coords[i] = coords_buf + (i * sizeof(double));
+            node->coord_stride[i] = n_values * sizeof(double);
+          } else {
+            // Empty dimensions must point to a valid NaN (that isn't owned by src)
+            node->coords[i] = _GeoArrowkEmptyPointCoords;
+            node->coord_stride[i] = 0;
+          }
         }
 
         // The copied coordinates are always in native byte order
-- 
2.43.0


From 95602601fd60ed1be1b3a319d04a24fd0d481c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 78/84] fix: don't wrap the number of coordinates in a geometry

---
 src/geoarrow/geoarrow_type_inline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 313bd2a..da4a1da 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -459,7 +459,7 @@ static inline GeoArrowErrorCode GeoArrowGeometryAppendNodeInline(
 /// \brief Count coordinates in a GeoArrowGeometryView
 /// \ingroup geoarrow-geometry
 static inline uint32_t GeoArrowGeometryViewNumCoords(struct GeoArrowGeometryView geom) {
-  uint32_t count = 0;
+  uint64_t count = 0;
   const struct GeoArrowGeometryNode* end = geom.root + geom.size_nodes;
   for (const struct GeoArrowGeometryNode* node = geom.root; node < end; node++) {
     switch (node->geometry_type) {
@@ -472,7 +472,8 @@ static inline uint32_t GeoArrowGeometryViewNumCoords(struct GeoArrowGeometryView
     }
   }
 
-  return count;
+  // A count that can't be represented must not look like a small one
+  return count > UINT32_MAX ? UINT32_MAX : (uint32_t)count;
 }
 
 /// \brief Copy a GeoArrowGeometryNode representing a sequence to interleaved coordinates
-- 
2.43.0


From 9cf4524b74736de1f426be2a7afd29fd94d3c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 79/84] fix: compute steps between far apart coordinates in 64
 bits

---
 src/geoarrow/geometry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 61fd7e0..77389fb 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -467,7 +467,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     GEOARROW_RETURN_NOT_OK(v->coords(v, &coord_view));
     n_coords -= chunk_size;
     for (int i = 0; i < coord_view.n_values; i++) {
-      node_cursor.coords[i] += chunk_size * node_cursor.coord_stride[i];
+      node_cursor.coords[i] += (int64_t)chunk_size * node_cursor.coord_stride[i];
     }
   }
 
-- 
2.43.0


From 4cf6aae83adec9f081b94f6ef280958f499191fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 80/84] fix: read and write numbers independently of the locale

Without ryu or fast_float, snprintf() and strtod() use the decimal point of
the current locale, so that WKT written under e.g. de_DE could not be read
back by this or any other library.
---
 src/geoarrow/double_parse_std.c | 25 +++++++++++++++++++++++--
 src/geoarrow/double_print.c     | 28 +++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/double_parse_std.c b/src/geoarrow/double_parse_std.c
index 51b37de..caab7f3 100644
--- a/src/geoarrow/double_parse_std.c
+++ b/src/geoarrow/double_parse_std.c
@@ -1,5 +1,6 @@
 
 #include <errno.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -16,8 +17,9 @@ GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double*
 
   // There is no guarantee that src.data is null-terminated. The maximum size of
   // a double is 24 characters, but if we can't fit all of src for some reason, error.
-  char src_copy[64];
-  if (size_bytes >= ((int64_t)sizeof(src_copy))) {
+  // Leave some space to replace the decimal point.
+  char src_copy[64 + 16];
+  if (size_bytes >= 64) {
     return EINVAL;
   }
 
@@ -25,6 +27,25 @@ GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double*
   char* last_copy = src_copy + size_bytes;
   *last_copy = '\0';
 
+  // strtod() reads the decimal point of the current locale (i.e., whatever is between
+  // the zeroes here) instead of '.'
+  char zero[16];
+  int point_size = snprintf(zero, sizeof(zero), "%.1f", 0.0) - 2;
+  if (point_size > 0 && point_size < ((int)sizeof(zero) - 2) &&
+      (point_size != 1 || zero[1] != '.')) {
+    zero[point_size + 1] = '\0';
+    if (strstr(src_copy, zero + 1) != NULL) {
+      return EINVAL;
+    }
+
+    char* point = (char*)memchr(src_copy, '.', size_bytes);
+    if (point != NULL) {
+      memmove(point + point_size, point + 1, last_copy - point);
+      memcpy(point, zero + 1, point_size);
+      last_copy += point_size - 1;
+    }
+  }
+
   char* end_ptr;
   double result = strtod(src_copy, &end_ptr);
   if (end_ptr != last_copy) {
diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index bc711fb..7392b7d 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -2,6 +2,7 @@
 #include "geoarrow/geoarrow_type.h"
 
 #include <stdio.h>
+#include <string.h>
 
 #if defined(GEOARROW_USE_RYU) && GEOARROW_USE_RYU
 
@@ -21,10 +22,33 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
 
 #else
 
+// snprintf() writes the decimal point of the current locale, which can be any text
+static int64_t GeoArrowResetDecimalPoint(char* result, int64_t n_chars) {
+  int64_t begin = 0;
+  while (begin < n_chars &&
+         (result[begin] == '-' || (result[begin] >= '0' && result[begin] <= '9'))) {
+    begin++;
+  }
+
+  // No decimal point, inf, or nan
+  if (begin == n_chars || begin == 0 || result[begin - 1] == '-') {
+    return n_chars;
+  }
+
+  int64_t end = begin;
+  while (end < n_chars && (result[end] < '0' || result[end] > '9')) {
+    end++;
+  }
+
+  result[begin] = '.';
+  memmove(result + begin + 1, result + end, n_chars - end);
+  return n_chars - (end - begin) + 1;
+}
+
 int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
   // For very large numbers, use scientific notation ignoring user precision
   if (f > 1.0e17 || f < -1.0e17) {
-    return snprintf(result, 40, "%0.*e", 16, f);
+    return GeoArrowResetDecimalPoint(result, snprintf(result, 40, "%0.*e", 16, f));
   }
 
   int64_t n_chars = snprintf(result, 40, "%0.*f", precision, f);
@@ -32,6 +56,8 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  n_chars = GeoArrowResetDecimalPoint(result, n_chars);
+
   // Strip trailing zeroes + decimal (an integer has no trailing zeroes to strip)
   if (precision == 0) {
     return n_chars;
-- 
2.43.0


From 26d04855a6bce2fbe4216e9db8eba06f30e31754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 81/84] fix: keep lines in collections apart when writing
 multipolygons

---
 src/geoarrow/native_writer.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 3d7fded..1a26ad9 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -993,6 +993,19 @@ static int geom_end_multipolygon(struct GeoArrowVisitor* v) {
     }
   } else if (private_data->level == 1) {
     private_data->level--;
+    // A sequence that is not part of anything else (e.g., a LINESTRING in a
+    // GEOMETRYCOLLECTION) must not become part of the next one
+    if (private_data->size[2] > 0) {
+      if (private_data->builder.view.coords.size_coords > 2147483647) {
+        return EOVERFLOW;
+      }
+      int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
+      private_data->size[1]++;
+      private_data->size[2] = 0;
+    }
+
     if (private_data->size[1] > 0) {
       int32_t n_seq32 =
           (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) -
-- 
2.43.0


From 9fb0021bd741a89947675da75dd089b688d863d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:57 +0000
Subject: [PATCH 82/84] fix: options of kernels were cut to 32 bits

---
 src/geoarrow/kernel.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 6d1673c..1e0efed 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -3,6 +3,7 @@
 #include <math.h>
 #include <stddef.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "nanoarrow/nanoarrow.h"
@@ -145,10 +146,10 @@ static int kernel_get_arg_long(const char* options, const char* key, long* out,
     return NANOARROW_OK;
   }
 
-  char type_str0[16];
+  char type_str0[32];
   memset(type_str0, 0, sizeof(type_str0));
   snprintf(type_str0, sizeof(type_str0), "%.*s", (int)type_str.size_bytes, type_str.data);
-  *out = atoi(type_str0);
+  *out = strtol(type_str0, NULL, 10);
   return NANOARROW_OK;
 }
 
-- 
2.43.0


From 58de61360c255f678937a5c3bd34c37e7911668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 83/84] fix: kernel options beyond 32 bits were taken modulo
 2^32

A precision of 4294967298 printed two digits and a type of 4294967297 made
an array of points.
---
 src/geoarrow/kernel.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 1e0efed..2616ef2 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -1,5 +1,6 @@
 
 #include <errno.h>
+#include <limits.h>
 #include <math.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -290,6 +291,13 @@ static int finish_start_format_wkt(struct GeoArrowVisitorKernelPrivate* private_
   long precision = private_data->wkt_writer.precision;
   NANOARROW_RETURN_NOT_OK(
       kernel_get_arg_long(options, "precision", &precision, 0, error));
+  // An out-of-range precision is clamped by the writer; however, it has to stay out
+  // of range when converted to an int
+  if (precision < -1) {
+    precision = -1;
+  } else if (precision > INT_MAX) {
+    precision = INT_MAX;
+  }
   private_data->wkt_writer.precision = (int)precision;
 
   long max_element_size_bytes = private_data->wkt_writer.max_element_size_bytes;
@@ -320,6 +328,10 @@ static int finish_start_as_geoarrow(struct GeoArrowVisitorKernelPrivate* private
                                     struct GeoArrowError* error) {
   long out_type_long;
   NANOARROW_RETURN_NOT_OK(kernel_get_arg_long(options, "type", &out_type_long, 1, error));
+  if (out_type_long < 0 || out_type_long > INT_MAX) {
+    GeoArrowErrorSet(error, "Invalid value for parameter 'type': %ld", out_type_long);
+    return EINVAL;
+  }
   enum GeoArrowType out_type = (enum GeoArrowType)out_type_long;
 
   if (private_data->writer.private_data != NULL) {
-- 
2.43.0


From c578f858a56f89602c75a4e83db3877f08485fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 84/84] fix: metadata of more than 2 GB was read or written out
 of bounds

The size of an error message's argument became negative, which printf takes
for no limit at all, and schema metadata stores its sizes in 32 bits.
---
 src/geoarrow/metadata.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 87bb9e9..df08c83 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -314,6 +314,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
   }
 }
 
+// The number of characters of a value that are worth formatting into an error message.
+// A larger size may not fit in the int that %.*s needs.
+static int ErrorStringSize(struct ArrowStringView s) {
+  const int64_t max_size = sizeof(struct GeoArrowError);
+  return (int)(s.size_bytes < max_size ? s.size_bytes : max_size);
+}
+
 static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
     struct GeoArrowMetadataView* metadata_view, struct GeoArrowError* error) {
   struct ArrowStringView metadata;
@@ -325,7 +332,7 @@ static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
 
   if (ParseJSONMetadata(metadata_view, &s) != GEOARROW_OK) {
     GeoArrowErrorSet(error, "Expected valid GeoArrow JSON metadata but got '%.*s'",
-                     (int)metadata.size_bytes, metadata.data);
+                     ErrorStringSize(metadata), metadata.data);
     return EINVAL;
   }
 
@@ -334,7 +341,7 @@ static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
     ArrowErrorSet(
         (struct ArrowError*)error,
         "Expected JSON object with no trailing characters but found trailing '%.*s'",
-        (int)s.size_bytes, s.data);
+        ErrorStringSize(s), s.data);
     return EINVAL;
   }
 
@@ -496,6 +503,11 @@ static int64_t GeoArrowMetadataSerializeInternal(
 static GeoArrowErrorCode GeoArrowSchemaSetMetadataInternal(
     struct ArrowSchema* schema, const struct GeoArrowMetadataView* metadata_view) {
   int64_t metadata_size = GeoArrowMetadataCalculateSerializedSize(metadata_view);
+  if (metadata_size > INT32_MAX) {
+    // The size of a value in schema metadata is an int32_t
+    return EOVERFLOW;
+  }
+
   char* metadata = (char*)ArrowMalloc(metadata_size);
   if (metadata == NULL) {
     return ENOMEM;
-- 
2.43.0

