S = "src/geoarrow/"
BUGS = [
dict(id="p01-child-level", property="P01", file=S+"wkb_reader.c", san="address",
 edits=[("      uint8_t child_level = node->level + 1;\n", ""),
        ("        child->level = child_level;\n", "        child->level = node->level + 1;\n")],
 needs="a WKB collection with enough children for the node buffer to be reallocated while its parent is being read",
 breaks="the parent node pointer is used after the nodes were reallocated (heap use after free)",
 cc=r'''
int main() {
  for (int n : {1, 3, 10, 100}) {
    Bytes b;
    put8(b, 1); put32(b, 7); put32(b, n);
    for (int i = 0; i < n; i++) { put8(b, 1); put32(b, 1); putd(b, i); putd(b, 2); }
    std::string want = "GEOMETRYCOLLECTION (";
    for (int i = 0; i < n; i++)
      want += (i ? ", POINT (" : "POINT (") + std::to_string(i) + " 2)";
    EQ(wkb_to_wkt(b), want + ");");
  }
}
'''),
dict(id="p11-reserve-once", property="P11", file=S+"wkt_writer.c", san="address",
 edits=[("""    NANOARROW_RETURN_NOT_OK(
        ArrowBufferReserve(&private->values, max_chars_per_coord_theoretical));
    ArrowBufferAppendUnsafe(&private->values, ", ", 2);""",
 """    if ((i % 8) == 0) {
      NANOARROW_RETURN_NOT_OK(
          ArrowBufferReserve(&private->values, max_chars_per_coord_theoretical));
    }
    ArrowBufferAppendUnsafe(&private->values, ", ", 2);""")],
 needs="a long run of ordinates whose text is much longer than precision + 9 characters (e.g. 1e15 with a small precision)",
 breaks="the text buffer is only checked every eighth coordinate, so it is overrun",
 cc=r'''
int main() {
  for (int n = 1; n < 400; n += 7) {
    std::string s = "LINESTRING (", want = s;
    for (int i = 0; i < n; i++) {
      char t[128];
      std::snprintf(t, sizeof t, "%s%d000000000000 -%d00000000000001", i ? ", " : "", i % 900 + 100, i % 9 + 1);
      s += t;
    }
    s += ")";
    std::string got = as_wkt([&](struct GeoArrowVisitor* v) { return visit_wkt(s, v); }, nullptr, 0);
    EQ(got, s + ";");
  }
}
'''),
dict(id="p13-multilinestring-offset", property="P13", file=S+"array_view.c",
 edits=[("""        coord_offset = array_view->offsets[1][linestring_offset + j];
        n_coords = array_view->offsets[1][linestring_offset + j + 1] - coord_offset;
        coord_offset += array_view->offset[2];
        GeoArrowCoordViewUpdate(&array_view->coords, &coords, coord_offset, n_coords);
        NANOARROW_RETURN_NOT_OK(v->coords(v, &coords));
        NANOARROW_RETURN_NOT_OK(v->geom_end(v));""",
"""        coord_offset = array_view->offsets[1][linestring_offset + j];
        n_coords = array_view->offsets[1][linestring_offset + j + 1] - coord_offset;
        coord_offset += array_view->offset[1];
        GeoArrowCoordViewUpdate(&array_view->coords, &coords, coord_offset, n_coords);
        NANOARROW_RETURN_NOT_OK(v->coords(v, &coords));
        NANOARROW_RETURN_NOT_OK(v->geom_end(v));""")],
 needs="a multilinestring array whose coordinate child is sliced (a non-zero offset on the innermost array)",
 breaks="the offset of the coordinate array is ignored, so other coordinates are read",
 cc=r'''
int main() {
  struct ArrowArray a;
  native(GEOARROW_TYPE_MULTILINESTRING,
         {"MULTILINESTRING ((9 9, 8 8, 7 7), (6 6, 5 5))", "MULTILINESTRING ((1 2, 3 4), (5 6, 7 8))"}, &a);
  std::string base = array_to_wkt(GEOARROW_TYPE_MULTILINESTRING, &a);
  // Drop the first coordinates with an offset on the coordinate array
  int32_t* o = (int32_t*)a.children[0]->buffers[1];
  int64_t n = a.children[0]->length;
  for (int i = 0; i <= n; i++) o[i] = o[i] < 5 ? 0 : o[i] - 5;
  a.children[0]->children[0]->offset = 5;
  a.children[0]->children[0]->length -= 5;
  a.offset = 1; a.length = 1;
  EQ(array_to_wkt(GEOARROW_TYPE_MULTILINESTRING, &a), "MULTILINESTRING ((1 2, 3 4), (5 6, 7 8));");
  a.release(&a);
}
'''),
dict(id="p14-multipolygon-ring-end", property="P14", file=S+"array_view.c",
 edits=[("""          NANOARROW_RETURN_NOT_OK(v->coords(v, &coords));
          NANOARROW_RETURN_NOT_OK(v->ring_end(v));
        }

        NANOARROW_RETURN_NOT_OK(v->geom_end(v));
      }
""","""          NANOARROW_RETURN_NOT_OK(v->coords(v, &coords));
          v->ring_end(v);
        }

        NANOARROW_RETURN_NOT_OK(v->geom_end(v));
      }
""")],
 needs="a visitor whose ring_end() fails (or asks to stop) while a multipolygon array is visited",
 breaks="the code returned by ring_end() is dropped and the visit goes on",
 cc=r'''
static int n_after = 0; static bool failed = false;
static int fail_ring_end(struct GeoArrowVisitor*) { if (failed) n_after++; failed = true; return 1234; }
static int gend(struct GeoArrowVisitor*) { if (failed) n_after++; return 0; }
int main() {
  struct ArrowArray a;
  native(GEOARROW_TYPE_MULTIPOLYGON, {"MULTIPOLYGON (((0 0, 1 1, 2 0, 0 0)))"}, &a);
  struct GeoArrowArrayReader r;
  OK(GeoArrowArrayReaderInitFromType(&r, GEOARROW_TYPE_MULTIPOLYGON));
  OK(GeoArrowArrayReaderSetArray(&r, &a, nullptr));
  struct GeoArrowVisitor v;
  GeoArrowVisitorInitVoid(&v);
  v.ring_end = &fail_ring_end; v.geom_end = &gend;
  CHECK(GeoArrowArrayReaderVisit(&r, 0, 1, &v) == 1234);
  CHECK(n_after == 0);
  GeoArrowArrayReaderReset(&r);
  a.release(&a);
}
'''),
dict(id="p20-null-count", property="P20", file=S+"kernel.c",
 edits=[("  private_data->box2d_private.null_count = 0;\n  ArrowArrayMove(&tmp, out);", "  ArrowArrayMove(&tmp, out);")],
 needs="the box kernel used for two batches, the first of them with nulls",
 breaks="the null count of an earlier batch leaks into the next one",
 cc=r'''
int main() {
  struct GeoArrowKernel k;
  OK(GeoArrowKernelInit(&k, "box", nullptr));
  struct ArrowSchema s, o;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_LINESTRING));
  OK(k.start(&k, &s, nullptr, &o, nullptr));
  int64_t want[] = {2, 0, 1, 0};
  std::vector<std::vector<std::string>> rows = {
      {"LINESTRING (0 1, 2 3)", "", ""}, {"LINESTRING (0 1, 2 3)"}, {"", "LINESTRING (4 5, 6 7)"}, {"LINESTRING EMPTY"}};
  for (int i = 0; i < 4; i++) {
    struct ArrowArray a, b;
    native(GEOARROW_TYPE_LINESTRING, rows[i], &a);
    OK(k.push_batch(&k, &a, &b, nullptr));
    CHECK(b.length == (int64_t)rows[i].size());
    CHECK(b.null_count == want[i]);
    CHECK(want[i] > 0 || b.buffers[0] == nullptr || i > 0);
    a.release(&a); b.release(&b);
  }
  OK(k.finish(&k, nullptr, nullptr));
  k.release(&k); s.release(&s); o.release(&o);
}
'''),
dict(id="p12-multipolygon-offset", property="P12", file=S+"native_writer.c",
 edits=[("""    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(writer, 1, node->size, error));
    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
        writer, node + 1, node->size, 2, error));
    node += node->size + 1;""",
"""    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(writer, 1, node->size, error));
    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
        writer, node + 1, node->size, 2, error));
    node += (node->size > 1 ? node->size : 1) + 1;""")],
 needs="a MULTIPOLYGON with a polygon without rings that is not the last one, appended as a geometry",
 breaks="the ring after an empty polygon is skipped: offsets belong to the wrong polygons",
 san="address",
 cc=r'''
int main() {
  struct GeoArrowGeometry g;
  OK(GeoArrowGeometryInit(&g));
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  GeoArrowGeometryInitVisitor(&g, &v);
  std::string s = "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0)), EMPTY, ((5 5, 6 5, 5 6, 5 5), (7 7, 8 7, 7 8, 7 7)))";
  OK(visit_wkt(s, &v));
  struct GeoArrowNativeWriter w;
  OK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_MULTIPOLYGON));
  Err e;
  OK(GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&g), &e));
  struct ArrowArray a;
  OK(GeoArrowNativeWriterFinish(&w, &a, &e));
  EQ(array_to_wkt(GEOARROW_TYPE_MULTIPOLYGON, &a), s + ";");
  a.release(&a);
  GeoArrowNativeWriterReset(&w);
  GeoArrowGeometryReset(&g);
}
'''),
]
