// Helpers shared by the demonstrations
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <vector>

#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

#define OK(x)                                                     \
  do {                                                            \
    int _rc = (x);                                                \
    if (_rc != 0) {                                               \
      std::printf("FAIL line %d: %s -> %d\n", __LINE__, #x, _rc); \
      std::exit(1);                                               \
    }                                                             \
  } while (0)
#define CHECK(x)                                        \
  do {                                                  \
    if (!(x)) {                                         \
      std::printf("FAIL line %d: %s\n", __LINE__, #x);  \
      std::exit(1);                                     \
    }                                                   \
  } while (0)
#define EQ(a, b)                                                                 \
  do {                                                                           \
    std::string _a = (a), _b = (b);                                              \
    if (_a != _b) {                                                              \
      std::printf("FAIL line %d:\n got '%s'\nwant '%s'\n", __LINE__, _a.c_str(), \
                  _b.c_str());                                                   \
      std::exit(1);                                                              \
    }                                                                            \
  } while (0)

typedef std::vector<uint8_t> Bytes;

inline void put8(Bytes& b, uint8_t v) { b.push_back(v); }
inline void put32(Bytes& b, uint32_t v) {
  for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i)));
}
inline void putd(Bytes& b, double v) {
  uint8_t t[8];
  std::memcpy(t, &v, 8);
  b.insert(b.end(), t, t + 8);
}

struct Err : GeoArrowError {
  Err() { message[0] = 0; }
};

// The elements of a string/binary array (null elements as "<null>")
inline std::vector<std::string> strings(struct ArrowArray* a) {
  std::vector<std::string> out;
  const uint8_t* val = (const uint8_t*)a->buffers[0];
  const int32_t* off = (const int32_t*)a->buffers[1];
  const char* data = (const char*)a->buffers[2];
  for (int64_t i = a->offset; i < a->offset + a->length; i++) {
    if (val && !ArrowBitGet(val, i)) {
      out.push_back("<null>");
    } else {
      out.push_back(std::string(data + off[i], off[i + 1] - off[i]));
    }
  }
  return out;
}

inline std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + ";";
  return s;
}

// Runs f on a visitor writing WKT, returns the rows joined by ';'
inline std::string as_wkt(const std::function<int(struct GeoArrowVisitor*)>& f,
                          int* code = nullptr, int precision = 16) {
  struct GeoArrowWKTWriter w;
  OK(GeoArrowWKTWriterInit(&w));
  w.precision = precision;
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  GeoArrowWKTWriterInitVisitor(&w, &v);
  Err e;
  v.error = &e;
  int rc = f(&v);
  if (code) {
    *code = rc;
    if (rc) {
      GeoArrowWKTWriterReset(&w);
      return "";
    }
  } else {
    if (rc) std::printf("error: %s\n", e.message);
    OK(rc);
  }
  struct ArrowArray a;
  OK(GeoArrowWKTWriterFinish(&w, &a, &e));
  std::string s = join(strings(&a));
  a.release(&a);
  GeoArrowWKTWriterReset(&w);
  return s;
}

inline int visit_wkb(const Bytes& b, struct GeoArrowVisitor* v) {
  struct GeoArrowWKBReader r;
  OK(GeoArrowWKBReaderInit(&r));
  uint8_t* p = (uint8_t*)std::malloc(b.size() ? b.size() : 1);
  if (b.size()) std::memcpy(p, b.data(), b.size());
  struct GeoArrowBufferView src = {p, (int64_t)b.size()};
  int rc = GeoArrowWKBReaderVisit(&r, src, v);
  GeoArrowWKBReaderReset(&r);
  std::free(p);
  return rc;
}

inline int visit_wkt(const std::string& s, struct GeoArrowVisitor* v) {
  struct GeoArrowWKTReader r;
  OK(GeoArrowWKTReaderInit(&r));
  char* p = (char*)std::malloc(s.size() ? s.size() : 1);
  std::memcpy(p, s.data(), s.size());
  struct GeoArrowStringView src = {p, (int64_t)s.size()};
  int rc = GeoArrowWKTReaderVisit(&r, src, v);
  GeoArrowWKTReaderReset(&r);
  std::free(p);
  return rc;
}

inline std::string wkb_to_wkt(const Bytes& b) {
  return as_wkt([&](struct GeoArrowVisitor* v) { return visit_wkb(b, v); });
}
inline std::string wkt_to_wkt(const std::string& s) {
  return as_wkt([&](struct GeoArrowVisitor* v) { return visit_wkt(s, v); });
}

// Runs f on a visitor writing WKB
inline std::vector<std::string> as_wkb(
    const std::function<int(struct GeoArrowVisitor*)>& f) {
  struct GeoArrowWKBWriter w;
  OK(GeoArrowWKBWriterInit(&w));
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  GeoArrowWKBWriterInitVisitor(&w, &v);
  Err e;
  v.error = &e;
  OK(f(&v));
  struct ArrowArray a;
  OK(GeoArrowWKBWriterFinish(&w, &a, &e));
  auto s = strings(&a);
  a.release(&a);
  GeoArrowWKBWriterReset(&w);
  return s;
}

// Parses WKT (one per row, "" = null) into a native array
inline void native(enum GeoArrowType type, const std::vector<std::string>& rows,
                   struct ArrowArray* out) {
  struct GeoArrowNativeWriter w;
  OK(GeoArrowNativeWriterInit(&w, type));
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  OK(GeoArrowNativeWriterInitVisitor(&w, &v));
  Err e;
  v.error = &e;
  for (auto& r : rows) {
    if (r.empty()) {
      OK(v.feat_start(&v));
      OK(v.null_feat(&v));
      OK(v.feat_end(&v));
    } else {
      OK(visit_wkt(r, &v));
    }
  }
  OK(GeoArrowNativeWriterFinish(&w, out, &e));
  GeoArrowNativeWriterReset(&w);
}

inline std::string array_to_wkt(enum GeoArrowType type, struct ArrowArray* a,
                                int64_t off = 0, int64_t n = -1) {
  struct GeoArrowArrayReader r;
  OK(GeoArrowArrayReaderInitFromType(&r, type));
  Err e;
  OK(GeoArrowArrayReaderSetArray(&r, a, &e));
  std::string s = as_wkt([&](struct GeoArrowVisitor* v) {
    return GeoArrowArrayReaderVisit(&r, off, n < 0 ? a->length : n, v);
  });
  GeoArrowArrayReaderReset(&r);
  return s;
}

// A string or binary array
inline void str_array(const std::vector<std::string>& rows, struct ArrowArray* a,
                      enum ArrowType t = NANOARROW_TYPE_STRING) {
  OK(ArrowArrayInitFromType(a, t));
  OK(ArrowArrayStartAppending(a));
  for (auto& r : rows) {
    if (r == "<null>") {
      OK(ArrowArrayAppendNull(a, 1));
    } else {
      struct ArrowBufferView v;
      v.data.data = r.data();
      v.size_bytes = (int64_t)r.size();
      OK(ArrowArrayAppendBytes(a, v));
    }
  }
  OK(ArrowArrayFinishBuildingDefault(a, nullptr));
}
