// Hand-built ArrowSchemas, an independent parser of them, and a strict JSON
// reader. Nothing here uses the library's schema or metadata code.
#ifndef HZ_SCHEMA_REF_H
#define HZ_SCHEMA_REF_H
#include <map>
#include <memory>
#include "arrow_ref.h"
namespace hz {

using KV = std::vector<std::pair<std::string, std::string>>;
struct SNode {
  std::string format; bool has_name = true; std::string name; int64_t flags = ARROW_FLAG_NULLABLE;
  bool has_meta = false; KV meta; std::vector<SNode> kids;
};
inline std::string enc_kv(const KV& kv) {
  std::string o; auto i32 = [&](int32_t v) { o.append((char*)&v, 4); };
  i32((int32_t)kv.size());
  for (auto& p : kv) { i32((int32_t)p.first.size()); o += p.first; i32((int32_t)p.second.size()); o += p.second; }
  return o;
}
inline bool dec_kv(const char* m, KV& kv) {
  kv.clear(); if (!m) return true;
  auto i32 = [&]() { int32_t v; memcpy(&v, m, 4); m += 4; return v; };
  int32_t n = i32(); if (n < 0) return false;
  for (int i = 0; i < n; i++) {
    int32_t a = i32(); if (a < 0) return false; std::string k(m, a); m += a;
    int32_t b = i32(); if (b < 0) return false; std::string v(m, b); m += b;
    kv.push_back({k, v});
  }
  return true;
}
struct SPriv { std::vector<void*> owned; std::vector<ArrowSchema*> kids; ReleaseLog* log; };
inline void snode_release(ArrowSchema* s) {
  SPriv* p = (SPriv*)s->private_data;
  for (auto* k : p->kids) { if (k->release) k->release(k); raw_free(k); }
  for (void* b : p->owned) raw_free(b);
  if (p->log) { p->log->released++; p->log->live--; }
  delete p; s->release = nullptr;
}
inline void snode_build(const SNode& n, ArrowSchema* s, ReleaseLog* log) {
  memset(s, 0, sizeof *s);
  SPriv* p = new SPriv(); p->log = log; if (log) log->live++;
  auto dup = [&](const char* d, size_t z) { char* b = (char*)raw_malloc(z); memcpy(b, d, z); p->owned.push_back(b); return b; };
  s->format = dup(n.format.c_str(), n.format.size() + 1);
  if (n.has_name) s->name = dup(n.name.c_str(), n.name.size() + 1);
  if (n.has_meta) { std::string m = enc_kv(n.meta); s->metadata = dup(m.data(), m.size()); }
  s->flags = n.flags; s->private_data = p; s->release = snode_release;
  s->n_children = (int64_t)n.kids.size();
  if (!n.kids.empty()) {
    s->children = (ArrowSchema**)raw_malloc(n.kids.size() * sizeof(void*));
    p->owned.push_back(s->children);
    for (size_t i = 0; i < n.kids.size(); i++) {
      ArrowSchema* k = (ArrowSchema*)raw_malloc(sizeof(ArrowSchema));
      snode_build(n.kids[i], k, nullptr);
      p->kids.push_back(k); s->children[i] = k;
    }
  }
}
// structure of any schema (used on the library's own output)
inline bool snode_read(const ArrowSchema* s, SNode& n) {
  if (!s || !s->release || !s->format) return false;
  n = SNode(); n.format = s->format; n.has_name = s->name; if (s->name) n.name = s->name;
  n.flags = s->flags; n.has_meta = s->metadata;
  if (!dec_kv(s->metadata, n.meta)) return false;
  for (int64_t i = 0; i < s->n_children; i++) { n.kids.emplace_back(); if (!snode_read(s->children[i], n.kids.back())) return false; }
  return true;
}
inline std::string snode_show(const SNode& n, bool meta = true) {
  std::string o = (n.has_name ? quote(n.name) : std::string("-")) + ":" + n.format + fmt("/%lld", (long long)n.flags);
  if (meta && n.has_meta) { o += "{"; for (auto& k : n.meta) o += quote(k.first) + "=" + quote(k.second, 60) + ";"; o += "}"; }
  if (!n.kids.empty()) { o += "<"; for (auto& k : n.kids) o += snode_show(k, meta) + ","; o += ">"; }
  return o;
}
inline const char* dims_str(int d) { static const char* n[] = {"", "xy", "xyz", "xym", "xyzm"}; return n[d]; }

// the schema the format documents for a type
inline SNode ref_schema(int type) {
  SNode n;
  switch (type) {
    case GEOARROW_TYPE_WKB: n.format = "z"; return n;
    case GEOARROW_TYPE_LARGE_WKB: n.format = "Z"; return n;
    case GEOARROW_TYPE_WKB_VIEW: n.format = "vz"; return n;
    case GEOARROW_TYPE_WKT: n.format = "u"; return n;
    case GEOARROW_TYPE_LARGE_WKT: n.format = "U"; return n;
    case GEOARROW_TYPE_WKT_VIEW: n.format = "vu"; return n;
  }
  int g = type_geom(type), d = type_dims(type); std::string ds = dims_str(d);
  auto leaf = [](std::string name) { SNode k; k.format = "g"; k.name = name; k.flags = 0; return k; };
  if (is_box(type)) {
    n.format = "+s";
    for (const char* mm : {"min", "max"}) for (char c : ds) n.kids.push_back(leaf(std::string(1, c) + mm));
    return n;
  }
  if (type_inter(type)) { n.format = fmt("+w:%d", ndim(d)); n.kids.push_back(leaf(ds)); }
  else { n.format = "+s"; for (char c : ds) n.kids.push_back(leaf(std::string(1, c))); }
  static const std::vector<std::vector<const char*>> names = {{}, {}, {"vertices"}, {"vertices", "rings"}, {"points"}, {"vertices", "linestrings"}, {"vertices", "rings", "polygons"}};
  for (const char* nm : names[g]) { SNode p; p.format = "+l"; n.name = nm; n.flags = 0; p.kids.push_back(n); n = p; }
  return n;
}
inline const char* ref_ext(int type) {
  if (is_wkb(type)) return "geoarrow.wkb";
  if (is_wkt(type)) return "geoarrow.wkt";
  static const char* n[] = {"", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
  return is_box(type) ? "geoarrow.box" : n[type_geom(type)];
}
inline std::vector<int> all_types() {
  std::vector<int> v = all_native(), s = all_serialized();
  v.insert(v.end(), s.begin(), s.end());
  for (int d = 0; d < 4; d++) v.push_back(990 + d * 1000);
  return v;
}
inline int dims_from(const std::string& s) { for (int d = 1; d <= 4; d++) if (s == dims_str(d)) return d; return 0; }
// Type of a storage schema under an extension name; -1: not a supported layout
inline int ref_parse(const SNode& n, const std::string& ext) {
  if (ext == "geoarrow.wkb") return n.format == "z" ? GEOARROW_TYPE_WKB : n.format == "Z" ? GEOARROW_TYPE_LARGE_WKB : n.format == "vz" ? GEOARROW_TYPE_WKB_VIEW : -1;
  if (ext == "geoarrow.wkt") return n.format == "u" ? GEOARROW_TYPE_WKT : n.format == "U" ? GEOARROW_TYPE_LARGE_WKT : n.format == "vu" ? GEOARROW_TYPE_WKT_VIEW : -1;
  if (ext == "geoarrow.box") {
    if (n.format != "+s") return -1;
    size_t k = n.kids.size(); if (k != 4 && k != 6 && k != 8) return -1;
    std::string dn, dx;
    for (size_t i = 0; i < k; i++) {
      auto& c = n.kids[i];
      if (c.format != "g" || !c.has_name || c.name.size() != 4 || c.name.substr(1) != (i < k / 2 ? "min" : "max")) return -1;
      (i < k / 2 ? dn : dx) += c.name[0];
    }
    int d = dims_from(dn); if (!d || dn != dx) return -1;
    return 990 + (d - 1) * 1000;
  }
  int g = 0;
  for (int t = 1; t <= 6; t++) if (ext == ref_ext(t)) g = t;
  if (!g) return -1;
  const SNode* p = &n;
  for (int i = 0; i < list_depth(g); i++) { if (p->format != "+l" || p->kids.size() != 1) return -1; p = &p->kids[0]; }
  if (p->format == "+s") {
    std::string ds;
    if (p->kids.size() < 2 || p->kids.size() > 4) return -1;
    for (auto& c : p->kids) { if (c.format != "g" || !c.has_name || c.name.size() != 1) return -1; ds += c.name; }
    int d = dims_from(ds); return d ? native_type(g, d, false) : -1;
  }
  if (p->format.compare(0, 3, "+w:") == 0) {
    if (p->kids.size() != 1 || p->kids[0].format != "g") return -1;
    std::string w = p->format.substr(3);
    if (w != "2" && w != "3" && w != "4") return -1;
    int sz = w[0] - '0', d = p->kids[0].has_name ? dims_from(p->kids[0].name) : 0;
    if (!d) d = sz == 2 ? D_XY : sz == 3 ? D_XYZ : D_XYZM;
    return ndim(d) == sz ? native_type(g, d, true) : -1;
  }
  return -1;
}

// ---- JSON ------------------------------------------------------------------
// Strict reader; only what metadata needs. Values keep their text.
struct Json {
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
  std::string text, str; std::vector<std::pair<std::string, Json>> kv;
  Json(); Json(const Json&); Json& operator=(const Json&); ~Json();  // defined where it is complete, as C++20 needs
};
inline Json::Json() = default; inline Json::Json(const Json&) = default; inline Json& Json::operator=(const Json&) = default; inline Json::~Json() = default;
struct JsonReader {
  const char *p, *e; int depth = 0;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  bool string(std::string& o) {
    if (p >= e || *p != '"') return false;
    for (p++; p < e && *p != '"'; p++) {
      if ((unsigned char)*p < 0x20) return false;
      if (*p == '\\') {
        if (++p >= e) return false;
        switch (*p) {
          case '"': case '\\': case '/': o += *p; break;
          case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
          case 'r': o += '\r'; break; case 't': o += '\t'; break;
          case 'u': for (int i = 0; i < 4; i++) if (++p >= e || !isxdigit((unsigned char)*p)) return false; o += '?'; break;
          default: return false;
        }
      } else o += *p;
    }
    if (p >= e) return false;
    p++; return true;
  }
  bool value(Json& j) {
    if (++depth > 500) return false;
    const char* b = p; bool ok = inner(j); depth--;
    if (ok) j.text.assign(b, p);
    return ok;
  }
  bool lit(const char* s) { size_t n = strlen(s); if ((size_t)(e - p) < n || memcmp(p, s, n)) return false; p += n; return true; }
  bool inner(Json& j) {
    if (p >= e) return false;
    if (*p == '"') { j.kind = Json::STR; return string(j.str); }
    if (*p == 'n') { j.kind = Json::NUL; return lit("null"); }
    if (*p == 't') { j.kind = Json::BOOL; return lit("true"); }
    if (*p == 'f') { j.kind = Json::BOOL; return lit("false"); }
    if (*p == '{' || *p == '[') {
      bool obj = *p == '{'; j.kind = obj ? Json::OBJ : Json::ARR; p++; ws();
      if (p < e && *p == (obj ? '}' : ']')) { p++; return true; }
      for (;;) {
        std::string k; ws();
        if (obj) { if (!string(k)) return false; ws(); if (p >= e || *p++ != ':') return false; ws(); }
        j.kv.emplace_back(k, Json()); if (!value(j.kv.back().second)) return false;
        ws(); if (p >= e) return false;
        if (*p == ',') { p++; continue; }
        if (*p == (obj ? '}' : ']')) { p++; return true; }
        return false;
      }
    }
    j.kind = Json::NUM; const char* b = p;
    if (p < e && *p == '-') p++;
    while (p < e && (isdigit((unsigned char)*p) || *p == '.' || *p == 'e' || *p == 'E' || *p == '+' || *p == '-')) p++;
    return p > b;
  }
};
inline bool json_parse(const std::string& s, Json& j) {
  JsonReader r; r.p = s.data(); r.e = r.p + s.size();
  r.ws(); if (!r.value(j)) return false; r.ws(); return r.p == r.e;
}
inline std::string json_quote(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
inline std::string gen_text(Rng& r, size_t max) {
  std::string s;
  for (size_t n = r.below(max + 1); n > 0; n--) switch (r.below(6)) {
    case 0: s += r.pick({'"', '\\', '{', '}', '[', ']', ',', ':', '/', 'n'}); break;
    case 1: s += "\xc3\xa9"; break;
    default: s += (char)r.range(32, 126);
  }
  return s;
}
inline std::string gen_ws(Rng& r) { return r.chance(0.6) ? "" : r.pick({std::string(" "), std::string("\n"), std::string("\t "), std::string("\r\n")}); }
// any JSON value; top: 0 any kind, 1 object
inline std::string gen_json(Rng& r, int depth, bool object) {
  int k = object ? 5 : (int)r.below(depth > 0 ? 6 : 4);
  switch (k) {
    case 0: return "null";
    case 1: return fmt("%d", (int)r.range(-999, 999));
    case 2: return r.chance(0.5) ? "true" : "false";
    case 3: return json_quote(gen_text(r, 12));
    default: {
      std::string s = k == 4 ? "[" : "{"; size_t n = r.below(4);
      for (size_t i = 0; i < n; i++) { if (i) s += "," + gen_ws(r); if (k == 5) s += json_quote(gen_text(r, 6)) + gen_ws(r) + ":" + gen_ws(r); s += gen_json(r, depth - 1, false); }
      return s + (k == 4 ? "]" : "}");
    }
  }
}
}  // namespace hz
#endif
