// Replays spec/FileStoreGen behaviours: file objects of both formats, used again and again.
#include "f3d_common.h"
namespace Imath_3_1 { inline std::ostream& operator<<(std::ostream& o, const Box<Vec3<int> >& b) { return o << b.min << " to " << b.max; } }
#include <sys/stat.h>
#include <fstream>
#include <set>
#include <memory>
typedef std::vector<std::pair<int, int> > Ids; // (content, mapping)
static std::string dir; // scratch directory of the current behaviour
static std::string pathOf(int p) { static const char* N[] = {"a.f3d", "b.f3d", "sub/a.f3d", "sub/noext"}; return dir + "/" + N[p - 1]; }
static M44d mtx(int s) { M44d m; m.setScale(V3d(2 + s, 3, 4.5)); M44d t; t.setTranslation(V3d(s, -7, 1e3)); return m * t; }
static FieldMapping::Ptr mapping(int k) { if (k == 0) return FieldMapping::Ptr(new NullFieldMapping); if (k < 3) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(mtx(k)); return m; } return FieldMapping::Ptr(new FrustumFieldMapping); }
static int mapId(FieldMapping::Ptr m, const Box3i& e) { for (int k = 0; k < 4; ++k) { FieldMapping::Ptr q = mapping(k); q->setExtents(e); if (q->className() == m->className() && q->isIdentical(m)) return k; } return -1; }
static Box3i winOf(int cid) { V3i m(cid % 5, -(cid % 3), cid % 2); return Box3i(m, m + V3i(1 + cid % 2, 1, 1)); }
static Box3i extOf(int cid, int str) { Box3i w = winOf(cid); if (str == 4) return w; w.max += V3i(cid % 3); return w; }
template <class T> struct Vx { static T to(int c) { return T(float(c)); } };
template <class S> struct Vx<FIELD3D_VEC3_T<S> > { static FIELD3D_VEC3_T<S> to(int c) { return FIELD3D_VEC3_T<S>(S(float(c)), S(float(c + 1)), S(float(-c))); } };
template <class T> struct MacOf { static typename Field<T>::Ptr make(int) { return typename Field<T>::Ptr(); } static bool ok(FieldRes::Ptr, int) { return false; } };
template <class S> struct MacOf<FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T; typedef MACField<T> M;
  static typename Field<T>::Ptr make(int cid) { typename M::Ptr m(new M); m->setSize(extOf(cid, 3), winOf(cid)); m->clear(Vx<T>::to(cid)); return m; }
  static bool ok(FieldRes::Ptr f, int) { return !!field_dynamic_cast<M>(f); } };
template <class F, class T> typename F::Ptr filled(const Box3i& e, const Box3i& w, int cid) { typename F::Ptr f(new F); f->setSize(e, w); for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) f->lvalue(i, j, k) = Vx<T>::to(cid); return f; }
template <class T> FieldRes::Ptr make(int str, int cid) {
  Box3i w = winOf(cid), e = extOf(cid, str);
  if (str == 1) return FieldRes::Ptr(filled<DenseField<T>, T>(e, w, cid)); if (str == 2) return FieldRes::Ptr(filled<SparseField<T>, T>(e, w, cid)); if (str == 3) return FieldRes::Ptr(MacOf<T>::make(cid));
  typename MIPDenseField<T>::Ptr m(new MIPDenseField<T>); typename DenseField<T>::Vec v; v.push_back(filled<DenseField<T>, T>(w, w, cid)); V3i o(w.min.x >> 1, w.min.y >> 1, w.min.z >> 1); Box3i h(o, o); v.push_back(filled<DenseField<T>, T>(h, h, cid)); m->setup(v); return FieldRes::Ptr(m); }
// ---- typed calls --------------------------------------------------------------------------------
#define BYTYPE(vec, prec, ...) { if (!(vec)) { if (prec == 1) { typedef half S; typedef S T; __VA_ARGS__; } else if (prec == 2) { typedef float S; typedef S T; __VA_ARGS__; } else { typedef double S; typedef S T; __VA_ARGS__; } } else { if (prec == 1) { typedef half S; typedef V3h T; __VA_ARGS__; } else if (prec == 2) { typedef float S; typedef V3f T; __VA_ARGS__; } else { typedef double S; typedef V3d T; __VA_ARGS__; } } }
template <class S, class T> struct Io;
template <class S> struct Io<S, S> {
  static bool write(Field3DOutputFile& o, int api, const std::string& p, const std::string& l, typename Field<S>::Ptr f) { return api == 0 ? o.writeScalarLayer<S>(p, l, f) : api == 1 ? o.writeScalarLayer<S>(f) : api == 2 ? o.writeScalarLayer<S>(l, f) : o.writeLayer<S>(p, l, f); }
  static typename Field<S>::Vec read(Field3DInputFile& i, const std::string& p, const std::string& l) { return p == "*" ? (l == "*" ? i.readScalarLayers<S>() : i.readScalarLayers<S>(l)) : i.readScalarLayers<S>(p, l); }
  static typename EmptyField<S>::Vec proxies(Field3DInputFile& i, const std::string& l) { return l == "*" ? i.readProxyScalarLayers<S>() : i.readProxyScalarLayers<S>(l); } };
template <class S> struct Io<S, FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T;
  static bool write(Field3DOutputFile& o, int api, const std::string& p, const std::string& l, typename Field<T>::Ptr f) { return api == 0 ? o.writeVectorLayer<S>(p, l, f) : api == 1 ? o.writeVectorLayer<S>(f) : api == 2 ? o.writeVectorLayer<S>(l, f) : o.writeLayer<T>(p, l, f); }
  static typename Field<T>::Vec read(Field3DInputFile& i, const std::string& p, const std::string& l) { return p == "*" ? (l == "*" ? i.readVectorLayers<S>() : i.readVectorLayers<S>(l)) : i.readVectorLayers<S>(p, l); }
  static typename EmptyField<T>::Vec proxies(Field3DInputFile& i, const std::string& l) { return l == "*" ? i.readProxyVectorLayers<T>() : i.readProxyVectorLayers<T>(l); } };
// ---- checking -------------------------------------------------------------------------------------
static std::string show(const Ids& v) { std::ostringstream s; for (auto& x : v) s << "(" << x.first << ", mapping " << x.second << ") "; return v.empty() ? "nothing" : s.str(); }
static Ids ids(const J& a) { Ids r; for (size_t i = 0; i < a.size(); ++i) r.push_back(std::make_pair((int)a[i][0].n(), (int)a[i][1].n())); std::sort(r.begin(), r.end()); return r; }
static void bounds(Ids got, const Ids& must, const Ids& may, const std::string& what) { ++g_cmp; std::sort(got.begin(), got.end());
  if (!std::includes(got.begin(), got.end(), must.begin(), must.end()) || !std::includes(may.begin(), may.end(), got.begin(), got.end())) throw Mismatch(g_ctx + " " + what + ": got " + show(got) + ", specification says " + show(must) + (may == must ? "" : "... up to " + show(may))); }
template <class T> void checkField(typename Field<T>::Ptr f, const std::string& p, const std::string& l, Ids& out, const J& layers) {
  expectTrue(!!f, "a null field was returned"); int cid = f->metadata().intMetadata("cid", -1); out.push_back(std::make_pair(cid, mapId(f->mapping(), f->extents())));
  bool found = false; for (size_t i = 0; i < layers.size(); ++i) { const J& y = layers[i]; if (y["cid"].n() != cid || y["part"].str() != f->name || y["layer"].str() != f->attribute) continue; found = true; int str = y["str"].n(); Box3i w = winOf(cid); std::string who = "layer " + f->name + ":" + f->attribute + " ";
    expectEq(f->dataWindow(), w, who + "data window"); expectEq(f->extents(), extOf(cid, str), who + "extents"); for (int n = 0; n < 2; ++n) { V3i q = n ? w.max : w.min; ++g_cmp; if (f->value(q.x, q.y, q.z) != Vx<T>::to(cid)) throw Mismatch(g_ctx + " " + who + "holds the values of something else"); }
    std::string c = f->className(); expectEq(c, std::string(str == 1 ? "DenseField" : str == 2 ? "SparseField" : str == 3 ? "MACField" : "MIPField"), who + "structure"); break; }
  if (!found) throw Mismatch(g_ctx + " a layer " + f->name + ":" + f->attribute + " holding content " + std::to_string(cid) + " was returned, which is not in the file"); (void)p; (void)l; }
static void ask(Field3DInputFile& in, const J& q, const J& layers) {
  std::string p = q["p"].str(), l = q["l"].str(); bool vec = q["vec"].b(); int prec = q["prec"].n(), api = q["api"].n(); Ids got; std::ostringstream what; what << "reader " << q["r"].n() << (api == 3 ? " proxies " : " reads ") << (vec ? "vector" : "scalar") << " layers " << p << ":" << l << " precision " << prec; 
  if (api == 3) { BYTYPE(vec, prec, { typename EmptyField<T>::Vec v; if (p != "*" && l != "*") v = in.readProxyLayer<T>(p, l, vec); else if (p == "*") v = Io<S, T>::proxies(in, l); else return;
      for (auto& f : v) { int cid = f->metadata().intMetadata("cid", -1); got.push_back(std::make_pair(cid, mapId(f->mapping(), f->extents()))); expectEq(f->dataWindow(), winOf(cid), what.str() + " data window"); if (p != "*") expectEq(f->name, p, what.str() + " name"); if (l != "*") expectEq(f->attribute, l, what.str() + " attribute"); } }) }
  else { if (p != "*" && l == "*") return; // no such call
    BYTYPE(vec, prec, { typename Field<T>::Vec v; if (api < 2) v = Io<S, T>::read(in, p, l); else v = p == "*" ? (l == "*" ? in.readLayers<T>() : in.readLayers<T>(l)) : in.readLayers<T>(p, l); for (auto& f : v) checkField<T>(f, p, l, got, layers); }) }
  bounds(got, ids(q["must"]), ids(q["may"]), what.str()); }
typedef std::set<std::string> Names;
static void names(const std::vector<std::string>& got, const Names& must, const Names& may, const std::string& what) { ++g_cmp; Names g(got.begin(), got.end()); if (g.size() != got.size()) throw Mismatch(g_ctx + " " + what + ": a name is reported twice");
  for (auto& x : must) if (!g.count(x)) throw Mismatch(g_ctx + " " + what + ": " + x + " is not reported"); for (auto& x : g) if (!may.count(x)) throw Mismatch(g_ctx + " " + what + ": " + x + " is reported but was not written"); }
static const char* PARTS[] = {"p", "p.0", "a.b", "q", "default", "zz"};
static void listing(Field3DInputFile& in, const J& v, int r, bool full) {
  std::string who = "reader " + std::to_string(r); expectEq(in.encoding(), std::string(v["fmt"].str() == "ogawa" ? "Ogawa" : "HDF5"), who + " encoding"); int m = v["meta"].n();
  expectEq(in.metadata().intMetadata().size(), (size_t)(m ? 1 : 0), who + " file metadata (ints)"); expectEq(in.metadata().strMetadata().size(), (size_t)(m ? 1 : 0), who + " file metadata (strings)"); if (m) { expectEq(in.metadata().intMetadata("fileid", -1), m, who + " file metadata"); expectEq(in.metadata().strMetadata("filestr", ""), "s" + std::to_string(m), who + " file metadata"); }
  Names must, may; std::vector<std::string> got; const J& L = v["layers"]; const J& P = v["ph"]; for (size_t i = 0; i < L.size(); ++i) must.insert(L[i]["part"].str()); may = must; for (size_t i = 0; i < P.size(); ++i) may.insert(P[i]["part"].str());
  in.getPartitionNames(got); names(got, must, may, who + " partition names");
  for (auto p : PARTS) for (int vec = 0; vec < 2; ++vec) { Names a, b; for (size_t i = 0; i < L.size(); ++i) if (L[i]["part"].str() == p) { if (L[i]["vec"].b() == (vec == 1)) a.insert(L[i]["layer"].str()); if (v["fmt"].str() == "ogawa" || L[i]["vec"].b() == (vec == 1)) b.insert(L[i]["layer"].str()); }
    for (size_t i = 0; i < P.size(); ++i) if (P[i]["part"].str() == p) b.insert(P[i]["layer"].str()); if (vec) in.getVectorLayerNames(got, p); else in.getScalarLayerNames(got, p); names(got, a, b, who + (vec ? " vector" : " scalar") + " layer names of " + p); }
  if (full) for (int vec = 0; vec < 2; ++vec) for (int prec = 1; prec < 4; ++prec) { Ids want, g; for (size_t i = 0; i < L.size(); ++i) if (L[i]["vec"].b() == (vec == 1) && L[i]["prec"].n() == prec) want.push_back(std::make_pair((int)L[i]["cid"].n(), (int)L[i]["map"].n())); std::sort(want.begin(), want.end());
    BYTYPE(vec, prec, { typename Field<T>::Vec a = Io<S, T>::read(in, "*", "*"); for (auto& f : a) checkField<T>(f, "*", "*", g, L); }) bounds(g, want, want, who + " reads everything (" + (vec ? "vectors" : "scalars") + ", precision " + std::to_string(prec) + ")"); } }
static void nothing(Field3DInputFile& in, int r, bool andNames) { std::string who = "reader " + std::to_string(r) + ", which has no file open, ";
  for (int vec = 0; vec < 2; ++vec) for (int prec = 1; prec < 4; ++prec) BYTYPE(vec, prec, { typename Field<T>::Vec a = Io<S, T>::read(in, "*", "*"); expectEq(a.size(), (size_t)0, who + "returns layers"); })
  if (andNames) { std::vector<std::string> got; in.getPartitionNames(got); expectEq(got.size(), (size_t)0, who + "reports partitions"); in.getScalarLayerNames(got, "p"); expectEq(got.size(), (size_t)0, who + "reports layers"); } }
static void junk(const std::string& p, int s) { if (s == 5) { mkdir(p.c_str(), 0755); return; } std::ofstream o(p.c_str(), std::ios::binary); if (s == 2) o << "# not a field file\n" << std::string(300, 'x'); if (s == 3) o << "Ogawa"; if (s == 4) o << "\x89HDF\r\n\x1a\n"; }
static void wipe(const std::string& p) { if (unlink(p.c_str())) rmdir(p.c_str()); }
static std::string bytes(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
int main(int c, char** v) {
  initIO(); Msg::setVerbosity(0);
  return replayMain(c, v, [](const J& h) {
    static int count = 0; dir = "d" + std::to_string(++count); mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755);
    { std::unique_ptr<Field3DOutputFile> w[2]; std::unique_ptr<Field3DInputFile> r[2]; bool shut[2] = {false, false};
      for (int i = 0; i < 2; ++i) { w[i].reset(new Field3DOutputFile); r[i].reset(new Field3DInputFile); }
      for (size_t t = 0; t < h.size(); ++t) {
        const J& s = h[t]; const std::string& n = s["n"].str(); g_ctx = "step " + std::to_string(t) + " " + n; int o = n == "Nop" || n == "Ask" || n == "Junk" || n == "Remove" ? -1 : int(s["o"].n()) - 1;
        if (n == "Create" || n == "CreateNowhere") { bool og = s["fmt"].str() == "ogawa", keep = s["keep"].b(); g_ctx += og ? " Ogawa" : " HDF5"; Field3DOutputFile::useOgawa(og); std::string p = n == "Create" ? pathOf(s["path"].n()) : dir + "/none/x.f3d"; bool want = n == "Create" && s["ok"].b(); std::string before = want ? "" : bytes(p);
          bool ok = w[o]->create(p, keep ? Field3DOutputFile::FailOnExisting : Field3DOutputFile::OverwriteMode); expectEq(ok, want, "create"); if (!want) expectTrue(bytes(p) == before, "the existing file was changed by a create that failed"); }
        else if (n == "Write") { const J& b = s["b"]; FieldRes::Ptr f;
          for (size_t k = 0; k < b.size(); ++k) { const J& x = b[k]; bool vec = x["vec"].b(); int prec = x["prec"].n(), cid = x["cid"].n(), api = x["api"].n(); std::string p = x["part"].str(), l = x["layer"].str(); bool ok = false;
            if (x["again"].b()) { MatrixFieldMapping::Ptr m = field_dynamic_cast<MatrixFieldMapping>(f->mapping()); expectTrue(!!m, "not a matrix mapping"); m->setLocalToWorld(mtx(x["map"].n())); }
            else { BYTYPE(vec, prec, f = make<T>(x["str"].n(), cid)) f->metadata().setIntMetadata("cid", cid); f->setMapping(mapping(x["map"].n())); }
            f->name = api == 1 ? p : "other"; f->attribute = api == 1 ? l : "other2";
            BYTYPE(vec, prec, { typename Field<T>::Ptr q = field_dynamic_cast<Field<T> >(f); ok = Io<S, T>::write(*w[o], api, p, l, q); })
            expectEq(ok, s["ok"][k].b(), "writing layer " + p + ":" + l + " (number " + std::to_string(k + 1) + ")"); } }
        else if (n == "Meta") { int m = s["m"].n(); w[o]->metadata().setIntMetadata("fileid", m); w[o]->metadata().setStrMetadata("filestr", "s" + std::to_string(m)); expectTrue(w[o]->writeGlobalMetadata(), "writing file metadata"); }
        else if (n == "CloseW") { if (s["how"].n() == 2) w[o].reset(new Field3DOutputFile); else w[o]->close(); }
        else if (n == "Open") { bool ok = r[o]->open(pathOf(s["path"].n())); expectEq(ok, s["ok"].b(), "open"); shut[o] = false; }
        else if (n == "CloseR") { if (s["how"].n() == 2) { r[o].reset(new Field3DInputFile); shut[o] = false; } else { r[o]->close(); shut[o] = true; } }
        else if (n == "Ask") { const J& q = s["q"]; for (size_t k = 0; k < q.size(); ++k) { int i = q[k]["r"].n(); if (s["rd"][i - 1]["open"].b()) ask(*r[i - 1], q[k], s["rd"][i - 1]["layers"]); } }
        else if (n == "Junk") { std::string p = pathOf(s["path"].n()); wipe(p); junk(p, s["sort"].n()); }
        else if (n == "Remove") wipe(pathOf(s["path"].n()));
        for (int i = 0; i < 2; ++i) { const J& x = s["rd"][i]; if (x["open"].b()) listing(*r[i], x, i + 1, (n == "Open" && o == i) || t + 1 == h.size() || t % 5 == 4); else nothing(*r[i], i + 1, !shut[i]); }
      } }
    for (int p = 1; p < 5; ++p) wipe(pathOf(p)); rmdir((dir + "/sub").c_str()); rmdir(dir.c_str());
  });
}
