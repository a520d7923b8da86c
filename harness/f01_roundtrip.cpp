// Replays spec/FieldFileGen behaviours: one field goes through files of both formats again and again.
#include "f3d_common.h"
#include "SparseFile.h"
#include <limits>
namespace Imath_3_1 { inline std::ostream& operator<<(std::ostream& o, const Box<Vec3<int> >& b) { return o << b.min << " to " << b.max; } }
static bool isMip(const std::string& s) { return s[0] == 'm' && s[1] == 'i'; }
template <class S> S special(long long c) {
  switch (c) { case 1001: return S(-0.0f); case 1002: return S(std::numeric_limits<float>::infinity()); case 1003: return S(-std::numeric_limits<float>::infinity());
    case 1004: return std::numeric_limits<S>::max(); case 1005: return std::numeric_limits<S>::denorm_min(); case 1006: return S(1.0 / 3.0); default: return sizeof(S) == 2 ? S(1024.f) : S(1e30); } }
template <> half special<half>(long long c) { half h; switch (c) { case 1001: h.setBits(0x8000); break; case 1002: h.setBits(0x7c00); break; case 1003: h.setBits(0xfc00); break; case 1004: h.setBits(0x7bff); break; case 1005: h.setBits(1); break; case 1006: h = half(1.f / 3); break; default: h = half(1024.f); } return h; }
template <class S> S real(long long c, int comp) { if (c > 1000) return special<S>(comp == 1 ? 1001 + c % 7 : c); return S(float(comp == 0 ? c : comp == 1 ? 2 * c : -c)); }
template <class T> struct Vx { typedef T S; static const int n = 1; static T to(long long c) { return real<T>(c, 0); } };
template <class S_> struct Vx<FIELD3D_VEC3_T<S_> > { typedef S_ S; static const int n = 3; typedef FIELD3D_VEC3_T<S_> T; static T to(long long c) { return T(real<S>(c, 0), real<S>(c, 1), real<S>(c, 2)); } };
template <class T> void same(const T& got, const T& want, const std::string& what) { ++g_cmp; if (memcmp(&got, &want, sizeof(T))) { std::ostringstream s; s << g_ctx << " " << what << ": got " << got << ", specification says " << want; throw Mismatch(s.str()); } }
static Box3i win(const J& l) { return boxOf(v3(l["min"]), v3(l["res"])); }
static Box3i ext(const J& f) { return Box3i(v3(f["ext"][0]), v3(f["ext"][1])); }
template <class T> typename DenseField<T>::Ptr mkDense(const J& l, const Box3i& e) { typename DenseField<T>::Ptr f(new DenseField<T>); Box3i w = win(l); f->setSize(e, w); int n = 0;
  for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) f->lvalue(i, j, k) = Vx<T>::to(l["val"][n++].n()); return f; }
template <class T> typename SparseField<T>::Ptr mkSparse(const J& l, const Box3i& e) { typename SparseField<T>::Ptr f(new SparseField<T>); Box3i w = win(l); f->setBlockOrder(l["order"].n()); f->setSize(e, w); V3i br = f->blockRes(); int b = 0;
  for (int k = 0; k < br.z; ++k) for (int j = 0; j < br.y; ++j) for (int i = 0; i < br.x; ++i, ++b) f->setBlockEmptyValue(i, j, k, Vx<T>::to(l["ev"][b].n()));
  int o = l["order"].n(), n = 0;
  for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i, ++n) { V3i q = V3i(i, j, k) - w.min; int bl = (q.x >> o) + br.x * ((q.y >> o) + br.y * (q.z >> o)); if (l["alloc"][bl].b()) f->lvalue(i, j, k) = Vx<T>::to(l["val"][n].n()); }
  return f; }
template <class T> struct Mk { static typename Field<T>::Ptr mac(const J&, const Box3i&) { return typename Field<T>::Ptr(); } static void chk(FieldRes::Ptr, const J&) { } static void edit(FieldRes::Ptr, int, long long) { } };
template <class V, class F> void faces(const Box3i& w, F fn) { int n = 0; for (int c = 0; c < 3; ++c) { V3i m = w.max; m[c] += 1; for (int k = w.min.z; k <= m.z; ++k) for (int j = w.min.y; j <= m.y; ++j) for (int i = w.min.x; i <= m.x; ++i) fn(c, i, j, k, n++); } }
template <class S> struct Mk<FIELD3D_VEC3_T<S> > { typedef MACField<FIELD3D_VEC3_T<S> > M;
  static typename Field<FIELD3D_VEC3_T<S> >::Ptr mac(const J& l, const Box3i& e) { typename M::Ptr f(new M); Box3i w = win(l); f->setSize(e, w); M& m = *f;
    faces<S>(w, [&](int c, int i, int j, int k, int n) { (c == 0 ? m.u(i, j, k) : c == 1 ? m.v(i, j, k) : m.w(i, j, k)) = real<S>(l["val"][n].n(), 0); }); return f; }
  static void edit(FieldRes::Ptr f, int at, long long v) { M& m = *field_dynamic_cast<M>(f); faces<S>(m.dataWindow(), [&](int c, int i, int j, int k, int n) { if (n == at) (c == 0 ? m.u(i, j, k) : c == 1 ? m.v(i, j, k) : m.w(i, j, k)) = real<S>(v, 0); }); }
  static void chk(FieldRes::Ptr f, const J& l) { typename M::Ptr m = field_dynamic_cast<M>(f); expectTrue(!!m, "not a staggered field"); const M& c_ = *m; faces<S>(win(l), [&](int c, int i, int j, int k, int n) { same<S>(c == 0 ? c_.u(i, j, k) : c == 1 ? c_.v(i, j, k) : c_.w(i, j, k), real<S>(l["val"][n].n(), 0), std::string("face ") + "uvw"[c] + sp(i, j, k)); }); } };
template <class T> void chkVox(const Field<T>& f, const J& l, const std::string& who) { Box3i w = win(l); expectEq(f.dataWindow(), w, who + "data window"); int n = 0;
  for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) same<T>(f.value(i, j, k), Vx<T>::to(l["val"][n++].n()), who + "value at " + sp(i, j, k)); }
template <class T> void chkSparse(SparseField<T>& f, const J& l, const std::string& who) { expectEq(f.blockOrder(), (int)l["order"].n(), who + "block order"); V3i br = f.blockRes(); int b = 0;
  for (int k = 0; k < br.z; ++k) for (int j = 0; j < br.y; ++j) for (int i = 0; i < br.x; ++i, ++b) { expectEq(f.blockIsAllocated(i, j, k), l["alloc"][b].b(), who + "block " + sp(i, j, k) + " allocated"); if (!l["alloc"][b].b()) same<T>(f.getBlockEmptyValue(i, j, k), Vx<T>::to(l["ev"][b].n()), who + "empty value of block " + sp(i, j, k)); } expectEq((size_t)b, l["ev"].size(), who + "number of blocks"); }
static const char* NAMES[] = {"p", "part", "a b", "x.y", "P.1", "long_partition_name_with_many_letters", "0", "-", "p.0", "\xc3\xa9"};
static const char* ATTRS[] = {"l", "density", "v el", "v.x", "l.0", "attribute_name_that_is_rather_long_too", "1", "_", "p", "\xc3\xbc"};
static M44d mtx(int s) { M44d m; m.setScale(V3d(2 + s, 3, 4.5)); M44d r; r.setEulerAngles(V3d(.1 * s, .2, -.3)); M44d t; t.setTranslation(V3d(s, -7, 1e3)); return m * r * t; }
static FieldMapping::Ptr mapping(int k) {
  if (k < 2) return FieldMapping::Ptr(new NullFieldMapping);
  if (k < 5) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); if (k == 2) m->setLocalToWorld(mtx(1)); else for (int i = 0; i < k - 1; ++i) m->setLocalToWorld(-.5f + i * .25f, mtx(i)); return m; }
  FrustumFieldMapping::Ptr f(new FrustumFieldMapping); if (k > 5) { M44d p(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 1, 0, 0, -2, 0); M44d z; z.setScale(V3d(1, 1, -1)); M44d s = (z * p).inverse(); for (int i = 0; i < k - 5; ++i) f->setTransforms(i * .5f, s * mtx(i), mtx(i)); } if (k == 7) f->setZDistribution(FrustumFieldMapping::UniformDistribution); return f; }
static void setMeta(FieldMetadata& m, int k) { for (int i = 0; i < k; ++i) { std::string n = "m" + std::to_string(i); m.setStrMetadata("s" + n, "str " + n); m.setIntMetadata("i" + n, i * 1000 - 1); m.setFloatMetadata("f" + n, i * .5f); m.setVecIntMetadata("vi" + n, V3i(i, -i, 7)); m.setVecFloatMetadata("vf" + n, V3f(i, .25f, -i)); } }
static void chkMeta(FieldMetadata& m, int k, const std::string& str) { size_t extra = isMip(str) ? 1 : 0; // the mip offset is kept as metadata
  expectEq(m.strMetadata().size(), (size_t)k, "string metadata entries"); expectEq(m.intMetadata().size(), (size_t)k, "int metadata entries"); expectEq(m.floatMetadata().size(), (size_t)k, "float metadata entries"); expectTrue(m.vecIntMetadata().size() >= (size_t)k && m.vecIntMetadata().size() <= k + extra, "vector int metadata entries"); expectEq(m.vecFloatMetadata().size(), (size_t)k, "vector float metadata entries");
  for (int i = 0; i < k; ++i) { std::string n = "m" + std::to_string(i); expectEq(m.strMetadata("s" + n, ""), "str " + n, "metadata"); expectEq(m.intMetadata("i" + n, 5), i * 1000 - 1, "metadata"); expectEq(m.floatMetadata("f" + n, 7.f), i * .5f, "metadata"); expectEq(m.vecIntMetadata("vi" + n, V3i(9)), V3i(i, -i, 7), "metadata"); expectEq(m.vecFloatMetadata("vf" + n, V3f(9)), V3f(i, .25f, -i), "metadata"); } }
struct Info { std::string name, attr; int map, meta; };
template <class T> struct Typed {
  typedef typename Vx<T>::S S; typedef typename Field<T>::Ptr P;
  static P make(const J& f, const Info& in) {
    const std::string& s = f["str"].str(); const J& L = f["levels"]; P r;
    if (s == "dense") r = mkDense<T>(L[0], ext(f)); else if (s == "sparse") r = mkSparse<T>(L[0], ext(f)); else if (s == "mac") r = Mk<T>::mac(L[0], ext(f));
    else if (s == "mipdense") { typename MIPDenseField<T>::Ptr m(new MIPDenseField<T>); typename DenseField<T>::Vec v; for (size_t i = 0; i < L.size(); ++i) v.push_back(mkDense<T>(L[i], win(L[i]))); m->setup(v); r = m; }
    else { typename MIPSparseField<T>::Ptr m(new MIPSparseField<T>); typename SparseField<T>::Vec v; for (size_t i = 0; i < L.size(); ++i) v.push_back(mkSparse<T>(L[i], win(L[i]))); m->setup(v); r = m; }
    r->name = in.name; r->attribute = in.attr; r->setMapping(mapping(in.map)); setMeta(r->metadata(), in.meta); return r; }
  static void edit(P p, const J& f, int at, long long v) {
    if (f["str"].str() == "mac") { Mk<T>::edit(p, at, v); return; }
    Box3i w = p->dataWindow(); V3i r = w.size() + V3i(1); V3i q(at % r.x, at / r.x % r.y, at / r.x / r.y); q += w.min;
    typename WritableField<T>::Ptr wf = field_dynamic_cast<WritableField<T> >(p); expectTrue(!!wf, "not writable"); wf->lvalue(q.x, q.y, q.z) = Vx<T>::to(v); }
  static void check(P p, const J& f, const Info& in) {
    const std::string& s = f["str"].str(); const J& L = f["levels"];
    expectEq(p->name, in.name, "name"); expectEq(p->attribute, in.attr, "attribute"); expectEq(p->extents(), ext(f), "extents"); expectEq(p->dataWindow(), win(L[0]), "data window"); chkMeta(p->metadata(), in.meta, s);
    FieldMapping::Ptr m = mapping(in.map); m->setExtents(ext(f)); expectTrue(m->isIdentical(p->mapping()) && p->mapping()->isIdentical(m), "the mapping (" + m->className() + ") is not the one that was written");
    for (int i = 0; i < 4; ++i) { V3d v = V3d(ext(f).min) + V3d(.25 * i, i, .5 * i), a, b; m->voxelToWorld(v, a, i * .2f); p->mapping()->voxelToWorld(v, b, i * .2f); same<V3d>(b, a, "voxelToWorld"); }
    if (s == "dense") { expectTrue(!!field_dynamic_cast<DenseField<T> >(p), "not a dense field"); chkVox<T>(*p, L[0], ""); }
    else if (s == "sparse") { typename SparseField<T>::Ptr q = field_dynamic_cast<SparseField<T> >(p); expectTrue(!!q, "not a sparse field"); chkSparse<T>(*q, L[0], ""); chkVox<T>(*q, L[0], ""); chkSparse<T>(*q, L[0], ""); }
    else if (s == "mac") Mk<T>::chk(p, L[0]);
    else { typename MIPBase<T>::Ptr q; if (s == "mipdense") { auto d = field_dynamic_cast<MIPField<DenseField<T> > >(p); q = d.get(); } else { auto d = field_dynamic_cast<MIPField<SparseField<T> > >(p); q = d.get(); } expectTrue(!!q, "not a multi-resolution field of that kind");
      expectEq(q->numLevels(), L.size(), "number of levels"); for (size_t i = 0; i < L.size(); ++i) expectEq(q->mipResolution(i), v3(L[i]["res"]), "resolution of level " + std::to_string(i));
      for (size_t n = 0; n < L.size(); ++n) { size_t i = in.meta % 2 ? L.size() - 1 - n : n; std::string who = "level " + std::to_string(i) + " "; auto lv = q->mipLevel(i); expectTrue(!!lv, who + "missing"); expectEq(lv->extents(), win(L[i]), who + "extents"); chkVox<T>(*lv, L[i], who); if (s == "mipsparse") chkSparse<T>(*field_dynamic_cast<SparseField<T> >(lv), L[i], who); V3i o = v3(L[i]["min"]); same<T>(q->mipValue(i, o.x, o.y, o.z), Vx<T>::to(L[i]["val"][0].n()), who + "value through the field"); }
      V3i o = v3(L[0]["min"]); same<T>(q->value(o.x, o.y, o.z), Vx<T>::to(L[0]["val"][0].n()), "value of the multi-resolution field"); } }
};
template <class S> bool writeS(Field3DOutputFile& o, const Info& in, typename Field<S>::Ptr f, int how) { return how == 0 ? o.writeScalarLayer<S>(in.name, in.attr, f) : how == 1 ? o.writeScalarLayer<S>(f) : o.writeScalarLayer<S>(in.name, in.attr, f); }
template <class S> bool writeV(Field3DOutputFile& o, const Info& in, typename Field<FIELD3D_VEC3_T<S> >::Ptr f, int how) { return how == 1 ? o.writeVectorLayer<S>(f) : o.writeVectorLayer<S>(in.name, in.attr, f); }
struct State { FieldRes::Ptr f; bool managed; std::string path; Info in; };
static int g_files = 0;
template <class A> FieldRes::Ptr ask(A& v, size_t want, const std::string& what) { expectEq(v.size(), want, "number of layers served for a request of " + what); return v.empty() ? FieldRes::Ptr() : FieldRes::Ptr(v[0]); }
static FieldRes::Ptr request(Field3DInputFile& i, const Info& in, int p, int c, size_t want) { static const char* N[] = {"half", "float", "double"}; std::string w = std::string(N[p - 1]) + (c == 3 ? " vectors" : " scalars");
  if (c == 1) { if (p == 1) { auto v = i.readScalarLayers<half>(in.name, in.attr); return ask(v, want, w); } if (p == 2) { auto v = i.readScalarLayers<float>(in.name, in.attr); return ask(v, want, w); } auto v = i.readScalarLayers<double>(in.name, in.attr); return ask(v, want, w); }
  if (p == 1) { auto v = i.readVectorLayers<half>(in.name, in.attr); return ask(v, want, w); } if (p == 2) { auto v = i.readVectorLayers<float>(in.name, in.attr); return ask(v, want, w); } auto v = i.readVectorLayers<double>(in.name, in.attr); return ask(v, want, w); }
#define DISPATCH(f, X) { int p_ = f["prec"].n(), c_ = f["comps"].n(); if (c_ == 1) { if (p_ == 1) { typedef half T; X; } else if (p_ == 2) { typedef float T; X; } else { typedef double T; X; } } else { if (p_ == 1) { typedef V3h T; X; } else if (p_ == 2) { typedef V3f T; X; } else { typedef V3d T; X; } } }
template <class T> struct Wr { static bool go(Field3DOutputFile& o, const Info& in, FieldRes::Ptr f, int how) { return writeS<T>(o, in, field_dynamic_cast<Field<T> >(f), how); } };
template <class S> struct Wr<FIELD3D_VEC3_T<S> > { static bool go(Field3DOutputFile& o, const Info& in, FieldRes::Ptr f, int how) { return writeV<S>(o, in, field_dynamic_cast<Field<FIELD3D_VEC3_T<S> > >(f), how); } };
static void limit(bool managed, int lim) { SparseFileManager& m = SparseFileManager::singleton(); m.setLimitMemUse(managed); m.setMaxMemUse(lim == 0 ? 1000.f : lim == 1 ? .001f : 0.f); }
static FieldRes::Ptr load(const std::string& path, const Info& in, const J& r, bool twice) {
  Field3DInputFile i; expectTrue(i.open(path), "open"); FieldRes::Ptr got, again; const J& f = r["f"];
  for (int k = 0; k < 6; ++k) { int q = (r["first"].n() + k) % 6; FieldRes::Ptr g = request(i, in, q / 2 + 1, q % 2 ? 3 : 1, r["serve"][q / 2][q % 2].n()); if (g) got = g; }
  if (twice) { again = request(i, in, f["prec"].n(), f["comps"].n(), 1); DISPATCH(f, Typed<T>::check(field_dynamic_cast<Field<T> >(again), f, in)); }
  expectTrue(!!got, "the layer was not served"); return got; }
int main(int c, char** v) {
  initIO(); Msg::setVerbosity(0);
  return replayMain(c, v, [](const J& h) {
    State s; s.managed = false; limit(false, 0); J lastTrip;
    for (size_t t = 0; t < h.size(); ++t) {
      const J& r = h[t]; const std::string& n = r["n"].str(); const J& f = r["f"]; g_ctx = "step " + std::to_string(t) + " " + n + " (" + f["str"].str() + ")";
      if (n == "New") { s.in.name = NAMES[r["name"].n()]; s.in.attr = ATTRS[(r["name"].n() + r["meta"].n()) % 10]; s.in.map = r["map"].n(); s.in.meta = r["meta"].n(); s.managed = false; limit(false, 0); DISPATCH(f, s.f = FieldRes::Ptr(Typed<T>::make(f, s.in))); }
      else if (n == "Edit") {
        if (s.managed) { s.f = 0; limit(false, 0); s.f = load(s.path, s.in, lastTrip, false); s.managed = false; } // demand-loaded fields are read only
        DISPATCH(f, Typed<T>::edit(field_dynamic_cast<Field<T> >(s.f), f, r["i"].n() - 1, r["v"].n())); }
      else if (n == "Refused" || n == "Trip") {
        bool og = r["fmt"].str() == "ogawa"; g_ctx += og ? " Ogawa" : " HDF5"; std::string path = "r" + std::to_string(++g_files) + ".f3d"; bool ok = false; setNumIOThreads(r["th"].n());
        { Field3DOutputFile o; Field3DOutputFile::useOgawa(og); expectTrue(o.create(path), "create"); DISPATCH(f, ok = Wr<T>::go(o, s.in, s.f, t % 2)); expectTrue(o.close(), "close"); }
        if (n == "Refused") { expectTrue(!ok, "writing a structure the format cannot hold reported success"); unlink(path.c_str()); }
        else { expectTrue(ok, "writing reported failure"); limit(r["managed"].b(), r["lim"].n());
          FieldRes::Ptr g = load(path, s.in, r, r["same"].b()); DISPATCH(f, Typed<T>::check(field_dynamic_cast<Field<T> >(g), f, s.in));
          if (r["adopt"].b()) { s.f = g; g = 0; if (!s.path.empty()) unlink(s.path.c_str()); s.path = path; s.managed = r["managed"].b(); lastTrip = r; }
          else { g = 0; if (!s.managed) limit(false, 0); unlink(path.c_str()); } } }
      DISPATCH(f, Typed<T>::check(field_dynamic_cast<Field<T> >(s.f), f, s.in));
    }
    s.f = 0; if (!s.path.empty()) unlink(s.path.c_str());
  });
}
