// Replays spec/InterpGen behaviours: linear interpolation on every structure and through every interpolator class.
#include "f3d_common.h"
#include "SparseFile.h"
static int g_n = 0;
template <class T> struct FileIO { typedef T S; static bool wr(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeScalarLayer<T>("p", "l", f); }
  static typename Field<T>::Vec rd(Field3DInputFile& i) { return i.readScalarLayers<T>("p", "l"); } };
template <class Q> struct FileIO<FIELD3D_VEC3_T<Q> > { typedef Q S; typedef FIELD3D_VEC3_T<Q> T; static bool wr(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeVectorLayer<Q>("p", "l", f); }
  static typename Field<T>::Vec rd(Field3DInputFile& i) { return i.readVectorLayers<Q>("p", "l"); } };
template <class T> struct Cmp { static double worst(const T& a, double e) { return std::fabs(double(a) - e); } static double of(const T& v) { return double(v); } };
template <class Q> struct Cmp<FIELD3D_VEC3_T<Q> > { typedef FIELD3D_VEC3_T<Q> T; static double worst(const T& a, double e) { return std::max(std::fabs(double(a.x) - e), std::max(std::fabs(double(a.y) - 2 * e), std::fabs(double(a.z) + e))); } };
template <class T> struct Tol { static double v() { return 1e-3; } };
template <> struct Tol<half> { static double v() { return 0.15; } }; template <> struct Tol<V3h> { static double v() { return 0.3; } };
static V3d qpos(const J& q) { return V3d(q[0].n() / 4.0, q[1].n() / 4.0, q[2].n() / 4.0); }
static std::string ps(const V3d& p) { std::ostringstream s; s << "(" << p.x << "," << p.y << "," << p.z << ")"; return s.str(); }
template <class T> void near(const T& got, long long want64, const std::string& what) { ++g_cmp; double e = want64 / 64.0;
  if (!(Cmp<T>::worst(got, e) <= Tol<T>::v())) { std::ostringstream s; s << g_ctx << " " << what << ": got " << Emb<T>::str(got) << ", specification says " << e; throw Mismatch(s.str()); } }
// LinearSparseFieldInterp does not compile for single precision vectors with the installed Imath
template <class T> struct SpL { static bool go(const SparseField<T>& f, const V3d& p, T& r) { typename SparseField<T>::LinearInterp i; r = i.sample(f, p); return true; } };
template <> struct SpL<V3f> { static bool go(const SparseField<V3f>&, const V3d&, V3f&) { return false; } };
template <> struct SpL<V3h> { static bool go(const SparseField<V3h>&, const V3d&, V3h&) { return false; } };
static FieldMapping::Ptr mapOf(int k) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d x; if (k == 1) { x.setScale(V3d(2, 3, 5)); x[3][0] = 7; m->setLocalToWorld(x); } if (k == 2) { x.setScale(V3d(-1, .5, .25)); m->setLocalToWorld(x); } return m; }
template <class T> void cells(const J& h) {
  const J& s = h[0]; V3i mn = v3(s["min"]), res = v3(s["res"]); Box3i dw = boxOf(mn, res), ex(dw.min - V3i(1, 0, 2), dw.max + V3i(0, 3, 0)); int o = s["order"].n(), bs = 1 << o; const J& al = s["al"]; bool st = s["static"].b();
  typedef DenseField<T> D; typedef SparseField<T> S;
  typename D::Ptr d(new D); d->setMapping(mapOf(s["map"].n())); d->setSize(ex, dw);
  typename S::Ptr f(new S), dyn; f->setBlockOrder(o); f->setMapping(mapOf(s["map"].n())); f->setSize(ex, dw); f->name = "p"; f->attribute = "l";
  V3i br = f->blockRes(); size_t b = 0, n = 0;
  for (int k = 0; k < br.z; ++k) for (int j = 0; j < br.y; ++j) for (int i = 0; i < br.x; ++i, ++b) if (!al[b].b()) f->setBlockEmptyValue(i, j, k, Emb<T>::to(s["ev"][b].n()));
  for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i, ++n) { size_t bl = i / bs + br.x * (j / bs + size_t(br.y) * (k / bs)); T v = Emb<T>::to(s["val"][n].n()); d->lvalue(mn.x + i, mn.y + j, mn.z + k) = v; if (al[bl].b()) f->lvalue(mn.x + i, mn.y + j, mn.z + k) = v; }
  std::string path;
  if (st) { ++g_n; path = "in" + std::to_string(g_n) + ".f3d"; { Field3DOutputFile out; out.useOgawa(g_n % 2); expectTrue(out.create(path), "create"); expectTrue(FileIO<T>::wr(out, f), "write"); out.close(); }
    SparseFileManager& m = SparseFileManager::singleton(); m.setLimitMemUse(true); m.setMaxMemUse(float(((g_n % 3) * (sizeof(T) << (3 * o)) + 1) / 1048576.0));
    Field3DInputFile in; expectTrue(in.open(path), "open"); typename Field<T>::Vec v = FileIO<T>::rd(in); expectTrue(v.size() == 1, "read"); dyn = field_dynamic_cast<S>(v[0]); expectTrue(!!dyn && dyn->isDynamicLoad(), "demand loaded"); }
  LinearFieldInterp<T> gi; LinearGenericFieldInterp<D> di; LinearGenericFieldInterp<S> si; typename D::LinearInterp dl; CubicFieldInterp<T> ci; CubicGenericFieldInterp<D> cd; typename S::CubicInterp cs;
  for (size_t t = 1; t < h.size(); ++t) {
    const J& r = h[t]; g_ctx = "step " + std::to_string(t);
    if (r["n"].str() == "Write") { V3i p = v3(r["p"]); T v = Emb<T>::to(r["v"].n()); d->lvalue(p.x, p.y, p.z) = v; f->lvalue(p.x, p.y, p.z) = v; continue; }
    for (size_t q = 0; q < r["q"].size(); ++q) {
      V3d p = qpos(r["q"][q]); long long e = r["exp"][q].n(); std::string at = " at " + ps(p);
      near(gi.sample(*d, p), e, "dense through the field interface" + at); near(di.sample(*d, p), e, "dense" + at); near(dl.sample(*d, p), e, "dense" + at);
      near(gi.sample(*f, p), e, "sparse through the field interface" + at); near(si.sample(*f, p), e, "sparse, generic interpolator" + at);
      T v; if (SpL<T>::go(*f, p, v)) near(v, e, "sparse" + at);
      if (dyn) { near(gi.sample(*dyn, p), e, "demand loaded through the field interface" + at); near(si.sample(*dyn, p), e, "demand loaded, generic interpolator" + at); if (SpL<T>::go(*dyn, p, v)) near(v, e, "demand loaded" + at); }
      V3d ws; d->mapping()->voxelToWorld(p + V3d(1e-9), ws); near(wsSample<T>(typename Field<T>::Ptr(d), gi, ws), e, "world space" + at);
    }
  }
  if (dyn) { for (int q = 0; q < br.x * br.y * br.z; ++q) {} }
  dyn = 0; if (!path.empty()) unlink(path.c_str());
}
template <class T> void mac(const J& h) {
  typedef MACField<T> M; typedef typename M::real_t S; const J& s = h[0]; V3i mn = v3(s["min"]), res = v3(s["res"]); Box3i dw = boxOf(mn, res);
  typename M::Ptr m(new M); m->setSize(Box3i(dw.min - V3i(1, 0, 2), dw.max + V3i(0, 3, 0)), dw); m->clear(T(0));
  for (int c = 0; c < 3; ++c) { V3i r = res; r[c] += 1; size_t n = 0; for (int k = 0; k < r.z; ++k) for (int j = 0; j < r.y; ++j) for (int i = 0; i < r.x; ++i, ++n) { V3i p = mn + V3i(i, j, k); S v = S(float(s["val"][c][n].n())); if (c == 0) m->u(p.x, p.y, p.z) = v; else if (c == 1) m->v(p.x, p.y, p.z) = v; else m->w(p.x, p.y, p.z) = v; } }
  typename M::LinearInterp li; LinearFieldInterp<T> gi; double tol = Tol<T>::v();
  for (size_t t = 1; t < h.size(); ++t) {
    const J& r = h[t]; g_ctx = "step " + std::to_string(t);
    if (r["n"].str() == "Write") { V3i p = v3(r["p"]); int c = r["c"].n() - 1; S v = S(float(r["v"].n())); if (c == 0) m->u(p.x, p.y, p.z) = v; else if (c == 1) m->v(p.x, p.y, p.z) = v; else m->w(p.x, p.y, p.z) = v; continue; }
    for (size_t q = 0; q < r["q"].size(); ++q) {
      V3d p = qpos(r["q"][q]); T a = li.sample(*m, p), g = gi.sample(*m, p); 
      for (int c = 0; c < 3; ++c) {
        double e = r["exp"][q][c].n() / 64.0; std::string at = std::string(" component ") + char('u' + c) + " at " + ps(p) + ", specification says " + std::to_string(e) + ", got ";
        expectTrue(std::fabs(double(a[c]) - e) <= tol, "staggered" + at + std::to_string(double(a[c])));
        double one = li.sample(*m, MACComponent(c), p); expectTrue(std::fabs(one - e) <= tol, "staggered single" + at + std::to_string(one));
        e = r["cell"][q][c].n() / 128.0; expectTrue(std::fabs(double(g[c]) - e) <= tol, "cells of a staggered field" + at + std::to_string(double(g[c])) + " (cell value " + std::to_string(e) + ")");
      }
    }
  }
}
int main(int c, char** v) {
  initIO();
  int rc = replayMain(c, v, [](const J& b) {
    const J& h = b["h"]; int t = b["t"].n(); bool m = h[0]["mac"].b();
    if (m) { if (t % 3 == 0) mac<V3f>(h); else if (t % 3 == 1) mac<V3h>(h); else mac<V3d>(h); }
    else switch (t) { case 0: cells<float>(h); break; case 1: cells<half>(h); break; case 2: cells<double>(h); break; case 3: cells<V3f>(h); break; case 4: cells<V3h>(h); break; default: cells<V3d>(h); }
  });
  fflush(stdout); _exit(rc);
}
