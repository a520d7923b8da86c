// Builds multi-resolution fields and minimum/maximum pyramids from the bases spec/MIPBuildGen gives and compares every level.
#include <OpenEXR/ImathBox.h>
#include <ostream>
namespace IMATH_INTERNAL_NAMESPACE { template <class T> std::ostream& operator<<(std::ostream& o, const Box<T>& b) { return o << b.min << ".." << b.max; } }
#include "f3d_common.h"
#include "vsched.h"
#include "MinMaxUtil.h"
#ifndef WITH_SCHED
extern "C" { void sched_begin(uint64_t, int, int) {} void sched_end() {} void sched_pause(int) {} const char* sched_uaf() { return 0; } uint64_t sched_hash() { return 0; } }
#endif
static const M44d& matrix() { static const double c = .8, s = .6; static const M44d m(5 * c, 5 * s, 0, 0, -3 * s, 3 * c, 0, 0, 0, 0, 2, 0, 7, 1, -2, 1); return m; }
// components as multiples of the specification's integer: 1, 2, -1
template <class T> struct Comp { enum { n = 1 }; static double get(const T& v, int) { return double(v); } };
template <class S> struct Comp<FIELD3D_VEC3_T<S> > { enum { n = 3 }; static double get(const FIELD3D_VEC3_T<S>& v, int i) { return v[i]; } };
static const double MULT[] = {1, 2, -1};
template <class T> struct Tol { static double half() { return 0; } };
template <> struct Tol<Field3D::half> { static double half() { return 1; } };
template <class T> static void order(SparseField<T>& f, int o) { f.setBlockOrder(o); }
template <class T> static void order(DenseField<T>&, int) {}
template <class MIP, class FLD> struct Run {
  typedef typename FLD::value_type T; typedef typename MIP::Ptr P; typedef Comp<T> C;
  const J& in; const J& out; int filter; V3i bmin; std::string tag;
  Run(const J& b) : in(b["in"]), out(b["out"]), filter(b["in"]["filter"].n()), bmin(v3(b["in"]["min"])) {}
  static long idx(const V3i& p, const V3i& r) { return p.x + r.x * (p.y + (long)r.y * p.z); }
  static V3i pos(int i, const V3i& r) { return V3i(i % r.x, i / r.x % r.y, i / r.x / r.y); }
  typename FLD::Ptr base() const {
    typename FLD::Ptr f(new FLD); order(*f, in["order"].n()); V3i res = v3(in["res"]); Box3i w = boxOf(bmin, res); const J& v = out["lv"][0]["v"];
    f->name = "nm"; f->attribute = "at"; f->metadata().setIntMetadata("tag", 7); MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(matrix()); f->setMapping(m);
    f->setSize(w, w); bool sp = in["m"].n() % 3 == 1; if (!sp || boost::is_same<FLD, DenseField<T> >::value) f->clear(T(0));
    for (int i = 0; i < (long)v.size(); ++i) { V3i p = bmin + pos(i, res); if (v[i].n() != 0) f->fastLValue(p.x, p.y, p.z) = Emb<T>::to(v[i].n()); }
    return f; }
  template <class F> static P mk(const FLD& f, int small, const V3i& off, int th) { bool zero = off == V3i(0) && small % 2; return zero ? makeMIP<MIP, F>(f, small, th) : makeMIP<MIP, F>(f, small, off, th); }
  P make(const FLD& f, int th) const {
    int small = in["small"].n(); V3i off = v3(in["off"]);
    switch (filter) { case 0: return mk<BoxFilter>(f, small, off, th); case 1: return mk<MinFilter>(f, small, off, th); case 2: return mk<MaxFilter>(f, small, off, th); case 3: return mk<TriangleFilter>(f, small, off, th); case 4: return mk<GaussianFilter>(f, small, off, th); default: return mk<MitchellFilter>(f, small, off, th); } }
  void near(double got, double want, double tol, const std::string& w) const { ++g_cmp; if (!(std::fabs(got - want) <= tol)) { std::ostringstream s; s << g_ctx << " " << tag << w << ": got " << got << ", specification says " << want; throw Mismatch(s.str()); } }
  void within(double got, double lo, double hi, double tol, const std::string& w) const { ++g_cmp; if (!(got >= lo - tol && got <= hi + tol)) { std::ostringstream s; s << g_ctx << " " << tag << w << ": got " << got << ", specification says " << lo << ".." << hi; throw Mismatch(s.str()); } }
  static std::string at(int l, const V3i& p) { return "level " + std::to_string(l) + " voxel " + sp(p.x, p.y, p.z); }
  void frame(P m, const J& lv, const Box3i& w0, const V3i& off, bool named) const {
    expectTrue(!!m, tag + "no field was built"); expectEq(m->numLevels(), (size_t)lv.size(), tag + "number of levels");
    if (named) { expectEq(m->name, std::string("nm"), tag + "name"); expectEq(m->attribute, std::string("at"), tag + "attribute"); expectEq((int)m->metadata().intMetadata("tag", -1), 7, tag + "metadata"); }
    expectEq(m->mipOffset(), off, tag + "offset"); expectEq(m->extents(), w0, tag + "extents"); expectEq(m->dataWindow(), w0, tag + "data window");
    MatrixFieldMapping::Ptr bm(new MatrixFieldMapping); bm->setLocalToWorld(matrix()); bm->setExtents(w0);
    for (int l = 0; l < (int)lv.size(); ++l) {
      V3i r = v3(lv[l]["res"]); Box3i w = l ? boxOf(V3i(0), r) : w0; typename FLD::Ptr f = m->concreteMipLevel(l); std::string a = tag + "level " + std::to_string(l) + ": ";
      expectTrue(!!f, a + "missing"); expectEq(f->extents(), w, a + "extents"); expectEq(f->dataWindow(), w, a + "data window"); expectEq(m->mipResolution(l), r, a + "resolution"); expectEq(f->name, std::string("nm"), a + "name"); expectEq(f->attribute, std::string("at"), a + "attribute");
      expectTrue(!!f->mapping(), a + "no mapping");
      for (int k = 0; k < 4; ++k) { V3i u(k == 1 ? r.x : 0, k == 2 ? r.y : 0, k == 3 ? r.z : 0); V3d got, want, u0(w0.min); for (int d = 0; d < 3; ++d) u0[d] += (((off[d] >> l) << l) - off[d]) + (double)(1 << l) * u[d];
        f->mapping()->voxelToWorld(V3d(w.min + u), got, 0.f); bm->voxelToWorld(u0, want, 0.f); expectTrue((got - want).length() < 1e-4 * (1 + want.length()), a + "the mapping takes voxel corner " + sp(u.x, u.y, u.z) + " elsewhere than the base's"); } } }
  static T val(P m, int l, const V3i& p) { return m->concreteMipLevel(l)->fastValue(p.x, p.y, p.z); }
  static bool eqv(const T& a, const T& b) { for (int c = 0; c < C::n; ++c) if (!(C::get(a, c) == C::get(b, c))) return false; return true; }
  void level0(P m) const { V3i r = v3(in["res"]); const J& v = out["lv"][0]["v"]; for (int i = 0; i < (long)v.size(); ++i) { V3i p = pos(i, r); expectVal(val(m, 0, bmin + p), v[i].n(), tag + at(0, p)); } }
  void check(P m) const {
    const J& lv = out["lv"]; frame(m, lv, boxOf(bmin, v3(in["res"])), v3(in["off"]), true); level0(m);
    const J& b = lv[0]["v"]; long lo = b[0].n(), hi = lo; bool con = true; for (int i = 0; i < (long)b.size(); ++i) { lo = std::min(lo, (long)b[i].n()); hi = std::max(hi, (long)b[i].n()); } con = lo == hi; double big = std::max(std::labs(lo), std::labs(hi));
    for (int l = 1; l < (int)lv.size(); ++l) {
      V3i r = v3(lv[l]["res"]); const J& v = lv[l]["v"]; double scale = std::pow(8., l), rnd = (Tol<T>::half() ? 2 * big / 2048 : 2 * big * 1e-6) * 3 * l;
      for (int i = 0; i < (long)v.size(); ++i) { V3i p = pos(i, r); T g = val(m, l, p);
        for (int c = 0; c < C::n; ++c) { double x = C::get(g, c) / MULT[c], e = v[i].n();
          if (filter == 0) near(x, e / scale, Tol<T>::half() ? rnd : 0, at(l, p));
          else if (filter < 3) { if (c < 2) near(x, e, 0, at(l, p)); }
          else if (con) near(x, lo, rnd, at(l, p));
          else if (filter == 3 && l == 1) near(x, double(out["tri"][i][0].n()) / out["tri"][i][1].n(), rnd, at(l, p));
          else if (filter < 5) within(x, lo, hi, rnd, at(l, p)); } } } }
  void same(P a, P b, double tol, const std::string& w) const { const J& lv = out["lv"]; for (int l = 1; l < (int)lv.size(); ++l) { V3i r = v3(lv[l]["res"]); for (int i = 0; i < (long)lv[l]["v"].size(); ++i) { V3i p = pos(i, r); T x = val(a, l, p), y = val(b, l, p); for (int c = 0; c < C::n; ++c) near(C::get(x, c), C::get(y, c), tol, w + at(l, p)); } } }
  typedef std::pair<P, P> PP;
  PP pyramid(const FLD& f, int th) const { return makeMinMax<MIP>(f, in["mult"].n() / 4.f, th); }
  void bound(P m, bool mn) const {
    const J& a = out[mn ? "min" : "max"]; const J& b = out[mn ? "min2" : "max2"]; std::string t = mn ? "minimum " : "maximum "; const_cast<Run*>(this)->tag += t; V3i r0 = v3(a[0]["res"]); frame(m, a, boxOf(V3i(0), r0), V3i(0), false);
    for (int l = 0; l < (int)a.size(); ++l) { V3i r = v3(a[l]["res"]); const J& x = a[l]["v"]; const J& y = b[l]["v"];
      for (int i = 0; i < (long)x.size(); ++i) { V3i p = pos(i, r); T g = val(m, l, p); long lo = x[i].n(), hi = y[i].n(); if (!mn) std::swap(lo, hi); if (std::labs(x[i].n()) > 900) continue;
        for (int c = 0; c < 2 && c < C::n; ++c) within(C::get(g, c) / MULT[c], lo, hi, 0, at(l, p)); } }
    std::string& s = const_cast<Run*>(this)->tag; s.resize(s.size() - t.size()); }
  PP build(const FLD& f, int th) const { return filter == 6 ? pyramid(f, th) : PP(make(f, th), P()); }
  void verify(const PP& p) const { if (filter < 6) check(p.first); else { expectTrue(p.first && p.second, tag + "no pyramid was built"); bound(p.first, true); bound(p.second, false); } }
  void run() { for (int th = 1; th < 5; ++th) { tag = std::to_string(th) + " threads: "; PP p = build(*base(), th); verify(p); if (th == 1) last = p.first; else if (filter < 6) same(p.first, last, 0, "differs from one thread at "); }
    // a field that covers only part of its extents is refused
    if (filter < 6) { FLD part; Box3i w = boxOf(bmin, v3(in["res"])), e = w; e.max[in["axis"].n() - 1] += 1; part.setSize(e, w); part.clear(T(0)); expectTrue(!make(part, 1), "a field with extents beyond its data window was accepted"); } }
  P last;
};
template <template <class> class MA, template <class> class FA, template <class> class MB, template <class> class FB, class T> static void both(const J& b) {
  Run<MA<T>, FA<T> > a(b); a.run(); Run<MB<T>, FB<T> > c(b); c.run();
  if (a.filter < 6) { const J& lv = b["out"]["lv"]; for (int l = 1; l < (int)lv.size(); ++l) { V3i r = v3(lv[l]["res"]); for (int i = 0; i < (long)lv[l]["v"].size(); ++i) { V3i p = Run<MA<T>, FA<T> >::pos(i, r); T x = Run<MA<T>, FA<T> >::val(a.last, l, p), y = Run<MB<T>, FB<T> >::val(c.last, l, p); for (int k = 0; k < Comp<T>::n; ++k) a.near(Comp<T>::get(x, k), Comp<T>::get(y, k), Tol<T>::half() ? .2 : 1e-3, "dense differs from sparse at " + a.at(l, p)); } } } }
template <class T> static void scen(const J& b) {
#ifdef WITH_SCHED
  Run<MIPSparseField<T>, SparseField<T> > r(b); int ns = b["ns"].n(), seed = b["seed"].n();
  for (int s = 0; s < ns; ++s) { int th = 2 + s % 2; r.tag = "schedule " + std::to_string(s) + ", " + std::to_string(th) + " threads: "; int pol = s % 3 == 1 ? 1 : s % 3 == 2 ? 3 : 0; static const int inv[] = {2, 4, 20}, hot[] = {1, 2, 6};
    typename Run<MIPSparseField<T>, SparseField<T> >::PP p; typename SparseField<T>::Ptr f = r.base();
    sched_begin(seed * 1000 + s, pol, pol == 1 ? 1 + s % 4 : pol == 3 ? hot[s / 3 % 3] : inv[s / 3 % 3]);
    std::string err; try { p = r.build(*f, th); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } sched_end();
    if (!err.empty()) throw Mismatch(r.tag + err); if (sched_uaf()) throw Mismatch(r.tag + sched_uaf()); r.verify(p); }
#else
  both<MIPDenseField, DenseField, MIPSparseField, SparseField, T>(b);
#endif
}
static void scenario(const J& b) { switch (b["in"]["type"].n()) { case 0: scen<float>(b); break; case 1: scen<half>(b); break; case 2: scen<V3f>(b); break; default: scen<double>(b); } }
int main(int c, char** v) { initIO(); Msg::setVerbosity(0); int rc = replayMain(c, v, scenario); fflush(stdout); _exit(rc); }
