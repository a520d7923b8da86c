// Replays spec/IterationGen behaviours: the same script of iterators on every structure that can hold the scenario.
#include "f3d_common.h"
#include "SparseFile.h"
#include <memory>
template <class T> struct AbsIt {
  virtual ~AbsIt() {}
  virtual V3i pos() = 0; virtual T val(int) = 0; virtual void inc() = 0; virtual bool end() = 0; virtual AbsIt* copy() = 0; virtual bool assign(AbsIt*) = 0;
};
// Traits: b = begin iterator, e = end iterator. RW: the value can be set (then it is set to itself, twice)
template <class T, class I, bool RW> struct Wr { static void go(I& i, const T& v) { *i = v; } };
template <class T, class I> struct Wr<T, I, false> { static void go(I&, const T&) {} };
template <class T, class I, bool AS> struct As { static bool go(I& a, const I& b) { a = b; return true; } };
template <class T, class I> struct As<T, I, false> { static bool go(I&, const I&) { return false; } };
template <class T, class I, bool PTR> struct Arrow { static T go(I& i) { return *(i.operator->()); } };
template <class T, class I> struct Arrow<T, I, false> { static T go(I& i) { return T(*i); } };
template <class T, class I, bool RW, bool AS, bool PTR> struct ItT : AbsIt<T> {
  std::unique_ptr<I> i, e;
  ItT(const I& a, const I& b) : i(new I(a)), e(new I(b)) {}
  V3i pos() { return V3i(i->x, i->y, i->z); }
  T val(int k) { if (k % 3 == 1) return Arrow<T, I, PTR>::go(*i); T v = T(**i); if (k % 3 == 2) Wr<T, I, RW>::go(*i, v); return T(**i); }
  void inc() { ++*i; }
  bool end() { return !(*i != *e); }
  AbsIt<T>* copy() { return new ItT(*i, *e); }
  bool assign(AbsIt<T>* o) { ItT* p = static_cast<ItT*>(o); if (this == p) return true; if (As<T, I, AS>::go(*i, *p->i)) { As<T, I, AS>::go(*e, *p->e); }
    else { std::unique_ptr<I> a(new I(*p->i)), b(new I(*p->e)); i.swap(a); e.swap(b); } return true; }
};
template <class T> struct Struct {   // something that can be iterated over
  std::string name; virtual ~Struct() {} virtual AbsIt<T>* whole() = 0; virtual AbsIt<T>* over(const Box3i& b) = 0; virtual T point(const V3i& p) = 0;
};
template <class T, class F, bool PTR, bool AS> struct ConstS : Struct<T> { typename F::Ptr f; ConstS(typename F::Ptr f_, const char* n) : f(f_) { this->name = n; }
  typedef typename F::const_iterator I;
  AbsIt<T>* whole() { const F& c = *f; return new ItT<T, I, false, AS, PTR>(c.cbegin(), c.cend()); }
  AbsIt<T>* over(const Box3i& b) { const F& c = *f; return new ItT<T, I, false, AS, PTR>(c.cbegin(b), c.cend(b)); }
  T point(const V3i& p) { const Field<T>& c = *f; return c.value(p.x, p.y, p.z); } };
template <class T, class F, bool PTR, bool AS> struct WrS : Struct<T> { typename F::Ptr f; WrS(typename F::Ptr f_, const char* n) : f(f_) { this->name = n; }
  typedef typename F::iterator I;
  AbsIt<T>* whole() { return new ItT<T, I, true, AS, PTR>(f->begin(), f->end()); }
  AbsIt<T>* over(const Box3i& b) { return new ItT<T, I, true, AS, PTR>(f->begin(b), f->end(b)); }
  T point(const V3i& p) { return f->lvalue(p.x, p.y, p.z); } };
template <class M> struct MacC : Struct<typename M::real_t> { typedef typename M::real_t S; typename M::Ptr f; int c; MacC(typename M::Ptr f_, int c_) : f(f_), c(c_) { this->name = "staggered component"; }
  typedef typename M::const_mac_comp_iterator I;
  AbsIt<S>* whole() { const M& m = *f; return new ItT<S, I, false, false, true>(m.cbegin_comp(MACComponent(c)), m.cend_comp(MACComponent(c))); }
  AbsIt<S>* over(const Box3i& b) { const M& m = *f; return new ItT<S, I, false, false, true>(m.cbegin_comp(MACComponent(c), b), m.cend_comp(MACComponent(c), b)); }
  S point(const V3i& p) { const M& m = *f; return c == 0 ? m.u(p.x, p.y, p.z) : c == 1 ? m.v(p.x, p.y, p.z) : m.w(p.x, p.y, p.z); } };
template <class M> struct MacW : MacC<M> { typedef typename M::real_t S; MacW(typename M::Ptr f_, int c_) : MacC<M>(f_, c_) { this->name = "staggered component (writable)"; }
  typedef typename M::mac_comp_iterator I;
  AbsIt<S>* whole() { M& m = *this->f; return new ItT<S, I, true, false, true>(m.begin_comp(MACComponent(this->c)), m.end_comp(MACComponent(this->c))); }
  AbsIt<S>* over(const Box3i& b) { M& m = *this->f; return new ItT<S, I, true, false, true>(m.begin_comp(MACComponent(this->c), b), m.end_comp(MACComponent(this->c), b)); } };
static Box3i jbox(const J& lo, const J& hi) { return Box3i(v3(lo), v3(hi)); }
template <class T> void play(Struct<T>& s, const J& h, bool expectValues) {
  std::map<int, std::unique_ptr<AbsIt<T> > > its; int vk = 0;
  for (size_t st = 1; st < h.size(); ++st) {
    const J& r = h[st]; const std::string& k = r["n"].str(); int i = r["i"].n(); const J& vis = r["vis"]; bool done = r["done"].b();
    g_ctx = s.name + " step " + std::to_string(st) + " " + k + " iterator " + std::to_string(i);
    size_t v = 0; bool fresh = true;
    if (k == "Whole") its[i].reset(s.whole());
    else if (k == "Box" || k == "Empty") its[i].reset(s.over(jbox(r["lo"], r["hi"])));
    else if (k == "Copy") its[i].reset(its[r["j"].n()]->copy());
    else if (k == "Assign") { if (its[i]) its[i]->assign(its[r["j"].n()].get()); else its[i].reset(its[r["j"].n()]->copy()); }
    else fresh = false;
    AbsIt<T>& a = *its[i];
    for (;;) {
      if (!fresh) { if (v == vis.size() && !done) break; if (v > vis.size() || (v == vis.size() && a.end())) break; a.inc(); }
      fresh = false;
      if (v == vis.size()) { if (done) expectTrue(a.end(), "iterator not at its end"); break; }
      V3i p(vis[v][0].n(), vis[v][1].n(), vis[v][2].n());
      expectTrue(!a.end(), "ended before " + sp(p.x, p.y, p.z));
      expectTrue(a.pos() == p, "at " + sp(a.pos().x, a.pos().y, a.pos().z) + ", specification says " + sp(p.x, p.y, p.z));
      if (expectValues) { if (vk % 4 != 3) expectVal(a.val(vk), vis[v][3].n(), "value at " + sp(p.x, p.y, p.z)); }
      else { T x = a.val(vk); expectTrue(x == s.point(p), "value differs from the point value at " + sp(p.x, p.y, p.z)); }
      if (expectValues && vk % 5 == 0) expectVal(s.point(p), vis[v][3].n(), "point value at " + sp(p.x, p.y, p.z));
      ++vk; ++v;
    }
    if (v == vis.size() && !done && vis.size()) expectTrue(!a.end(), "ended early");
    if (done && vis.size() == 0) expectTrue(a.end(), "not at its end");
  }
}
static int g_n = 0;
template <class T> struct FileIO { static bool wr(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeScalarLayer<T>("p", "l", f); }
  static typename Field<T>::Vec rd(Field3DInputFile& i) { return i.readScalarLayers<T>("p", "l"); } };
template <class S> struct FileIO<FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T; static bool wr(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeVectorLayer<S>("p", "l", f); }
  static typename Field<T>::Vec rd(Field3DInputFile& i) { return i.readVectorLayers<S>("p", "l"); } };
static Box3i padded(const Box3i& dw, int p) { return Box3i(dw.min - V3i(p), dw.max + V3i(p)); }
template <class T> typename SparseField<T>::Ptr makeSparse(const J& s) {
  V3i mn = v3(s["min"]), res = v3(s["res"]); Box3i dw = boxOf(mn, res); int o = s["order"].n(), bs = 1 << o; const J& al = s["al"];
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(o); f->setSize(padded(dw, s["pad"].n()), dw); f->name = "p"; f->attribute = "l"; f->setMapping(FieldMapping::Ptr(new MatrixFieldMapping));
  V3i br = f->blockRes(); size_t b = 0;
  for (int k = 0; k < br.z; ++k) for (int j = 0; j < br.y; ++j) for (int i = 0; i < br.x; ++i, ++b) if (!al[b].b()) f->setBlockEmptyValue(i, j, k, Emb<T>::to(s["ev"][b].n()));
  size_t n = 0;
  for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i, ++n) { size_t bl = i / bs + br.x * (j / bs + size_t(br.y) * (k / bs)); if (al[bl].b()) f->lvalue(mn.x + i, mn.y + j, mn.z + k) = Emb<T>::to(s["val"][n].n()); }
  return f;
}
template <class T> void cells(const J& h) {
  const J& s = h[0]["s"]; V3i mn = v3(s["min"]), res = v3(s["res"]); Box3i dw = boxOf(mn, res); int o = s["order"].n();
  typename DenseField<T>::Ptr d(new DenseField<T>); d->setSize(padded(dw, s["pad"].n()), dw);
  size_t n = 0; for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i, ++n) d->lvalue(mn.x + i, mn.y + j, mn.z + k) = Emb<T>::to(s["val"][n].n());
  typename SparseField<T>::Ptr sp1 = makeSparse<T>(s), sp2 = makeSparse<T>(s), sp3 = makeSparse<T>(s), dyn;
  ++g_n; int fmt = g_n % 2; std::string path = "it" + std::to_string(g_n) + ".f3d";
  { Field3DOutputFile out; out.useOgawa(fmt); expectTrue(out.create(path), "create"); expectTrue(FileIO<T>::wr(out, sp1), "write"); out.close(); }
  SparseFileManager& m = SparseFileManager::singleton(); m.setLimitMemUse(true); m.setMaxMemUse(float(((g_n % 3) * (sizeof(T) << (3 * o)) + 1) / 1048576.0));
  { Field3DInputFile in; expectTrue(in.open(path), "open"); typename Field<T>::Vec v = FileIO<T>::rd(in); expectTrue(v.size() == 1, "read"); dyn = field_dynamic_cast<SparseField<T> >(v[0]); expectTrue(!!dyn && dyn->isDynamicLoad(), "demand loaded"); }
  m.setLimitMemUse(false);
  typedef DenseField<T> D; typedef SparseField<T> S; m.setLimitMemUse(true);
  // grains and blocks
  g_ctx = "blocks"; const J& bl = h[0]["blocks"]; const J& gr = h[0]["grains"]; typename S::Ptr both[2] = {sp1, dyn};
  for (int q = 0; q < 2; ++q) { S& f = *both[q]; std::string w = q ? "demand loaded: " : "in memory: ";
    V3i br = f.blockRes(); size_t b = 0; typename S::block_iterator bi = f.blockBegin(), be = f.blockEnd();
    expectEq(f.numGrains(), bl.size(), w + "grains");
    for (; b < bl.size() && bi != be; ++bi, ++b) {
      Box3i want = jbox(bl[b]["min"], bl[b]["max"]), g;
      expectTrue(bi.x == int(b % br.x) && bi.y == int(b / br.x % br.y) && bi.z == int(b / (br.x * br.y)), w + "block iterator index " + std::to_string(b));
      expectTrue(bi.blockBoundingBox() == want, w + "block bounds " + std::to_string(b));
      expectEq(f.getGrainBounds(b, g), bl[b]["full"].b(), w + "grain is a whole block " + std::to_string(b));
      expectTrue(g == want, w + "grain bounds " + std::to_string(b));
    }
    expectTrue(b == bl.size() && !(bi != be) && bi == be, w + "number of blocks"); }
  expectEq(d->numGrains(), gr.size(), "dense grains");
  for (size_t b = 0; b < gr.size(); ++b) { Box3i g; expectTrue(d->getGrainBounds(b, g), "dense grain contiguous"); expectTrue(g == jbox(gr[b]["min"], gr[b]["max"]), "dense grain " + std::to_string(b)); }
  { ConstS<T, D, true, false> x(d, "dense"); play(x, h, true); }
  { WrS<T, D, true, false> x(d, "dense (writable)"); play(x, h, true); }
  { ConstS<T, Field<T>, false, false> x(typename Field<T>::Ptr(d), "field interface"); play(x, h, true); }
  { ConstS<T, Field<T>, false, false> x(typename Field<T>::Ptr(dyn), "field interface of a demand-loaded field"); play(x, h, true); }
  { WrS<T, WritableField<T>, false, false> x(typename WritableField<T>::Ptr(d), "writable field interface"); play(x, h, true); }
  { ConstS<T, S, true, true> x(sp1, "sparse"); play(x, h, true); }
  { ConstS<T, S, true, true> x(dyn, "demand-loaded sparse"); play(x, h, true); }
  { WrS<T, S, true, true> x(sp2, "sparse (writable)"); play(x, h, true); }
  { WrS<T, WritableField<T>, false, false> x(typename WritableField<T>::Ptr(sp3), "writable field interface of a sparse field"); play(x, h, true); }
  { ConstS<T, S, true, true> x(sp2, "sparse after write iteration"); play(x, h, true); }
  dyn = 0; unlink(path.c_str());
}
template <class T> void mac(const J& h) {
  typedef MACField<T> M; typedef typename M::real_t S; const J& s = h[0]["s"]; V3i mn = v3(s["min"]), res = v3(s["res"]); Box3i dw = boxOf(mn, res); int c = s["c"].n();
  typename M::Ptr m(new M); m->setSize(padded(dw, s["pad"].n()), dw); m->clear(T(0));
  int q = 50; for (int cc = 0; cc < 3; ++cc) for (typename M::mac_comp_iterator i = m->begin_comp(MACComponent(cc)), e = m->end_comp(MACComponent(cc)); i != e; ++i) *i = S(float(q++ % 90));
  if (c < 4) { V3i r = res; r[c - 1] += 1; size_t n = 0;
    for (int k = 0; k < r.z; ++k) for (int j = 0; j < r.y; ++j) for (int i = 0; i < r.x; ++i, ++n) { V3i p = mn + V3i(i, j, k); S v = S(float(s["val"][n].n())); if (c == 1) m->u(p.x, p.y, p.z) = v; else if (c == 2) m->v(p.x, p.y, p.z) = v; else m->w(p.x, p.y, p.z) = v; }
    { MacC<M> x(m, c - 1); play<S>(x, h, true); } { MacW<M> x(m, c - 1); play<S>(x, h, true); } { MacC<M> x(m, c - 1); play<S>(x, h, true); }
  } else { ConstS<T, Field<T>, false, false> x(typename Field<T>::Ptr(m), "cells of a staggered field"); play<T>(x, h, false); }
}
int main(int c, char** v) {
  initIO();
  int rc = replayMain(c, v, [](const J& b) {
    const J& h = b["h"]; int t = b["t"].n(); bool m = h[0]["s"]["c"].n() > 0;
    if (m) { if (t == 0) mac<V3f>(h); else if (t == 1) mac<V3h>(h); else mac<V3d>(h); }
    else { if (t == 0) cells<float>(h); else if (t == 1) cells<V3h>(h); else cells<double>(h); }
  });
  fflush(stdout); _exit(rc);
}
