// Runs spec/MIPGen programs on multi-resolution fields read on demand: from Ogawa and HDF5 files and through load actions of its own.
#include <OpenEXR/ImathBox.h>
#include <ostream>
namespace IMATH_INTERNAL_NAMESPACE { template <class T> std::ostream& operator<<(std::ostream& o, const Box<T>& b) { return o << b.min << ".." << b.max; } }
#include "f3d_common.h"
#include "vsched.h"
#include "EmptyField.h"
#include "SparseFile.h"
#include <boost/thread/thread.hpp>
#include <unordered_set>
#include <map>
#ifndef WITH_SCHED
extern "C" { void sched_begin(uint64_t, int, int) {} void sched_end() {} void sched_pause(int) {} const char* sched_uaf() { return 0; } uint64_t sched_hash() { return 0; } }
#endif
static FieldMapping::Ptr mapping(int k) {
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping); const double c = .8, s = .6;
  M44d a(2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 1, -1, 3, 1), b(4, 0, 0, 0, 0, 1, 0, 0, 0, 0, 8, 0, 0, 2, 0, 1), r(5 * c, 5 * s, 0, 0, -3 * s, 3 * c, 0, 0, 0, 0, 2, 0, 7, 1, -2, 1), e(a);
  e[3][0] = 5;
  if (k == 1) m->setLocalToWorld(a); else if (k == 2) m->setLocalToWorld(b); else if (k == 3) m->setLocalToWorld(r); else { m->setLocalToWorld(0, a); m->setLocalToWorld(1, e); }
  return m; }
template <class T> struct Io { typedef typename Field<T>::Vec V; static void write(Field3DOutputFile& o, const char* p, const char* l, typename Field<T>::Ptr f) { if (!o.writeScalarLayer<T>(p, l, f)) throw std::logic_error("@ERROR writing"); } static V read(Field3DInputFile& i, const char* p, const char* l) { return i.readScalarLayers<T>(p, l); } };
template <class S> struct Io<FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T; typedef typename Field<T>::Vec V; static void write(Field3DOutputFile& o, const char* p, const char* l, typename Field<T>::Ptr f) { if (!o.writeVectorLayer<S>(p, l, f)) throw std::logic_error("@ERROR writing"); } static V read(Field3DInputFile& i, const char* p, const char* l) { return i.readVectorLayers<S>(p, l); } };
static const char* PN[] = {"", "pa", "pb"}; static const char* AN[] = {"", "a", "b"};
static bool g_hide = false;
template <class MIP, class FLD> struct Run {
  typedef typename FLD::value_type T; typedef typename MIP::Ptr P; typedef MIPField<FLD> Mip;
  typedef boost::intrusive_ptr<Mip> M;
  const J& b; int th, fmt; bool managed; std::string file;
  Run(const J& b_) : b(b_), th(b["th"].n()), fmt(b["fmt"].n()), managed(b["managed"].b()) { static int n = 0; file = "ml" + std::to_string(n++) + (fmt ? ".f3d" : ""); }
  ~Run() { if (fmt != 2) unlink(file.c_str()); }
  Box3i window(int s, int l) const { const J& w = b["nl"][s - 1][l]; return boxOf(v3(w["min"]), v3(w["res"])); }
  static void order(SparseField<T>& f) { f.setBlockOrder(2); } static void order(DenseField<T>&) {}
  typename FLD::Ptr level(int s, int l) const {
    typename FLD::Ptr f(new FLD); order(*f); Box3i w = window(s, l); f->setSize(w, w); long c = b["src"][s - 1]["c"].n();
    for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) f->fastLValue(i, j, k) = Emb<T>::to(1 + (c + 5 * l + (i - w.min.x) + 3 * (j - w.min.y) + 7 * (k - w.min.z)) % 61);
    return f; }
  struct Action : LazyLoadAction<FLD> { const Run* r; int s, l; virtual typename FLD::Ptr load() const { if (g_hide) throw Exc::Exception("not now"); return r->level(s, l); } };
  void dress(Mip& m, int s) const { const J& q = b["src"][s - 1]; m.name = PN[s]; m.attribute = AN[s]; m.metadata().setIntMetadata("tag", q["c"].n()); m.setMIPOffset(v3(q["off"])); m.setMapping(mapping(q["map"].n())); }
  P eager(int s) const { P m(new MIP); typename FLD::Vec v; int nl = b["nl"][s - 1].size(); for (int l = 0; l < nl; ++l) v.push_back(level(s, l)); m->setup(v); dress(*m, s); return m; }
  void prepare() { if (fmt == 2) return; Field3DOutputFile::useOgawa(fmt == 0); Field3DOutputFile o; if (!o.create(file)) throw std::logic_error("@ERROR create"); for (int s = 1; s < 3; ++s) Io<T>::write(o, PN[s], AN[s], eager(s)); }
  M lazy(int s) {
    if (fmt == 2) { P m(new MIP); typename MIP::ProxyVec p; typename LazyLoadAction<FLD>::Vec a; int nl = b["nl"][s - 1].size();
      for (int l = 0; l < nl; ++l) { typename EmptyField<T>::Ptr e(new EmptyField<T>); Box3i w = window(s, l); e->setSize(w, w); p.push_back(e); Action* x = new Action; x->r = this; x->s = s; x->l = l; a.push_back(typename LazyLoadAction<FLD>::Ptr(x)); }
      m->setupLazyLoad(p, a); dress(*m, s); return m; }
    Field3DInputFile in; if (!in.open(file)) throw Mismatch(g_ctx + " the file does not open"); typename Field<T>::Vec v = Io<T>::read(in, PN[s], AN[s]); if (v.size() != 1) throw Mismatch(g_ctx + " the layer is not there"); M m = field_dynamic_cast<Mip>(v[0]); if (!m) throw Mismatch(g_ctx + " not the multi-resolution field that was written"); return m; }
  struct Worker {
    Run* r; int tid; const J* prog; M slot[6]; const FLD* seen[6][5]; std::string err; int at;
    void expect(bool c, const std::string& w) { Quietly q; ++g_cmp; if (!c) throw Mismatch(w); }
    void forget(int i) { for (int l = 0; l < 5; ++l) seen[i][l] = 0; }
    static const FLD* shared[3][5];
    void same(int i, int l, const FLD* p) { Quietly q; const FLD*& x = i < 3 ? shared[i][l] : seen[i][l]; ++g_cmp; if (!p) throw Mismatch("no level"); if (!x) x = p; else if (x != p) throw Mismatch("level " + std::to_string(l) + " was loaded again"); }
    void value(const J& o) {
      int s = o["s"].n(), l = o["l"].n(); V3i u = v3(o["u"]); Mip& m = *slot[s]; T got = T();
      switch (o["d"].n()) { case 1: got = static_cast<const MIPBase<T>&>(m).mipValue(l, u.x, u.y, u.z); break; case 2: got = m.fastMipValue(l, u.x, u.y, u.z); break;
      case 3: { const FLD* f = m.rawMipLevel(l); same(s, l, f); got = f->fastValue(u.x, u.y, u.z); break; }
      case 4: { typename FLD::Ptr f = m.concreteMipLevel(l); same(s, l, f.get()); got = f->value(u.x, u.y, u.z); break; }
      default: { typename Field<T>::Ptr f = m.mipLevel(l); if (!f) throw Mismatch("no level"); got = f->value(u.x, u.y, u.z); } }
      if (l == 0 && o["d"].n() == 1) { T g = static_cast<const Field<T>&>(m).value(u.x, u.y, u.z); expect(g == got, "value and mipValue differ"); }
      Quietly q; expectVal(got, o["e"][0].n(), "voxel " + sp(u.x, u.y, u.z) + " of level " + std::to_string(l)); }
    void info(const J& o) {
      int s = o["s"].n(), l = o["l"].n(), src = o["e"][0].n(), map = o["e"][1].n(); typename FLD::Ptr f;
      if (o["d"].n() == 1) f = slot[s]->concreteMipLevel(l); else { typename Field<T>::Ptr g = slot[s]->mipLevel(l); f = field_dynamic_cast<FLD>(g); }
      same(s, l, f.get()); std::string w = "level " + std::to_string(l) + " of " + PN[src]; const J& q = r->b["src"][src - 1];
      std::string nm = f->name, at = f->attribute; int tag = f->metadata().intMetadata("tag", -5); FieldMapping::Ptr mp = f->mapping(); expect(!!mp, w + " has no mapping"); V3i u = v3(o["u"]), v = v3(o["v"]);
      MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(mapping(map)); V3d ws[2]; for (int t = 0; t < 2; ++t) mp->voxelToWorld(V3d(u), ws[t], t); Box3i ex = f->extents(), dw = f->dataWindow();
      Quietly z; expectEq(nm, std::string(PN[src]), w + ": name"); expectEq(at, std::string(AN[src]), w + ": attribute"); expectEq(tag, (int)q["c"].n(), w + ": metadata"); expectEq(ex, r->window(src, l), w + ": extents"); expectEq(dw, r->window(src, l), w + ": data window");
      expectEq(slot[s]->name, std::string(PN[src]), "name of the field"); expectEq(slot[s]->extents(), r->window(src, 0), "extents of the field");
      V3i res = v3(q["res"]);
      for (int t = 0; t < 2; ++t) { V3d ls(double(v.x) / res.x, double(v.y) / res.y, double(v.z) / res.z), want; mm->localToWorld(ls, want, t); expectTrue((want - ws[t]).length() < 1e-4 * (1 + want.length()), w + ": the mapping takes voxel corner " + sp(u.x, u.y, u.z) + " elsewhere than base voxel corner +" + sp(v.x, v.y, v.z)); } }
    void op(const J& o) {
      int k = o["op"].n(), s = o["s"].n(), l = o["l"].n(), d = o["d"].n();
      switch (k) {
      case 1: value(o); break;
      case 2: info(o); break;
      case 3: { int how = o["e"][0].n(); if (how == 1) slot[d] = field_dynamic_cast<Mip>(slot[s]->clone()); else if (how == 2) slot[d] = M(new Mip(*slot[s])); else { if (!slot[d]) slot[d] = M(new MIP); *slot[d] = *slot[s]; } if (d != s || how != 3) forget(d); else forget(d); expect(!!slot[d], "the copy is of another class"); break; }
      case 4: slot[s]->setMapping(mapping(o["e"][0].n())); break;
      case 5: { V3i u = v3(o["u"]), v = v3(o["v"]); const J& e = o["e"]; Mip& m = *slot[s]; size_t nl = m.numLevels(); V3i rs = m.mipResolution(l), off = m.mipOffset(); V3f g; V3i p(e[4].n(), e[5].n(), e[6].n()); m.getVsMIPCoord(V3f(p), l, g); Quietly q; expectEq(nl, (size_t)e[0].n(), "number of levels"); expectEq(rs, u, "resolution of level " + std::to_string(l)); expectEq(off, V3i(e[1].n(), e[2].n(), e[3].n()), "offset"); g *= 1 << l; if (e[7].n()) expectTrue((g - V3f(v)).length() < 1e-4, "coordinate in level " + std::to_string(l)); break; }
      case 6: { int e = o["e"][0].n(); bool g = slot[s]->levelLoaded(l); if (e >= 0) expect(g == (e == 1), "level " + std::to_string(l) + (g ? " is already loaded" : " is not loaded")); break; }
      case 7: slot[s] = M(); forget(s); break;
      case 8: { const J& e = o["e"]; size_t n = 0; bool dense = boost::is_same<FLD, DenseField<T> >::value; for (size_t i = 0; i < e.size(); ++i) { n += e[i].n(); expect(slot[s]->levelLoaded(i) == (e[i].n() > 0), "level " + std::to_string(i) + " loaded or not"); } size_t g = slot[s]->voxelCount(); if (dense || n == 0) expectEq(g, n, "voxels in memory"); long long mem = slot[s]->memSize(); expect(mem >= (long long)(dense ? n * sizeof(T) : 0) && mem < (long long)(n * 64 * sizeof(T) + 100000), "memory use"); break; }
      case 9: { bool thrown = false; g_hide = true; if (r->fmt != 2) rename(r->file.c_str(), "hidden"); try { slot[s]->concreteMipLevel(l); } catch (Exc::Exception& x) { thrown = true; } catch (std::exception& x) { thrown = true; } g_hide = false; if (r->fmt != 2) rename("hidden", r->file.c_str()); expect(thrown == (o["e"][0].n() == 1), thrown ? "a level in memory was read again" : "reading a level from a missing file was not reported"); break; }
      case 10: { slot[s] = M(new MIP); if (o["e"][0].n() % 2) slot[s]->clear(); slot[s]->setMapping(mapping(o["e"][0].n())); forget(s); slot[s]->memSize(); slot[s]->voxelCount(); break; }
      default: throw std::logic_error("@ERROR op");
      } }
    void run() {
      at = 0;
      try { for (at = 0; at < (int)prog->size(); ++at) op((*prog)[at]); for (int i = 0; i < 6; ++i) slot[i] = M(); }
      catch (std::logic_error& e) { err = e.what(); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } }
  };
  void run() {
    SparseFileManager& sm = SparseFileManager::singleton(); sm.setLimitMemUse(false); setNumIOThreads(1); prepare();
    long ns = b["ns"].n(), seed = b["seed"].n(); sm.setLimitMemUse(managed); sm.setMaxMemUse(100.f);
    for (long s = 0; s < ns; ++s) {
      g_ctx = "schedule " + std::to_string(s) + ":"; g_hide = false;
      { M sh[3]; for (int i = 1; i < 3; ++i) sh[i] = lazy(i); for (int i = 0; i < 3; ++i) for (int l = 0; l < 5; ++l) Worker::shared[i][l] = 0;
        std::vector<Worker> w(th); for (int t = 0; t < th; ++t) { w[t].r = this; w[t].tid = t + 1; w[t].prog = &b["prog"][t]; for (int i = 0; i < 6; ++i) w[t].forget(i); for (int i = 1; i < 3; ++i) w[t].slot[i] = sh[i]; }
        if (th == 1) w[0].run();
        else {
          int pol = s == 0 ? 2 : s % 5 == 1 ? 1 : s % 5 == 2 ? 3 : 0; static const int inv[] = {2, 3, 4, 8, 20}, hot[] = {1, 2, 3, 6, 12};
          sched_begin(seed * 1000 + s, pol, pol == 1 ? 1 + s % 4 : pol == 3 ? hot[s / 5 % 5] : inv[s / 5 % 5]);
          { std::vector<boost::thread*> v; for (int t = 0; t < th; ++t) v.push_back(new boost::thread(boost::bind(&Worker::run, &w[t]))); for (auto* t : v) { t->join(); delete t; } }
          sched_end(); }
        for (auto& x : w) { if (x.err.compare(0, 6, "@ERROR") == 0) throw std::logic_error(x.err); if (!x.err.empty()) throw Mismatch(g_ctx + " thread " + std::to_string(x.tid) + " op " + std::to_string(x.at) + ": " + x.err); }
        if (sched_uaf()) throw Mismatch(g_ctx + " " + sched_uaf()); }
      ++g_cmp; }
    sm.setLimitMemUse(false); }
};
template <class MIP, class FLD> const FLD* Run<MIP, FLD>::Worker::shared[3][5];
static void scenario(const J& b) {
  switch (b["kind"].n()) {
  case 0: Run<MIPSparseField<float>, SparseField<float> >(b).run(); break;
  case 1: Run<MIPDenseField<float>, DenseField<float> >(b).run(); break;
  case 2: Run<MIPSparseField<half>, SparseField<half> >(b).run(); break;
  case 3: Run<MIPDenseField<V3f>, DenseField<V3f> >(b).run(); break;
  case 4: Run<MIPSparseField<double>, SparseField<double> >(b).run(); break;
  default: Run<MIPDenseField<half>, DenseField<half> >(b).run(); } }
int main(int c, char** v) { initIO(); Msg::setVerbosity(0); int rc = replayMain(c, v, scenario); fflush(stdout); _exit(rc); }
