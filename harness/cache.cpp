// Runs client programs of the block cache (spec/BlockCacheGen.tla) on the real library, one controlled schedule per
// seed (or plainly, without WITH_SCHED), and records the events that spec/BlockCacheTrace.tla checks.
#define OWN_EVENTS
#include "f3d_common.h"
#include "SparseFile.h"
#include <boost/thread/thread.hpp>
#include <boost/bind/bind.hpp>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <sys/stat.h>
#ifdef WITH_SCHED
#include "vsched.h"
#else
struct Quietly { ~Quietly() {} };
static void sched_begin(uint64_t, int, int) {} static void sched_end() {} static const char* sched_uaf() { return 0; } static uint64_t sched_hash() { return 0; }
#endif
typedef std::vector<long> Ev;
struct Recorder {
  std::vector<Ev> ev; std::map<const void*, long> id; std::map<long, std::pair<long, long> > shape; bool on = false;
};
static Recorder* R;
static thread_local long t_field = 0, t_tid = 0;
struct Shape { long nb, bs; };
static std::map<long, Shape>* g_shape;     // field -> blocks, bytes per block
static void rec(long k, std::initializer_list<long> v) { Quietly q; if (!R->on) return; Ev e; e.push_back(k); e.push_back(t_tid); e.insert(e.end(), v); R->ev.push_back(e); }
static long idOf(const void* o) { Quietly qq;
  auto i = R->id.find(o); if (i != R->id.end()) return i->second;
  long n = R->id.size() + 1; R->id[o] = n;
  Shape s = (*g_shape)[t_field]; rec(2, {n, s.nb, s.bs, t_field});
  return n;
}
extern "C" void field3d_verif_event(const char* ev, const void* o, long a, long b, long c) { Quietly qq;
  if (!R->on) return;
  switch (ev[0]) {
    case 'i': rec(3, {idOf(o), a, b}); break;
    case 'd': rec(4, {idOf(o), a, b}); break;
    case 'l': rec(5, {idOf(o), a, b, c}); break;
    case 'e': rec(6, {idOf(o), a, b, c}); break;
    case 'r': { long r = idOf(o); rec(7, {r, b, c}); break; }
    case 'f': rec(8, {idOf(o), a, b, c}); break;
  }
}
// ---------------------------------------------------------------- the window shared by all fields
static V3i g_min, g_res; static Box3i g_dw;
static V3i vox(long n) { n -= 1; return g_min + V3i(n % g_res.x, (n / g_res.x) % g_res.y, n / (g_res.x * g_res.y)); }
static long num(int x, int y, int z) { V3i p = V3i(x, y, z) - g_min; return p.x + g_res.x * (p.y + (long)g_res.y * p.z) + 1; }
static V3i bres(int o) { int s = 1 << o; return V3i((g_res.x + s - 1) / s, (g_res.y + s - 1) / s, (g_res.z + s - 1) / s); }
static long blockOf(long n, int o) { V3i p = vox(n) - g_min, b = bres(o); int s = 1 << o; return p.x / s + (long)b.x * (p.y / s + (long)b.y * (p.z / s)); }
static bool isAlloc(int file, long b) { return (b * 3 + file) % 4 != 0; }
static long fileVal(int file, int o, long n) { long b = blockOf(n, o); return isAlloc(file, b) ? (n * 7 + file * 5) % 13 + 1 : -((b + file) % 3) - 1; }
template <class T> long first(const T& v) { return (long)std::floor(double(v)); }
template <class S> long first(const FIELD3D_VEC3_T<S>& v) { return (long)std::floor(double(v.x)); }
template <class T> long asInt(const T& v0) { T v = v0; Quietly qq; for (long i = -20; i <= 40; ++i) if (Emb<T>::eq(v, i)) return i; return 99999; }
struct It { long field; virtual ~It() {} virtual void touch() = 0; virtual void step() = 0; virtual It* copy() = 0; virtual bool assign(It*) = 0; };
struct FB {
  long id; int order; bool dyn;
  virtual ~FB() {}
  virtual int ty() = 0;
  virtual void rd(long n, int k) = 0; virtual void lin(long n) = 0; virtual void walk(long a, long b) = 0; virtual It* hold(long n) = 0;
  virtual long pin(long n) = 0; virtual void unpin(long n) = 0;
  virtual FB* clone(int kind) = 0; virtual bool assign(FB* o) = 0; virtual bool copyFrom(FB* o) = 0;
  virtual void clear(long v) = 0; virtual void resize() = 0; virtual void setOrder(int o) = 0; virtual void write(long n, long v) = 0;
  virtual void checkShape() = 0;
  void shape(size_t sz) { Quietly qq; Shape s = {bres(order).x * bres(order).y * bres(order).z, (long)(sz << (3 * order))}; (*g_shape)[id] = s; }
};
template <class T> struct TyOf; template <> struct TyOf<float> { enum { v = 0 }; }; template <> struct TyOf<half> { enum { v = 1 }; }; template <> struct TyOf<double> { enum { v = 2 }; };
template <> struct TyOf<V3f> { enum { v = 3 }; }; template <> struct TyOf<V3h> { enum { v = 4 }; }; template <> struct TyOf<V3d> { enum { v = 5 }; };
template <class T> struct ITT : It {
  typename SparseField<T>::const_iterator it; const T* p; bool end;
  ITT(long f, const typename SparseField<T>::const_iterator& i) : it(i), p(0), end(false) { field = f; }
  ITT(const ITT& o) : it(o.it), p(0), end(o.end) { field = o.field; }
  void touch() { if (end) return; t_field = field; const T& v = *it; if (p && p != &v) rec(9, {field, num(it.x, it.y, it.z), 88888, 1}); p = &v; rec(9, {field, num(it.x, it.y, it.z), asInt(v), 1}); }
  void step() { t_field = field; if (end) return; p = 0; ++it; if (it.z > g_dw.max.z) end = true; }
  It* copy() { t_field = field; return new ITT(*this); }
  bool assign(It* o) { ITT* q = dynamic_cast<ITT*>(o); if (!q) return false; t_field = q->field; /* may release the old field's block */ it = q->it; p = 0; end = q->end; field = q->field; return true; }
  ~ITT() { t_field = field; }
};
// the interpolator does not compile for single precision vectors with the installed Imath
template <class T> struct Lin { static T at(SparseField<T>& f, V3d p, V3i) { LinearSparseFieldInterp<T> I; return I.sample(f, p); } };
template <> struct Lin<V3f> { static V3f at(SparseField<V3f>& f, V3d, V3i p) { return f.fastValue(p.x, p.y, p.z); } };
template <> struct Lin<V3h> { static V3h at(SparseField<V3h>& f, V3d, V3i p) { return f.fastValue(p.x, p.y, p.z); } };
template <class T> struct FT : FB {
  typename SparseField<T>::Ptr f;
  int ty() { return TyOf<T>::v; }
  ~FT() { t_field = id; f = 0; }
  void rd(long n, int k) { t_field = id; V3i p = vox(n); T v;
    if (k == 0) v = f->fastValue(p.x, p.y, p.z); else if (k == 1) { const Field<T>& b = *f; v = b.value(p.x, p.y, p.z); }
    else { typename SparseField<T>::const_iterator i = f->cbegin(Box3i(p, p)); v = *i; }
    rec(9, {id, n, asInt(v), 0}); }
  void lin(long n) { t_field = id; V3i p = vox(n); rec(9, {id, n, asInt(Lin<T>::at(*f, V3d(p.x + .5, p.y + .5, p.z + .5), p)), 0}); }
  void walk(long a, long b) { t_field = id; V3i p = vox(a), q = vox(b); Box3i bx(V3i(std::min(p.x, q.x), std::min(p.y, q.y), std::min(p.z, q.z)), V3i(std::max(p.x, q.x), std::max(p.y, q.y), std::max(p.z, q.z)));
    typename SparseField<T>::const_iterator i = f->cbegin(bx), e = f->cend(bx); int guard = 0;
    for (; i != e; ++i) { rec(9, {id, num(i.x, i.y, i.z), asInt(*i), 1}); if (++guard > 1000) { rec(9, {id, 1, 77777, 0}); break; } } }
  It* hold(long n) { t_field = id; V3i p = vox(n); ITT<T>* t = new ITT<T>(id, f->cbegin(Box3i(p, g_dw.max))); t->touch(); return t; }
  long pin(long n) { t_field = id; long b = blockOf(n, order); V3i r = bres(order); V3i bc(b % r.x, (b / r.x) % r.y, b / (r.x * r.y));
    if (!f->blockIsAllocated(bc.x, bc.y, bc.z)) return -1;
    f->incBlockRef(b); f->activateBlock(b); peek(n, bc); return b; }
  void peek(long n, V3i bc) { V3i p = vox(n) - g_min; int s = 1 << order; const T* d = f->blockData(bc.x, bc.y, bc.z); if (!d) { rec(9, {id, n, 66666, 1}); return; }
    V3i q(p.x % s, p.y % s, p.z % s); rec(9, {id, n, asInt(d[q.x + s * (q.y + s * q.z)]), 1}); }
  void unpin(long n) { t_field = id; long b = blockOf(n, order); V3i r = bres(order); V3i bc(b % r.x, (b / r.x) % r.y, b / (r.x * r.y)); peek(n, bc); f->decBlockRef(b); }
  FB* clone(int kind) { FT* t = new FT; t->order = order; t->dyn = dyn;
    if (kind == 0) t->f = new SparseField<T>(*f); else if (kind == 1) t->f = field_dynamic_cast<SparseField<T> >(f->clone()); else { t->f = new SparseField<T>; *t->f = *f; }
    return t; }
  bool assign(FB* o) { FT* q = dynamic_cast<FT*>(o); if (!q) return false; t_field = id; *f = *q->f; order = q->order; dyn = q->dyn; shape(sizeof(T)); return true; }
  bool copyFrom(FB* o) { FT* q = dynamic_cast<FT*>(o); if (!q) return false; t_field = id;
    // the source may be in the cache for the first time: take one element before, so that its events carry its name
    if (q->dyn) { t_field = q->id; typename SparseField<T>::const_iterator i = q->f->cbegin(), e = q->f->cend(); for (; i != e; ++i) (void)*i; t_field = id; }
    f->setBlockOrder(order); t_field = q->id; typename Field<T>::Ptr src = q->f; f->copyFrom(src); dyn = false; return true; }
  void clear(long v) { t_field = id; f->clear(Emb<T>::to(v)); dyn = false; }
  void resize() { t_field = id; f->setSize(f->extents(), f->dataWindow()); dyn = false; }
  void setOrder(int o) { t_field = id; f->setBlockOrder(o); order = o; dyn = false; shape(sizeof(T)); }
  void write(long n, long v) { V3i p = vox(n); f->lvalue(p.x, p.y, p.z) = Emb<T>::to(v); }
  void checkShape() { if (!(f->dataWindow() == g_dw) || f->blockOrder() != order) rec(9, {id, 1, 55555, 0}); }
};
template <class T> struct IO;
template <class S> struct IOS { static bool wr(Field3DOutputFile& o, typename SparseField<S>::Ptr f) { return o.writeScalarLayer<S>("part", "L", f); }
  static typename SparseField<S>::Ptr rdf(Field3DInputFile& i) { typename Field<S>::Vec v = i.readScalarLayers<S>("part", "L"); return v.size() == 1 ? field_dynamic_cast<SparseField<S> >(v[0]) : typename SparseField<S>::Ptr(); } };
template <class S> struct IOV { typedef FIELD3D_VEC3_T<S> V; static bool wr(Field3DOutputFile& o, typename SparseField<V>::Ptr f) { return o.writeVectorLayer<S>("part", "L", f); }
  static typename SparseField<V>::Ptr rdf(Field3DInputFile& i) { typename Field<V>::Vec v = i.readVectorLayers<S>("part", "L"); return v.size() == 1 ? field_dynamic_cast<SparseField<V> >(v[0]) : typename SparseField<V>::Ptr(); } };
template <> struct IO<float> : IOS<float> {}; template <> struct IO<half> : IOS<half> {}; template <> struct IO<double> : IOS<double> {};
template <> struct IO<V3f> : IOV<float> {}; template <> struct IO<V3h> : IOV<half> {}; template <> struct IO<V3d> : IOV<double> {};
struct FileDef { int fmt, order, ty; std::string path; };
static std::vector<FileDef> g_files;   // 1-based
template <class T> void writeFile(int i) {
  FileDef& d = g_files[i];
  typename SparseField<T>::Ptr f = new SparseField<T>; f->setBlockOrder(d.order); f->setSize(Box3i(g_min - V3i(1), g_dw.max + V3i(2)), g_dw); f->clear(Emb<T>::to(0)); f->name = "part"; f->attribute = "L";
  V3i b = bres(d.order); long n = 0;
  for (int z = 0; z < b.z; ++z) for (int y = 0; y < b.y; ++y) for (int x = 0; x < b.x; ++x, ++n) if (!isAlloc(i, n)) f->setBlockEmptyValue(x, y, z, Emb<T>::to(-((n + i) % 3) - 1));
  for (long v = 1; v <= (long)g_res.x * g_res.y * g_res.z; ++v) if (isAlloc(i, blockOf(v, d.order))) { V3i p = vox(v); f->lvalue(p.x, p.y, p.z) = Emb<T>::to(fileVal(i, d.order, v)); }
  Field3DOutputFile::useOgawa(d.fmt != 2);
  Field3DOutputFile o; if (!o.create(d.path)) throw std::logic_error("@ERROR create " + d.path);
  if (!IO<T>::wr(o, f)) throw std::logic_error("@ERROR write"); o.close();
}
// The field cache hands out the same object for the same path while it lives: each opening uses its own path
static int g_opens = 0, g_links = 0;
static std::string uniquePath(int i) { Quietly qq; int k = ++g_opens; while (g_links < k) { ++g_links; std::string l = "l" + std::to_string(g_links); unlink(l.c_str()); if (symlink(".", l.c_str())) throw std::logic_error("@ERROR symlink"); } return "l" + std::to_string(k) + "/" + g_files[i].path; }
template <class T> FB* openFile(int i) { Field3DInputFile in; if (!in.open(uniquePath(i))) return 0; FT<T>* t = new FT<T>; t->f = IO<T>::rdf(in); t->order = g_files[i].order; t->dyn = true; if (!t->f) { delete t; return 0; } return t; }
#define BY(ty, F, ...) (ty == 0 ? F<float>(__VA_ARGS__) : ty == 1 ? F<half>(__VA_ARGS__) : ty == 2 ? F<double>(__VA_ARGS__) : ty == 3 ? F<V3f>(__VA_ARGS__) : ty == 4 ? F<V3h>(__VA_ARGS__) : F<V3d>(__VA_ARGS__))
static size_t szOf(int ty) { static const size_t s[] = {4, 2, 8, 12, 6, 24}; return s[ty]; }
static std::map<long, FB*> g_fields;   // shared ones; private ones live in the thread's own map
struct Worker {
  const J* prog; long tid; bool single; std::map<long, FB*> mine; It* slot[4]; std::vector<std::pair<FB*, long> > pins; std::string err; int at;
  FB* F(long id) { auto m = mine.find(id); if (m != mine.end()) return m->second; return g_fields.find(id)->second; }
  void put(long p, FB* f) { f->id = p; static boost::mutex mx; FB* old = mine.count(p) ? mine[p] : 0; mine[p] = f; if (old) delete old; boost::mutex::scoped_lock l(mx); f->shape(szOf(f->ty())); }
  void setMax(long b, long old) { rec(15, {std::max(b, old)}); SparseFileManager::singleton().setMaxMemUse(float(b / 1048576.0)); rec(15, {b}); }
  static long g_budget;
  void run() {
    t_tid = tid; for (int i = 0; i < 4; ++i) slot[i] = 0; at = -1;
    try {
      for (size_t i = 0; i < prog->size(); ++i) { at = i; op((*prog)[i]); }
      at = -2;
      for (int i = 1; i < 4; ++i) if (slot[i]) { slot[i]->touch(); delete slot[i]; slot[i] = 0; }
      while (!pins.empty()) unpin();
      for (auto& m : mine) { if (m.second) { t_field = m.first; delete m.second; rec(14, {m.first}); } }
      mine.clear();
    } catch (std::logic_error& e) { err = e.what(); }
    catch (std::exception& e) { err = std::string("exception: ") + e.what(); }
  }
  void unpin() { auto p = pins.back(); pins.pop_back(); if (p.first) p.first->unpin(p.second); }
  void op(const J& o) {
    const std::string& k = o[0].str();
    #define A(i) (long)o[i].n()
    if (k == "rd") F(A(1))->rd(A(2), A(3));
    else if (k == "lin") F(A(1))->lin(A(2));
    else if (k == "walk") F(A(1))->walk(A(2), A(3));
    else if (k == "hold") slot[A(3)] = F(A(1))->hold(A(2));
    else if (k == "touch") slot[A(1)]->touch();
    else if (k == "step") { slot[A(1)]->step(); slot[A(1)]->touch(); }
    else if (k == "drop") { slot[A(1)]->touch(); delete slot[A(1)]; slot[A(1)] = 0; }
    else if (k == "cpy") { slot[A(2)] = slot[A(1)]->copy(); slot[A(2)]->touch(); slot[A(1)]->touch(); }
    else if (k == "asg") { if (A(1) != A(2)) { if (!slot[A(2)]->assign(slot[A(1)])) { delete slot[A(2)]; slot[A(2)] = slot[A(1)]->copy(); } } else slot[A(1)]->assign(slot[A(1)]); slot[A(2)]->touch(); slot[A(1)]->touch(); }
    else if (k == "pin") { FB* f = F(A(1)); long b = f->dyn ? f->pin(A(2)) : -1; pins.push_back(std::make_pair(b < 0 ? (FB*)0 : f, A(2))); }
    else if (k == "unpin") unpin();
    else if (k == "open") { long p = A(1); t_field = p; FB* f = BY(g_files[A(2)].ty, openFile, A(2)); if (!f) throw std::logic_error("opening a written file failed"); close(p); put(p, f); rec(10, {p, A(2)}); f->checkShape(); }
    else if (k == "close") { long p = A(1); close(p); }
    else if (k == "clone") { long p = A(1), g = A(2); t_field = g; FB* f = F(g)->clone(A(3)); if (mine.count(p)) { t_field = p; } put(p, f); t_field = p; rec(11, {p, g}); f->checkShape(); }
    else if (k == "assign") { long p = A(1), g = A(2); if (!F(p)->assign(F(g))) { FB* f = F(g)->clone(0); put(p, f); } rec(11, {p, g}); F(p)->checkShape(); }
    else if (k == "copyfrom") { long p = A(1), g = A(2); if (F(p)->copyFrom(F(g))) { rec(19, {p, g}); } else { F(p)->clear(3); rec(12, {p, 3, -1}); } }
    else if (k == "clear") { F(A(1))->clear(A(2)); rec(12, {A(1), A(2), -1}); }
    else if (k == "resize") { F(A(1))->resize(); rec(12, {A(1), 0, -1}); }
    else if (k == "order") { F(A(1))->setOrder(A(2)); rec(12, {A(1), 0, A(2)}); }
    else if (k == "write") { F(A(1))->write(A(2), A(3)); rec(13, {A(1), A(2), A(3)}); }
    else if (k == "setmax") { long old = g_budget; g_budget = A(1); setMax(A(1), std::max(old, A(1))); }
    else if (k == "stats") { if (single) stats(); }
    else if (k == "reset") { if (single) { SparseFileManager::singleton().resetCacheStatistics(); rec(18, {}); } }
    else if (k == "flush") { if (single) SparseFileManager::singleton().flushCache(); }
    else throw std::logic_error("@ERROR unknown op " + k);
  }
  void close(long p) { if (!mine.count(p) || !mine[p]) return; t_field = p; FB* f = mine[p]; mine.erase(p); delete f; rec(14, {p}); }
  static void stats() { SparseFileManager& m = SparseFileManager::singleton(); long a = m.totalLoads(), b = m.numLoadedBlocks(), c = m.totalLoadedBlocks();
    rec(17, {a, b, c, (long)std::lround(m.cacheFractionLoaded() * 10000.0), (long)std::lround(m.cacheLoadsPerBlock() * 10000.0), (long)std::lround(m.cacheEfficiency() * 10000.0)}); }
};
long Worker::g_budget = 0;
static FILE* g_out = 0; static FILE* g_hdr = 0; static long g_nhdr = 0; static long g_execs = 0, g_uniq = 0;
static void runScenario(const J& b) {
  const J& sc = b["sc"]; const J& progs = b["prog"];
  g_min = v3(sc["min"]); g_res = v3(sc["res"]); g_dw = boxOf(g_min, g_res);
  g_files.assign(1, FileDef());
  for (size_t i = 0; i < sc["files"].size(); ++i) { const J& f = sc["files"][i]; FileDef d; d.fmt = f["fmt"].n(); d.order = f["order"].n(); d.ty = f["ty"].n(); d.path = "cf" + std::to_string(g_nhdr) + "_" + std::to_string(i + 1) + ".f3d"; g_files.push_back(d); }
  for (size_t i = 1; i < g_files.size(); ++i) BY(g_files[i].ty, writeFile, i);
  if (g_hdr) { fprintf(g_hdr, "{\"res\":[%d,%d,%d],\"files\":[", g_res.x, g_res.y, g_res.z); for (size_t i = 1; i < g_files.size(); ++i) fprintf(g_hdr, "%s{\"order\":%d}", i > 1 ? "," : "", g_files[i].order); fprintf(g_hdr, "]}\n"); }
  ++g_nhdr;
  std::unordered_set<uint64_t> seen;
  bool single = progs.size() == 1;
  long seed0 = b["seed"].n(), ns = b["ns"].n();
  for (long s = 0; s < ns; ++s) {
    Recorder r; R = &r; std::map<long, Shape> shp; g_shape = &shp; g_fields.clear();
    g_ctx = "schedule " + std::to_string(s);
    SparseFileManager& m = SparseFileManager::singleton(); m.setLimitMemUse(true); long bud = sc["budget"].n(); m.setMaxMemUse(float(bud / 1048576.0)); Worker::g_budget = bud;
    r.on = true; t_tid = 0; g_opens = 0;
    R->ev.push_back(Ev{1, 0, g_nhdr, bud});
    for (size_t i = 0; i < sc["shared"].size(); ++i) { long fi = sc["shared"][i].n(); t_field = i + 1; FB* f = BY(g_files[fi].ty, openFile, fi); expectTrue(f != 0, "opening a written file"); f->id = i + 1; g_fields[i + 1] = f; f->shape(szOf(f->ty())); rec(10, {(long)i + 1, fi}); f->checkShape(); }
    std::vector<Worker> w(progs.size());
    for (size_t t = 0; t < w.size(); ++t) { w[t].prog = &progs[t]; w[t].tid = t + 1; w[t].single = single; for (int p = 1; p < 10; ++p) (*g_shape)[(t + 1) * 10 + p] = Shape(); }
    if (single) w[0].run();
    else {
      int pol = s == 0 ? 2 : s % 3 == 0 ? 1 : 0; static const int inv[] = {2, 4, 8, 20, 50};
      sched_begin(seed0 * 1000 + s, pol, pol == 1 ? 1 + s % 4 : inv[s % 5]);
      { std::vector<boost::thread*> th; for (size_t t = 0; t < w.size(); ++t) th.push_back(new boost::thread(boost::bind(&Worker::run, &w[t])));
        for (auto* t : th) { t->join(); delete t; } }
      sched_end();
    }
    t_tid = 0;
    R->ev.push_back(Ev{16, 0}); Worker::stats();
    for (auto& f : g_fields) { t_field = f.first; delete f.second; rec(14, {f.first}); } g_fields.clear();
    R->ev.push_back(Ev{16, 0}); Worker::stats();
    r.on = false; ++g_execs;
    for (auto& x : w) { if (x.err.compare(0, 6, "@ERROR") == 0) throw std::logic_error(x.err); if (!x.err.empty()) throw Mismatch(g_ctx + " thread " + std::to_string(x.tid) + " op " + std::to_string(x.at) + ": " + x.err); }
    if (sched_uaf()) throw Mismatch(g_ctx + " " + sched_uaf());
    uint64_t h = 1469598103934665603ULL; for (auto& e : r.ev) for (long v : e) h = (h ^ (uint64_t)v) * 1099511628211ULL;
    ++g_cmp;
    if (!seen.insert(h).second) continue;
    ++g_uniq;
    if (g_out) for (auto& e : r.ev) { fputc('[', g_out); for (size_t i = 0; i < e.size(); ++i) fprintf(g_out, i ? ",%ld" : "%ld", e[i]); fputs("]\n", g_out); }
  }
}
int main(int c, char** v) {
  initIO(); R = new Recorder; g_shape = new std::map<long, Shape>;
  const char* out = getenv("VERIF_OUT");
  if (out && *out) { g_out = fopen(out, "w"); g_hdr = fopen((std::string(out) + ".hdr").c_str(), "w"); }
  int rc = replayMain(c, v, runScenario);
  printf("@STAT execs %ld unique %ld\n", g_execs, g_uniq);
  if (g_out) { fclose(g_out); fclose(g_hdr); }
  fflush(stdout); _exit(rc);
}
