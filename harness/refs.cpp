// Runs spec/RefGen programs on shared references and on the cache of fields; records what happened for spec/RefTrace.tla.
#include "f3d_common.h"
#include "vsched.h"
#include "FieldCache.h"
#include <boost/thread/thread.hpp>
#include <unordered_set>
#include <malloc.h>
#ifndef WITH_SCHED
extern "C" { void sched_begin(uint64_t, int, int) {} void sched_end() {} void sched_pause(int) {} const char* sched_uaf() { return 0; } uint64_t sched_hash() { return 0; } }
#endif
typedef std::vector<long> Ev;
static std::vector<Ev>* g_ev; static bool g_on = false;
// addresses of the objects that exist; updated with the scheduler paused
static const int MAXO = 512;
static void* g_addr[MAXO]; static int g_n = 0;   // object n+1 lives at g_addr[n], 0 = deleted
static void rec(std::initializer_list<long> e) { Quietly q; if (g_on) g_ev->push_back(Ev(e)); }
static long idOf(void* p) { for (int i = 0; i < g_n; ++i) if (g_addr[i] == p) return i + 1; return 0; }
static long addObject(void* p) { if (g_n >= MAXO) throw std::logic_error("@ERROR too many objects"); g_addr[g_n++] = p; return g_n; }
static void gone(void* p) { if (!g_on) return; Quietly q; long o = idOf(p); if (o) { g_addr[o - 1] = 0; g_ev->push_back(Ev{4, o}); } }
struct Probe : DenseField<float> { long id; Probe() : id(0) {} ~Probe() { if (id) { Quietly q; g_addr[id - 1] = 0; if (g_on) g_ev->push_back(Ev{4, id}); } } };
void operator delete(void* p) noexcept { if (p && g_on && g_n) gone(p); free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
typedef RefBase::Ptr P;
struct Slot { P p; };
static std::vector<RefBase::WeakPtr> g_weak;   // by object
static void* most(RefBase* r) { return dynamic_cast<void*>(r); }
static int g_fmt; static long g_ver[2];
// keys 0..11: file, layer, type; the layers of a file have types that depend on its version
static int kFile(int k) { return k % 2; } static int kLayer(int k) { return k / 2 % 3; } static int kType(int k) { return k / 6; }
static const char* PART[] = {"p", "p", "q"}; static const char* LAY[] = {"l", "m", "l"};
static int typeIn(int layer, long ver) { return (layer + ver) % 2; }
static std::string path(int f) { return f ? "rf.f3d" : "rf"; }
static long code(int f, int l, int ty, long ver) { return 1 + f + 2 * l + 6 * ty + 12 * (ver % 40); }
template <class T> void putLayer(Field3DOutputFile& o, int f, int l, int ty, long ver) {
  typename Field<T>::Ptr fld; Box3i w(V3i(0), V3i(1)); if ((l + f) % 2) { typename SparseField<T>::Ptr s(new SparseField<T>); s->setSize(w, w); s->clear(T(float(code(f, l, ty, ver)))); fld = s; } else { typename DenseField<T>::Ptr d(new DenseField<T>); d->setSize(w, w); d->clear(T(float(code(f, l, ty, ver)))); fld = d; }
  if (l == 1) { typename SparseField<T>::Ptr s = field_dynamic_cast<SparseField<T> >(fld); if (s) s->lvalue(0, 0, 0) = T(float(code(f, l, ty, ver))); }
  if (!o.writeScalarLayer<T>(PART[l], LAY[l], fld)) throw std::logic_error("@ERROR writing failed"); }
static void writeFile(int f) { long v = ++g_ver[f]; Field3DOutputFile::useOgawa(g_fmt == 0); Field3DOutputFile o; if (!o.create(path(f), Field3DOutputFile::OverwriteMode)) throw std::logic_error("@ERROR create"); for (int l = 0; l < 3; ++l) { int ty = typeIn(l, v); if (ty) putLayer<half>(o, f, l, ty, v); else putLayer<float>(o, f, l, ty, v); } rec({10, f, v}); }
struct Worker {
  long tid; bool single; const J* prog; P slot[4]; std::string err; int at;
  static P box[3]; static boost::mutex* boxMutex;
  void drop(int i) { rec({3, tid, i}); slot[i] = P(); rec({12, tid, i}); }
  void holds(int i) { Quietly q; rec({2, tid, i, slot[i] ? id(slot[i].get()) : 0}); }
  long id(RefBase* r) { for (int i = 0; i < g_n; ++i) if (g_addr[i] == most(r)) return i + 1; return -1; }
  void touch(int i) { if (slot[i]) { slot[i]->refcnt(); slot[i]->checkRTTI("?"); } }
  template <class T> void read(int k, int i) {
    std::string nm = path(kFile(k)); int l = kLayer(k); drop(i); typename Field<T>::Vec v;
    rec({5, tid, k});
    { Field3DInputFile in; if (!in.open(nm)) { rec({6, tid, k, i, -1, 0, 0, 0}); return; } v = in.readScalarLayers<T>(PART[l], LAY[l]); }
    if (v.size() > 1) throw Mismatch(g_ctx + " more than one layer");
    { Quietly q;
      if (v.empty()) rec({6, tid, k, i, 0, 0, 0, 0});
      else { typename Field<T>::Ptr f = v[0]; long c = std::lround((double)f->value(0, 0, 0)) - 1, key = c < 0 ? -1 : c % 12, ver = c / 12; if (key >= 0 && (f->name != PART[kLayer(key)] || f->attribute != LAY[kLayer(key)])) key = -2;
        long o = id(f.get()); if (o < 0) { o = addObject(most(f.get())); g_weak.push_back(f->weakPtr()); rec({7, o, f->memSize(), kType(k)}); }
        rec({6, tid, k, i, o, key, ver, 0}); slot[i] = f; } }
    v.clear(); touch(i);
  }
  void op(const J& o) {
    int k = o["op"].n(), i = o["i"].n(), j = o["j"].n(), m = o["m"].n(), key = o["key"].n() - 1;
    switch (k) {
    case 1: rec({3, tid, j}); slot[j] = slot[i]; holds(j); touch(j); break;
    case 2: drop(i); break;
    case 3: { boost::mutex::scoped_lock l(*boxMutex); rec({3, 0, m}); box[m] = slot[i]; { Quietly q; rec({2, 0, m, box[m] ? id(box[m].get()) : 0}); } break; }
    case 4: { boost::mutex::scoped_lock l(*boxMutex); rec({3, tid, i}); slot[i] = box[m]; holds(i); touch(i); break; }
    case 5: { Quietly q; long x = o["x"].n(); if (x <= (long)g_weak.size()) rec({8, x, g_weak[x - 1].expired()}); break; }
    case 6: { rec({3, tid, j}); bool h = (i + j) % 2; if (h) slot[j] = field_dynamic_cast<Field<half> >(slot[i]); else slot[j] = field_dynamic_cast<DenseField<float> >(slot[i]); holds(j); touch(j); break; }
    case 7: if (kType(key)) read<half>(key, i); else read<float>(key, i); break;
    case 8: { long long a = FieldCache<float>::singleton().memSize(), b = FieldCache<half>::singleton().memSize(); if (single) rec({11, (long)a, (long)b}); break; }
    case 9: writeFile(m - 1); break;
    case 10: { rec({3, tid, i}); rec({3, tid, j}); slot[i].swap(slot[j]); holds(i); holds(j); break; }
    default: throw std::logic_error("@ERROR op");
    }
    if (single) rec({9});
  }
  void run() {
    at = 0;
    try { for (at = 0; at < (int)prog->size(); ++at) op((*prog)[at]); for (int i = 1; i < 4; ++i) drop(i); }
    catch (std::logic_error& e) { err = e.what(); } catch (std::exception& e) { err = e.what(); } }
};
P Worker::box[3]; boost::mutex* Worker::boxMutex = new boost::mutex;
static FILE* g_out = 0; static long g_execs = 0, g_uniq = 0;
static void runScenario(const J& b) {
  long ns = b["ns"].n(), seed = b["seed"].n(); int th = b["th"].n(); g_fmt = b["fmt"].n(); if (th > 1) g_fmt = 0; bool rd = b["read"].b(); std::unordered_set<uint64_t> seen;
  g_ver[0] = g_ver[1] = 0; setNumIOThreads(1);
  if (rd) { g_on = false; writeFile(0); writeFile(1); writeFile(1); }
  for (long s = 0; s < ns; ++s) {
    g_ctx = "schedule " + std::to_string(s) + ":"; std::vector<Ev> ev; g_ev = &ev; g_n = 0; g_weak.clear(); g_weak.reserve(MAXO); g_on = true;
    rec({1, th}); rec({10, 0, g_ver[0]}); rec({10, 1, g_ver[1]});
    std::vector<Worker> w(th); for (int t = 0; t < th; ++t) { w[t].tid = t + 1; w[t].single = th == 1; w[t].prog = &b["prog"][t]; }
    for (int x = 1; x <= 2; ++x) { Probe* p = new Probe; p->setSize(V3i(2, 2, 2)); P q(p); p->id = x; addObject(most(p)); g_weak.push_back(q->weakPtr()); rec({7, x, 0, -1}); for (int t = 0; t < th; ++t) for (int i = 1; i < 4; ++i) if (b["init"][t][i - 1].n() == x) { w[t].slot[i] = q; rec({2, t + 1, i, x}); } }
    if (th == 1) w[0].run();
    else {
      int pol = s == 0 ? 2 : s % 5 == 1 ? 1 : s % 5 == 2 ? 3 : 0; static const int inv[] = {2, 3, 4, 8, 20}, hot[] = {1, 2, 3, 6, 12};
      sched_begin(seed * 1000 + s, pol, pol == 1 ? 1 + s % 4 : pol == 3 ? hot[s / 5 % 5] : inv[s / 5 % 5]);
      { std::vector<boost::thread*> v; for (int t = 0; t < th; ++t) v.push_back(new boost::thread(boost::bind(&Worker::run, &w[t]))); for (auto* t : v) { t->join(); delete t; } }
      for (int m = 1; m < 3; ++m) { rec({3, 0, m}); Worker::box[m] = P(); }
      sched_end();
    }
    for (int m = 1; m < 3; ++m) { rec({3, 0, m}); Worker::box[m] = P(); }
    rec({9}); g_on = false; ++g_execs;
    for (auto& x : w) { if (x.err.compare(0, 6, "@ERROR") == 0) throw std::logic_error(x.err); if (!x.err.empty()) throw Mismatch(g_ctx + " thread " + std::to_string(x.tid) + " op " + std::to_string(x.at) + ": " + x.err); }
    if (sched_uaf()) throw Mismatch(g_ctx + " " + sched_uaf());
    uint64_t h = 1469598103934665603ULL; for (auto& e : ev) for (long v : e) h = (h ^ (uint64_t)v) * 1099511628211ULL;
    ++g_cmp; g_weak.clear(); g_ev = 0;
    if (!seen.insert(h).second) continue;
    ++g_uniq;
    if (g_out) for (auto& e : ev) { fputc('[', g_out); for (size_t i = 0; i < e.size(); ++i) fprintf(g_out, i ? ",%ld" : "%ld", e[i]); fputs("]\n", g_out); }
  }
}
int main(int c, char** v) {
  initIO(); Msg::setVerbosity(0); const char* out = getenv("VERIF_OUT"); if (out && *out) g_out = fopen(out, "w");
  int rc = replayMain(c, v, runScenario); printf("@STAT execs %ld unique %ld\n", g_execs, g_uniq); if (g_out) fclose(g_out); fflush(stdout); _exit(rc);
}
