// Runs spec/WriterGen scenarios: writes (and reads back) sparse fields with several threads under the controlled scheduler.
#include "f3d_common.h"
#include "vsched.h"
#include <memory>
#include <unordered_set>
#define BYTYPE(vec, prec, ...) { if (!(vec)) { if (prec == 1) { typedef half S; typedef S T; __VA_ARGS__; } else if (prec == 2) { typedef float S; typedef S T; __VA_ARGS__; } else { typedef double S; typedef S T; __VA_ARGS__; } } else { if (prec == 1) { typedef half S; typedef V3h T; __VA_ARGS__; } else if (prec == 2) { typedef float S; typedef V3f T; __VA_ARGS__; } else { typedef double S; typedef V3d T; __VA_ARGS__; } } }
template <class T> struct Vx { static T to(int c) { return T(float(c)); } };
template <class S> struct Vx<FIELD3D_VEC3_T<S> > { static FIELD3D_VEC3_T<S> to(int c) { return FIELD3D_VEC3_T<S>(S(float(c)), S(float(c + 1)), S(float(-c))); } };
template <class S, class T> struct Io;
template <class S> struct Io<S, S> { static bool write(Field3DOutputFile& o, typename Field<S>::Ptr f) { return o.writeScalarLayer<S>("p", "l", f); } static typename Field<S>::Vec read(Field3DInputFile& i) { return i.readScalarLayers<S>("p", "l"); } };
template <class S> struct Io<S, FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T; static bool write(Field3DOutputFile& o, typename Field<T>::Ptr f) { return o.writeVectorLayer<S>("p", "l", f); } static typename Field<T>::Vec read(Field3DInputFile& i) { return i.readVectorLayers<S>("p", "l"); } };
static Box3i winOf(const J& s) { int o = s["order"].n(); V3i m(-1, 2, 0), r(s["grid"][0].n(), s["grid"][1].n(), s["grid"][2].n()); return Box3i(m, m + r * (1 << o) - V3i(1)); }
static int blockOf(const J& s, int i, int j, int k) { Box3i w = winOf(s); int o = s["order"].n(); int gx = s["grid"][0].n(), gy = s["grid"][1].n(); return ((i - w.min.x) >> o) + gx * (((j - w.min.y) >> o) + gy * ((k - w.min.z) >> o)); }
static int vox(int i, int j, int k) { return 1 + ((i * 7 + j * 31 + k * 113) % 997 + 997) % 997; }
template <class T> T want(const J& s, int i, int j, int k) { int b = blockOf(s, i, j, k); return s["alloc"][b].b() ? Vx<T>::to(vox(i, j, k) + (b % 13) * 64) : Vx<T>::to(-5 - b); }
template <class T> typename SparseField<T>::Ptr make(const J& s) {
  typename SparseField<T>::Ptr f(new SparseField<T>); Box3i w = winOf(s); f->setBlockOrder(s["order"].n()); f->setSize(w, w); f->clear(Vx<T>::to(0));
  int gx = s["grid"][0].n(), gy = s["grid"][1].n(), gz = s["grid"][2].n(); for (int k = 0; k < gz; ++k) for (int j = 0; j < gy; ++j) for (int i = 0; i < gx; ++i) { int b = i + gx * (j + gy * k); if (!s["alloc"][b].b()) f->setBlockEmptyValue(i, j, k, Vx<T>::to(-5 - b)); }
  for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) if (s["alloc"][blockOf(s, i, j, k)].b()) f->lvalue(i, j, k) = want<T>(s, i, j, k); return f; }
template <class T> void same(typename SparseField<T>::Ptr f, const J& s) {
  expectTrue(!!f, "the layer cannot be read as a sparse field"); Box3i w = winOf(s); expectTrue(f->dataWindow() == w, "data window");
  int gx = s["grid"][0].n(), gy = s["grid"][1].n(), gz = s["grid"][2].n(); for (int k = 0; k < gz; ++k) for (int j = 0; j < gy; ++j) for (int i = 0; i < gx; ++i) { int b = i + gx * (j + gy * k); ++g_cmp; if (f->blockIsAllocated(i, j, k) != s["alloc"][b].b()) throw Mismatch(g_ctx + " block " + std::to_string(b) + " allocation differs"); }
  for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) { ++g_cmp; if (f->value(i, j, k) != want<T>(s, i, j, k)) throw Mismatch(g_ctx + " block " + std::to_string(blockOf(s, i, j, k)) + " does not hold its own data"); } }
template <class S, class T> typename SparseField<T>::Ptr load(const std::string& p) { Field3DInputFile in; expectTrue(in.open(p), "the file cannot be opened"); typename Field<T>::Vec v = Io<S, T>::read(in); expectEq(v.size(), (size_t)1, "number of layers"); return field_dynamic_cast<SparseField<T> >(v[0]); }
static void spawn(long seed, long s) { int pol = s == 0 ? 2 : s % 5 == 1 ? 1 : s % 5 == 2 ? 0 : 3; static const int inv[] = {2, 4, 8, 20, 50}, hot[] = {1, 3, 6, 12, 24}; sched_begin(seed * 1000 + s, pol, pol == 1 ? 1 + s % 4 : pol == 3 ? hot[s / 5 % 5] : inv[s / 5 % 5]); }
static std::string g_mode; static long g_uniq;
template <class S, class T> void run(const J& s) {
  SparseFileManager& m = SparseFileManager::singleton(); std::string src = "s.f3d", p = "o.f3d"; bool reading = g_mode == "read", managed = s["managed"].b() && !reading; std::unordered_set<uint64_t> seen; long ns = s["ns"].n(), seed = s["seed"].n();
  typename SparseField<T>::Ptr f = make<T>(s); m.setLimitMemUse(false); setNumIOThreads(1); Field3DOutputFile::useOgawa(true);
  { Field3DOutputFile o; expectTrue(o.create(src, Field3DOutputFile::OverwriteMode) && Io<S, T>::write(o, f), "writing with one thread"); }
  g_ctx = "one thread:"; same<T>(load<S, T>(src), s);
  for (long n = 0; n < ns; ++n) {
    g_ctx = std::to_string((long)s["th"].n()) + " threads, schedule " + std::to_string(n) + ":";
    if (!reading) {
      if (managed) { m.setLimitMemUse(true); int b = s["budget"].n(); m.setMaxMemUse(b == 0 ? 0.0f : b == 1 ? 0.0005f : 1.0f); f = load<S, T>(src); }
      { Field3DOutputFile o; setNumIOThreads(s["th"].n()); expectTrue(o.create(p, Field3DOutputFile::OverwriteMode), "create"); bool ok;
        spawn(seed, n); ok = Io<S, T>::write(o, f); sched_end(); seen.insert(sched_hash()); setNumIOThreads(1); expectTrue(ok, "writing failed"); }
      if (managed) f = typename SparseField<T>::Ptr(); m.setLimitMemUse(false); same<T>(load<S, T>(p), s); }
    else { setNumIOThreads(s["th"].n()); Field3DInputFile in; expectTrue(in.open(src), "open"); typename Field<T>::Vec v; spawn(seed, n); v = Io<S, T>::read(in); sched_end(); seen.insert(sched_hash()); setNumIOThreads(1); expectEq(v.size(), (size_t)1, "number of layers"); same<T>(field_dynamic_cast<SparseField<T> >(v[0]), s); }
    if (sched_uaf()) throw Mismatch(g_ctx + " " + sched_uaf());
  }
  g_uniq += seen.size(); unlink(src.c_str()); unlink(p.c_str()); }
int main(int c, char** v) {
  initIO(); Msg::setVerbosity(0); g_mode = c > 2 ? v[2] : "write";
  int r = replayMain(c, v, [](const J& s) { BYTYPE(s["vec"].b(), s["prec"].n(), run<S, T>(s)) });
  fprintf(stderr, "unique schedules %ld\n", g_uniq); fflush(stdout); _exit(r);
}
