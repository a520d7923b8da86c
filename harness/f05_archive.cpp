// Replays spec/ArchiveGen plans: every file operation of the writer is recorded, and the file as it was after any of them (and the finished file cut anywhere) is read back.
#include "f3d_common.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <set>
#include <mutex>
#include <memory>
#include "IArchive.h"
#include "InitIO.h"
extern "C" void __asan_set_death_callback(void (*)(void));
// ---- recording what the writer does to the file ---------------------------------------------------
struct Op { long at; std::string data; long trunc; };
static std::vector<Op> g_ops; static std::string g_target; static bool g_rec = false; static std::mutex g_m; static long g_failAt = -1; static bool g_stick = false; static long g_seen = 0;
static bool ours(int fd) { if (!g_rec) return false; char l[64], p[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = syscall(SYS_readlink, l, p, sizeof p - 1); if (n <= 0) return false; p[n] = 0; std::string s(p); return s.size() >= g_target.size() && s.compare(s.size() - g_target.size(), g_target.size(), g_target) == 0; }
static bool failing() { std::lock_guard<std::mutex> l(g_m); ++g_seen; if (g_failAt >= 0 && (g_seen - 1 == g_failAt || (g_stick && g_seen - 1 > g_failAt))) return true; return false; }
static void note(long at, const void* b, size_t n) { std::lock_guard<std::mutex> l(g_m); Op o; o.at = at; o.data.assign((const char*)b, n); o.trunc = -1; g_ops.push_back(o); }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (ours(fd)) { if (failing()) { errno = ENOSPC; return -1; } long at = syscall(SYS_lseek, fd, 0, SEEK_CUR); ssize_t r = syscall(SYS_write, fd, b, n); if (r > 0) note(at, b, r); return r; } return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { if (ours(fd)) { if (failing()) { errno = ENOSPC; return -1; } long at = syscall(SYS_lseek, fd, 0, SEEK_CUR); ssize_t r = syscall(SYS_writev, fd, v, c); if (r > 0) { std::string s; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); note(at, s.data(), r); } return r; } return syscall(SYS_writev, fd, v, c); }
static ssize_t pw(int fd, const void* b, size_t n, off_t at) { if (ours(fd)) { if (failing()) { errno = ENOSPC; return -1; } ssize_t r = syscall(SYS_pwrite64, fd, b, n, at); if (r > 0) note(at, b, r); return r; } return syscall(SYS_pwrite64, fd, b, n, at); }
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t at) { return pw(fd, b, n, at); }
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off_t at) { return pw(fd, b, n, at); }
static int ft(int fd, off_t n) { int r = syscall(SYS_ftruncate, fd, n); if (!r && ours(fd)) { std::lock_guard<std::mutex> l(g_m); Op o; o.at = 0; o.trunc = n; g_ops.push_back(o); } return r; }
extern "C" int ftruncate(int fd, off_t n) { return ft(fd, n); }
extern "C" int ftruncate64(int fd, off_t n) { return ft(fd, n); }
static void apply(std::string& im, const Op& o, size_t bytes) { if (o.trunc >= 0) { im.resize(o.trunc); return; } size_t n = std::min(bytes, o.data.size()); if (im.size() < o.at + n) im.resize(o.at + n); im.replace(o.at, n, o.data, 0, n); }
// ---- contents ---------------------------------------------------------------------------------------
static M44d mtx(int s) { M44d m; m.setScale(V3d(2 + s, 3, 4.5)); M44d t; t.setTranslation(V3d(s, -7, 1e3)); return m * t; }
static FieldMapping::Ptr mapping(int k) { if (k == 0) return FieldMapping::Ptr(new NullFieldMapping); if (k < 3) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(mtx(k)); return m; } return FieldMapping::Ptr(new FrustumFieldMapping); }
static Box3i winOf(const J& x) { int c = x["cid"].n(), s = x["size"].n(); V3i m(c % 5, -(c % 3), c % 2); V3i d = s == 1 ? V3i(0) : s == 2 ? V3i(2, 1, 3) : s == 3 ? V3i(8, 6, 5) : V3i(16, 0, 1); return Box3i(m, m + d); }
static Box3i extOf(const J& x) { Box3i w = winOf(x); if (x["str"].n() == 4) return w; w.max += V3i(int(x["cid"].n()) % 3); w.min -= V3i(int(x["cid"].n()) % 2); return w; }
template <class T> struct Vx { static T to(int c) { return T(float(c)); } };
template <class S> struct Vx<FIELD3D_VEC3_T<S> > { static FIELD3D_VEC3_T<S> to(int c) { return FIELD3D_VEC3_T<S>(S(float(c)), S(float(c + 1)), S(float(-c))); } };
static int vox(int cid, int lev, int i, int j, int k) { return 1 + ((cid * 311 + lev * 57 + i * 13 + j * 29 + k * 101) % 1999 + 1999) % 1999; }
static int emptyOf(int cid) { return 2000 + cid; }
#define BYTYPE(vec, prec, ...) { if (!(vec)) { if (prec == 1) { typedef half S; typedef S T; __VA_ARGS__; } else if (prec == 2) { typedef float S; typedef S T; __VA_ARGS__; } else { typedef double S; typedef S T; __VA_ARGS__; } } else { if (prec == 1) { typedef half S; typedef V3h T; __VA_ARGS__; } else if (prec == 2) { typedef float S; typedef V3f T; __VA_ARGS__; } else { typedef double S; typedef V3d T; __VA_ARGS__; } } }
template <class S, class T> struct Io;
template <class S> struct Io<S, S> {
  static bool write(Field3DOutputFile& o, const std::string& p, const std::string& l, typename Field<S>::Ptr f) { return o.writeScalarLayer<S>(p, l, f); }
  static typename Field<S>::Vec read(Field3DInputFile& i, const std::string& p, const std::string& l) { return i.readScalarLayers<S>(p, l); }
  static typename Field<S>::Vec all(Field3DInputFile& i) { return i.readScalarLayers<S>(); } };
template <class S> struct Io<S, FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T;
  static bool write(Field3DOutputFile& o, const std::string& p, const std::string& l, typename Field<T>::Ptr f) { return o.writeVectorLayer<S>(p, l, f); }
  static typename Field<T>::Vec read(Field3DInputFile& i, const std::string& p, const std::string& l) { return i.readVectorLayers<S>(p, l); }
  static typename Field<T>::Vec all(Field3DInputFile& i) { return i.readVectorLayers<S>(); } };
template <class T> struct Mac { static FieldRes::Ptr make(const J&) { return FieldRes::Ptr(); } static bool same(FieldRes::Ptr, const J&) { return false; } };
template <class S> struct Mac<FIELD3D_VEC3_T<S> > { typedef MACField<FIELD3D_VEC3_T<S> > M;
  static int at(const J& x, int c, int i, int j, int k) { return vox(x["cid"].n(), c, i, j, k); }
  static FieldRes::Ptr make(const J& x) { typename M::Ptr m(new M); m->setSize(extOf(x), winOf(x)); each(*m, x, [&](S& v, int q) { v = S(float(q)); return true; }); return m; }
  template <class F> static bool each(M& m, const J& x, F f) { Box3i w = winOf(x); for (int c = 0; c < 3; ++c) for (int k = w.min.z; k <= w.max.z + (c == 2); ++k) for (int j = w.min.y; j <= w.max.y + (c == 1); ++j) for (int i = w.min.x; i <= w.max.x + (c == 0); ++i) { S& v = c == 0 ? m.u(i, j, k) : c == 1 ? m.v(i, j, k) : m.w(i, j, k); if (!f(v, at(x, c, i, j, k))) return false; } return true; }
  static bool same(FieldRes::Ptr f, const J& x) { typename M::Ptr m = field_dynamic_cast<M>(f); return m && each(*m, x, [](S& v, int q) { return float(v) == float(q); }); } };
static bool allocated(const J& x, int n) { int a = x["alloc"].n(), c = x["cid"].n(); return a == 0 ? false : a == 1 ? true : ((c * 7 + n * a * 5) % 3) != 0; }
// calls f(voxel, value of the model) for every voxel of a level
template <class T, class F> bool eachDense(const Box3i& w, const J& x, int lev, F f) { for (int k = w.min.z; k <= w.max.z; ++k) for (int j = w.min.y; j <= w.max.y; ++j) for (int i = w.min.x; i <= w.max.x; ++i) if (!f(i, j, k, Vx<T>::to(vox(x["cid"].n(), lev, i, j, k)))) return false; return true; }
template <class T> T sparseAt(const J& x, int i, int j, int k) { Box3i w = winOf(x); int o = x["order"].n(); V3i b((i - w.min.x) >> o, (j - w.min.y) >> o, (k - w.min.z) >> o), r = w.size() + V3i(1); V3i n((r.x + (1 << o) - 1) >> o, (r.y + (1 << o) - 1) >> o, 0); int id = b.x + n.x * (b.y + n.y * b.z); return allocated(x, id) ? Vx<T>::to(vox(x["cid"].n(), 0, i, j, k)) : Vx<T>::to(emptyOf(x["cid"].n())); }
static int levels(const J& x) { int s = x["size"].n(); return s == 1 ? 1 : 3; }
static Box3i half2(const Box3i& w) { V3i o(w.min.x >> 1, w.min.y >> 1, w.min.z >> 1); V3i r = w.size() + V3i(1); V3i h((r.x + 1) / 2, (r.y + 1) / 2, (r.z + 1) / 2); return Box3i(o, o + h - V3i(1)); }
template <class T> FieldRes::Ptr make(const J& x) {
  int str = x["str"].n(); Box3i w = winOf(x), e = extOf(x);
  if (str == 1) { typename DenseField<T>::Ptr f(new DenseField<T>); f->setSize(e, w); eachDense<T>(w, x, 0, [&](int i, int j, int k, const T& v) { f->lvalue(i, j, k) = v; return true; }); return f; }
  if (str == 2) { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(x["order"].n()); f->setSize(e, w); f->clear(Vx<T>::to(emptyOf(x["cid"].n()))); T none = Vx<T>::to(emptyOf(x["cid"].n())); eachDense<T>(w, x, 0, [&](int i, int j, int k, const T&) { T v = sparseAt<T>(x, i, j, k); if (v != none) f->lvalue(i, j, k) = v; return true; }); return f; }
  if (str == 3) return Mac<T>::make(x);
  typename MIPDenseField<T>::Ptr m(new MIPDenseField<T>); typename DenseField<T>::Vec v; Box3i b = w; for (int l = 0; l < levels(x); ++l) { typename DenseField<T>::Ptr f(new DenseField<T>); f->setSize(b, b); eachDense<T>(b, x, l, [&](int i, int j, int k, const T& q) { f->lvalue(i, j, k) = q; return true; }); v.push_back(f); b = half2(b); } m->setup(v); return m; }
template <class T> bool same(FieldRes::Ptr g, const J& x) {
  int str = x["str"].n(); Box3i w = winOf(x), e = extOf(x); if (g->dataWindow() != w || g->extents() != e) return false; std::string c = g->className();
  if (str == 1) { typename DenseField<T>::Ptr f = field_dynamic_cast<DenseField<T> >(g); return f && eachDense<T>(w, x, 0, [&](int i, int j, int k, const T& v) { return f->value(i, j, k) == v; }); }
  if (str == 2) { typename SparseField<T>::Ptr f = field_dynamic_cast<SparseField<T> >(g); return f && eachDense<T>(w, x, 0, [&](int i, int j, int k, const T&) { return f->value(i, j, k) == sparseAt<T>(x, i, j, k); }); }
  if (str == 3) return Mac<T>::same(g, x);
  typename MIPDenseField<T>::Ptr m = field_dynamic_cast<MIPDenseField<T> >(g); if (!m || (int)m->numLevels() != levels(x)) return false; Box3i b = w;
  for (int l = 0; l < levels(x); ++l) { if (!eachDense<T>(b, x, l, [&](int i, int j, int k, const T& v) { return m->mipValue(l, i, j, k) == v; })) return false; b = half2(b); } return true; }
static void decorate(FieldRes::Ptr f, const J& x) { FieldMetadata& m = f->metadata(); int n = x["meta"].n(); m.setIntMetadata("cid", x["cid"].n()); if (n > 0) m.setStrMetadata("str", "s" + std::to_string(int(x["cid"].n()))); if (n > 1) m.setVecFloatMetadata("vec", V3f(1, 2, x["cid"].n())); if (n > 2) m.setFloatMetadata("f", 0.5f * n); f->setMapping(mapping(x["map"].n())); }
static bool decorated(FieldRes::Ptr f, const J& x) { FieldMetadata& m = f->metadata(); int n = x["meta"].n(); FieldMapping::Ptr q = mapping(x["map"].n()); q->setExtents(extOf(x)); std::string s = "s" + std::to_string(int(x["cid"].n()));
  return m.intMetadata().size() == 1 && m.intMetadata("cid", -1) == x["cid"].n() && m.strMetadata().size() == (n > 0 ? 1u : 0u) && m.vecFloatMetadata().size() == (n > 1 ? 1u : 0u) && m.floatMetadata().size() == (n > 2 ? 1u : 0u) && (n < 1 || m.strMetadata("str", "") == s) && (n < 2 || m.vecFloatMetadata("vec", V3f(0)) == V3f(1, 2, x["cid"].n())) && (n < 3 || m.floatMetadata("f", 0) == 0.5f * n) && f->mapping() && f->mapping()->className() == q->className() && q->isIdentical(f->mapping()); }
// ---- reading an image back ----------------------------------------------------------------------------
// returns the layers (cids) that were read; throws if anything differs from what was written
static long g_rejected = 0, g_accepted = 0;
struct Seen { bool open, marked; std::set<int> cids; };
static Seen readBack(const std::string& path, const J& layers, int meta, bool ogawa, bool byName, bool managed) {
  Seen r; r.marked = false;
  if (ogawa) try { Alembic::Ogawa::IArchive a(path); r.marked = a.isValid() && a.isFrozen(); } catch (std::exception&) {}
  SparseFileManager::singleton().setLimitMemUse(managed); { Field3DInputFile in; r.open = in.open(path); 
  std::vector<std::string> parts, names; in.getPartitionNames(parts); std::set<std::string> pl; for (size_t i = 0; i < layers.size(); ++i) pl.insert(layers[i]["part"].str() + ":" + layers[i]["layer"].str());
  if (!r.open) { ++g_rejected; expectTrue(parts.empty(), "partitions are reported although the file could not be opened"); }
  else { ++g_accepted; int got = in.metadata().intMetadata("fileid", 0); if (got && got != meta) throw Mismatch(g_ctx + " wrong file metadata");
    for (auto& p : parts) for (int v = 0; v < 2; ++v) { if (v) in.getVectorLayerNames(names, p); else in.getScalarLayerNames(names, p); for (auto& l : names) { ++g_cmp; if (!pl.count(p + ":" + l)) throw Mismatch(g_ctx + " a layer " + p + ":" + l + " is reported which was not written"); } } }
  for (int vec = 0; vec < 2; ++vec) for (int prec = 1; prec < 4; ++prec) BYTYPE(vec, prec, {
    typename Field<T>::Vec v; if (byName) { for (size_t i = 0; i < layers.size(); ++i) { typename Field<T>::Vec q = Io<S, T>::read(in, layers[i]["part"].str(), layers[i]["layer"].str()); v.insert(v.end(), q.begin(), q.end()); } } else v = Io<S, T>::all(in);
    for (auto& f : v) { ++g_cmp; const J* x = 0; if (f) for (size_t i = 0; i < layers.size(); ++i) if (layers[i]["part"].str() == f->name && layers[i]["layer"].str() == f->attribute) x = &layers[i];
      if (!x) throw Mismatch(g_ctx + " a layer was read which was not written" + (f ? ": " + f->name + ":" + f->attribute : ""));
      std::string who = " layer " + f->name + ":" + f->attribute; if ((*x)["vec"].b() != (vec == 1) || (*x)["prec"].n() != prec) throw Mismatch(g_ctx + who + " was read with a type it does not have");
      bool ok = false; try { ok = same<T>(f, *x); } catch (std::exception&) { continue; }
      if (!ok) throw Mismatch(g_ctx + who + " does not hold the values that were written"); if (!decorated(f, *x)) throw Mismatch(g_ctx + who + " does not have the metadata or mapping that was written"); r.cids.insert(int((*x)["cid"].n())); } })
  } return r; }
static void put(const std::string& path, const std::string& im) { unlink(path.c_str()); int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); size_t n = 0; while (n < im.size()) { ssize_t k = syscall(SYS_write, fd, im.data() + n, im.size() - n); if (k <= 0) { printf("@ERROR cannot write image\n"); exit(3); } n += k; } close(fd); }
static void died() { fprintf(stderr, "@CTX %s\n", g_ctx.c_str()); printf("@CTX %s\n", g_ctx.c_str()); fflush(stdout); }
static bool g_og;
static void writeAll(const J& h, const std::string& path, size_t& t, std::vector<bool>* oks) {
  Field3DOutputFile::useOgawa(g_og); Field3DOutputFile out; bool made = out.create(path, Field3DOutputFile::OverwriteMode); if (!oks) expectTrue(made, "create");
  for (; t < h.size() && h[t]["n"].str() != "Close"; ++t) { const J& s = h[t]; g_ctx = "step " + std::to_string(t) + " " + s["n"].str();
    if (s["n"].str() == "Meta") { out.metadata().setIntMetadata("fileid", s["m"].n()); bool ok = out.writeGlobalMetadata(); if (!oks) expectTrue(ok, "writing file metadata"); continue; }
    const J& x = s["x"]; setNumIOThreads(s["th"].n()); FieldRes::Ptr f; bool ok = false; BYTYPE(x["vec"].b(), x["prec"].n(), f = make<T>(x)) decorate(f, x);
    BYTYPE(x["vec"].b(), x["prec"].n(), { typename Field<T>::Ptr q = field_dynamic_cast<Field<T> >(f); ok = Io<S, T>::write(out, x["part"].str(), x["layer"].str(), q); }) if (!oks) expectTrue(ok, "writing layer"); else oks->push_back(ok); }
  out.close(); }
int main(int c, char** v) {
  initIO(); Msg::setVerbosity(0); __asan_set_death_callback(died); g_og = c < 3 || std::string(v[2]) == "ogawa";
  int r = replayMain(c, v, [](const J& h) {
    static int count = 0; std::string path = "f" + std::to_string(++count) + ".f3d", img = "i" + std::to_string(count) + ".f3d"; size_t t = 0; g_ops.clear(); g_target = path; g_failAt = -1; g_seen = 0; g_rec = true; writeAll(h, path, t, 0); g_rec = false;
    const J& L = h[t]["layers"]; int meta = h[t]["meta"].n(); size_t N = g_ops.size(), bytes = 0; int round = 0; std::string whole; for (auto& o : g_ops) { apply(whole, o, o.data.size()); bytes += o.data.size(); }
    { std::ifstream i(path.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); if (s.str() != whole) { printf("@ERROR the recorded operations do not give the file\n"); exit(3); } }
    const J& im = h[t + 1]; expectTrue(!im["may"]["done"].b(), "plan");
    auto check = [&](const std::string& image, const std::string& what, bool all) { g_ctx = what; put(img, image); ++round; Seen s = readBack(img, L, meta, g_og, round % 2, round % 3 == 0);
      if (all) { expectTrue(s.open, "the finished file cannot be opened"); if (g_og) expectTrue(s.marked, "the finished file is not marked complete"); expectEq(s.cids.size(), L.size(), "number of layers in the finished file"); }
      else if (g_og) expectTrue(!s.marked || image.size() < whole.size(), "the file is marked complete although its writer has not closed it"); };
    for (int k = 0; k < 4; ++k) check(whole, "the finished file", true);
    std::set<size_t> stops; if (N < 300) for (size_t k = 0; k < N; ++k) stops.insert(k); for (size_t k = N > 25 ? N - 25 : 0; k < N; ++k) stops.insert(k); for (size_t k = 0; k < 12 && k < N; ++k) stops.insert(k); for (size_t k = 0; k < im["stop"].size(); ++k) stops.insert(size_t(im["stop"][k].n() / 1000001.0 * N));
    std::map<size_t, std::set<size_t> > torn; for (size_t k = 0; k < im["torn"].size(); ++k) { size_t o = size_t(im["torn"][k][0].n() / 1000001.0 * N), b = size_t(im["torn"][k][1].n() / 1000001.0 * g_ops[o].data.size()); torn[o].insert(b); } for (size_t o = N > 6 ? N - 6 : 0; o < N; ++o) for (size_t b = 1; b < g_ops[o].data.size() && b < 80; ++b) torn[o].insert(b);
    std::string cur; for (size_t k = 0; k < N; ++k) { if (stops.count(k)) check(cur, "writing stopped after " + std::to_string(k) + " of " + std::to_string(N) + " operations:", false);
      for (size_t b : torn[k]) if (b) { std::string q = cur; apply(q, g_ops[k], b); if (q != whole) check(q, "writing stopped after " + std::to_string(k) + " of " + std::to_string(N) + " operations and " + std::to_string(b) + " bytes:", false); } apply(cur, g_ops[k], g_ops[k].data.size()); }
    size_t B = whole.size(); std::set<size_t> cuts; for (size_t k = 0; k < 48 && k < B; ++k) cuts.insert(k); for (size_t k = B > 160 ? B - 160 : 0; k < B; ++k) cuts.insert(k); for (auto& o : g_ops) { cuts.insert(o.at); cuts.insert(o.at + 8); if (cuts.size() > 500) break; } for (size_t k = 0; k < im["cut"].size(); ++k) cuts.insert(size_t(im["cut"][k].n() / 1000001.0 * B));
    for (size_t k : cuts) if (k < B) check(whole.substr(0, k), "the finished file of " + std::to_string(B) + " bytes cut after " + std::to_string(k) + ":", false);
    // the disk is full: from some operation on (or only for one) writing fails; the writer may stop there, or go on and report what it could not write
    for (size_t k = 0; k < im["fault"].size(); ++k) { size_t at = size_t(im["fault"][k][0].n() / 1000001.0 * N); bool stick = im["fault"][k][1].b(); std::string fp = "x" + path; unlink(fp.c_str()); fflush(stdout); fflush(stderr);
      pid_t pid = fork(); if (pid == 0) { alarm(60); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); g_target = fp; g_ops.clear(); g_seen = 0; g_failAt = at; g_stick = stick; g_rec = true; size_t u = 0; std::vector<bool> oks; try { writeAll(h, fp, u, &oks); } catch (...) { _exit(1); } g_rec = false; std::string s; for (bool b : oks) s += b ? '1' : '0'; put("o" + fp, s); _exit(0); }
      int st = 0; waitpid(pid, &st, 0); std::ifstream i(fp.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); bool finished = WIFEXITED(st) && WEXITSTATUS(st) == 0; g_ctx = std::string("the disk was full ") + (stick ? "from" : "during") + " operation " + std::to_string(at) + " of " + std::to_string(N) + (finished ? " (the writer finished):" : " (the writer stopped):"); expectTrue(!(WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGSEGV)), "the writer hung or crashed");
      put(img, s.str()); Seen r = readBack(img, L, meta, g_og, k % 2, k % 3 == 0); static long nf[4]; nf[finished * 2 + r.open]++; if (getenv("F05_STAT")) fprintf(stderr, "@F %ld %ld %ld %ld\n", nf[0], nf[1], nf[2], nf[3]);
      if (finished && r.open) { std::ifstream o(("o" + fp).c_str()); std::string oks; o >> oks; size_t q = 0; for (size_t l = 0; l < L.size(); ++l) { if (l < oks.size() && oks[l] == '1' && !r.cids.count(int(L[l]["cid"].n()))) throw Mismatch(g_ctx + " layer " + L[l]["layer"].str() + " was reported written but cannot be read"); } (void)q; }
      unlink(fp.c_str()); unlink(("o" + fp).c_str()); }
    unlink(img.c_str()); unlink(path.c_str());
  });
  fprintf(stderr, "rejected %ld accepted %ld\n", g_rejected, g_accepted); return r;
}
