// Replays spec/MetadataGen behaviours: typed metadata of fields and files, in memory and through files of both formats.
#include "f3d_common.h"
#include "SparseFile.h"
#include <cfloat>
#include <climits>
static const char* T_[] = {"s", "i", "f", "vi", "vf"};
static const int NN = 15, NV = 7;
static std::vector<std::string> names() { std::vector<std::string> n = {"a", "b", "A", "a.b", "c d", "e/f", "", "class_name", "version", std::string(200, 'n'), "\xc3\xbc", "a:b", "#1", "metadata", "name"}; return n; }
static const std::vector<std::string> N = names();
static std::string sv(int v) { switch (v) { case 0: return ""; case 1: return "x"; case 2: return "with space "; case 3: return std::string(900, 'y') + "z"; case 4: return "a\nb\t\"q\""; case 5: return "\xc3\xa9/\\"; default: return "0"; } }
static int iv(int v) { static const int a[] = {0, -1, INT_MIN, INT_MAX, 1, 77, -123456789}; return a[v % 7]; }
static float fv(int v) { static const float a[] = {0.f, -0.f, 1.5f, FLT_MAX, 1e-40f, INFINITY, -3.25f}; return a[v % 7]; }
static V3i viv(int v) { return V3i(iv(v), iv(v + 1), iv(v + 3)); }
static V3f vfv(int v) { return V3f(fv(v), fv(v + 2), fv(v + 5)); }
static bool bits(float a, float b) { return !memcmp(&a, &b, 4); }
static void setTo(FieldMetadata& m, const std::string& t, int k, int v) {
  if (t == "s") m.setStrMetadata(N[k], sv(v)); else if (t == "i") m.setIntMetadata(N[k], iv(v)); else if (t == "f") m.setFloatMetadata(N[k], fv(v)); else if (t == "vi") m.setVecIntMetadata(N[k], viv(v)); else m.setVecFloatMetadata(N[k], vfv(v)); }
static bool same(const V3f& a, const V3f& b) { return bits(a.x, b.x) && bits(a.y, b.y) && bits(a.z, b.z); }
static void check(const FieldMetadata& m, const J& e, const std::string& who) {
  size_t cnt[5] = {0, 0, 0, 0, 0};
  for (int t = 0; t < 5; ++t) for (int k = 0; k < NN; ++k) {
    int v = e[T_[t]][k].n(); std::string w = who + ": entry '" + N[k] + "' of type " + T_[t] + (v < 0 ? " (unset)" : ""); if (v >= 0) ++cnt[t];
    switch (t) {
      case 0: expectTrue(m.strMetadata(N[k], "dflt") == (v < 0 ? "dflt" : sv(v)), w + " reads '" + m.strMetadata(N[k], "dflt") + "'"); break;
      case 1: expectTrue(m.intMetadata(N[k], 4711) == (v < 0 ? 4711 : iv(v)), w + " reads " + std::to_string(m.intMetadata(N[k], 4711))); break;
      case 2: expectTrue(bits(m.floatMetadata(N[k], 47.11f), v < 0 ? 47.11f : fv(v)), w + " reads " + std::to_string(m.floatMetadata(N[k], 47.11f))); break;
      case 3: expectTrue(m.vecIntMetadata(N[k], V3i(4, 7, 11)) == (v < 0 ? V3i(4, 7, 11) : viv(v)), w); break;
      default: expectTrue(same(m.vecFloatMetadata(N[k], V3f(4, 7, 11)), v < 0 ? V3f(4, 7, 11) : vfv(v)), w);
    } }
  size_t got[5] = {m.strMetadata().size(), m.intMetadata().size(), m.floatMetadata().size(), m.vecIntMetadata().size(), m.vecFloatMetadata().size()};
  for (int t = 0; t < 5; ++t) expectEq(got[t], cnt[t], who + ": number of entries of type " + T_[t]);
}
static FieldRes::Ptr make(int i) {
  if (i % 3 == 0) { DenseFieldf::Ptr f(new DenseFieldf); f->setSize(V3i(2)); f->clear(1); return f; }
  if (i % 3 == 1) { SparseField<V3d>::Ptr f(new SparseField<V3d>); f->setBlockOrder(1); f->setSize(V3i(3)); f->clear(V3d(0)); f->lvalue(0, 0, 0) = V3d(1); return f; }
  MACField<V3f>::Ptr f(new MACField<V3f>); f->setSize(V3i(2)); f->clear(V3f(1)); return f; }
static bool write(Field3DOutputFile& o, const std::string& l, FieldRes::Ptr f) {
  if (auto d = field_dynamic_cast<DenseFieldf>(f)) return o.writeScalarLayer<float>("p", l, d);
  if (auto s = field_dynamic_cast<SparseField<V3d> >(f)) return o.writeVectorLayer<double>("p", l, s);
  return o.writeVectorLayer<float>("p", l, field_dynamic_cast<MACField<V3f> >(f)); }
static FieldRes::Ptr read(Field3DInputFile& i, const std::string& l, FieldRes::Ptr like) {
  if (field_dynamic_cast<DenseFieldf>(like)) { auto v = i.readScalarLayers<float>("p", l); return v.size() == 1 ? FieldRes::Ptr(v[0]) : FieldRes::Ptr(); }
  if (field_dynamic_cast<SparseField<V3d> >(like)) { auto v = i.readVectorLayers<double>("p", l); return v.size() == 1 ? FieldRes::Ptr(v[0]) : FieldRes::Ptr(); }
  auto v = i.readVectorLayers<float>("p", l); return v.size() == 1 ? FieldRes::Ptr(v[0]) : FieldRes::Ptr(); }
static int g_files = 0;
static void store(std::vector<FieldRes::Ptr>& o, const J& r, const std::vector<int>& gset) {
  int fmt = r["fmt"].n(), x = r["x"].n(); bool clash = r["clash"].b();
  // HDF5 has one name space for all types and no empty names
  bool mayFail = false; if (fmt == 1) { mayFail = clash; for (int t = 0; t < 5; ++t) { if (r["g"][T_[t]][6].n() >= 0) mayFail = true; for (int k = 0; k < 3; ++k) if (r["m"][k][T_[t]][6].n() >= 0) mayFail = true; } }
  std::string path = "m" + std::to_string(++g_files) + ".f3d", how = fmt ? "HDF5" : "Ogawa"; bool ok = true;
  { Field3DOutputFile out; out.useOgawa(fmt == 0); expectTrue(out.create(path), "create");
    for (int t = 0; t < 5; ++t) for (int k = 0; k < NN; ++k) { int v = r["g"][T_[t]][k].n(); if (v >= 0) { if (x & 1) setTo(out.metadata(), T_[t], k, (v + 1) % NV); setTo(out.metadata(), T_[t], k, v); } }
    for (int i = 0; i < 4; ++i) { if (i == x % 4) ok = out.writeGlobalMetadata() && ok; if (i < 3) { bool w = write(out, "l" + std::to_string(i), o[i]); if (!fmt && field_dynamic_cast<MACField<V3f> >(o[i])) expectTrue(!w, "a staggered field cannot be stored in Ogawa but writing it reported success"); else ok = w && ok; } }
    ok = out.close() && ok; }
  if (!ok && mayFail) { unlink(path.c_str()); return; }
  expectTrue(ok, "writing (" + how + ") reported a failure");
  { Field3DInputFile in; expectTrue(in.open(path), "open (" + how + ")"); check(in.metadata(), r["g"], "file metadata after a round trip (" + how + ")");
    for (int i = 0; i < 3; ++i) { if (!fmt && field_dynamic_cast<MACField<V3f> >(o[i])) continue; FieldRes::Ptr f = read(in, "l" + std::to_string(i), o[i]); expectTrue(!!f, "layer l" + std::to_string(i) + " not read (" + how + ")"); check(f->metadata(), r["m"][i], "layer l" + std::to_string(i) + " after a round trip (" + how + ")"); if (x >= 5) o[i] = f; } }
  unlink(path.c_str());
}
int main(int c, char** v) {
  initIO(); SparseFileManager::singleton().setLimitMemUse(false); Msg::setVerbosity(0);
  return replayMain(c, v, [](const J& h) {
    std::vector<FieldRes::Ptr> o; for (int i = 0; i < 3; ++i) o.push_back(make(i));
    for (size_t t = 1; t < h.size(); ++t) {
      const J& r = h[t]; const std::string& n = r["n"].str(); g_ctx = "step " + std::to_string(t) + " " + n;
      if (n == "Set") setTo(o[r["o"].n() - 1]->metadata(), r["t"].str(), r["k"].n(), r["v"].n());
      else if (n == "Copy") { FieldRes::Ptr& a = o[r["a"].n() - 1]; FieldRes::Ptr& b = o[r["b"].n() - 1]; int how = r["how"].n(); g_ctx += " how " + std::to_string(how);
        auto da = field_dynamic_cast<DenseFieldf>(a), db = field_dynamic_cast<DenseFieldf>(b); auto sa = field_dynamic_cast<SparseField<V3d> >(a), sb = field_dynamic_cast<SparseField<V3d> >(b); auto ma = field_dynamic_cast<MACField<V3f> >(a), mb = field_dynamic_cast<MACField<V3f> >(b);
        if (how % 3 == 0) b->copyMetadata(*a);
        else if (how % 3 == 1) { FieldBase::Ptr cl = a->clone(); b = field_dynamic_cast<FieldRes>(cl); expectTrue(!!b, "clone"); }
        else if (sa && sb) { SparseField<V3d>::Ptr f(new SparseField<V3d>); f->metadata().setIntMetadata("zzz", 1); *f = *sa; if (how == 5) { *sb = *f; } else b = f; }
        else if (da) b = FieldRes::Ptr(new DenseFieldf(*da)); else if (ma) b = FieldRes::Ptr(new MACField<V3f>(*ma)); else b = FieldRes::Ptr(new SparseField<V3d>(*sa)); }
      else if (n == "Store") store(o, r, std::vector<int>());
      for (int i = 0; i < 3; ++i) check(o[i]->metadata(), r["m"][i], "object " + std::to_string(i + 1));
    }
  });
}
