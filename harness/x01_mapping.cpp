// Replays spec/MappingGen behaviours: matrix, frustum and null mappings with time samples, cloned and sent through files.
#include "f3d_common.h"
#include "FieldMapping.h"
static M44d affine(const J& r) { M44d m; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) m[i][k] = r[i][k].n(); return m; }
static M44d lens(const J& v) { double a = v["a"].n(), b = v["b"].n(), n = v["n"].n(), f = v["f"].n();
  return M44d(a * n * f, 0, 0, 0, 0, b * n * f, 0, 0, 0, 0, 0, n - f, 0, 0, -n * f, f); }
static float tm_(const J& t) { return t.n() / 4.f; }
static void near(const V3d& got, const V3d& want, double tol, const std::string& what) { ++g_cmp; double s = 1; for (int i = 0; i < 3; ++i) s = std::max(s, std::fabs(want[i]));
  for (int i = 0; i < 3; ++i) if (!(std::fabs(got[i] - want[i]) <= tol * s)) { std::ostringstream o; o << g_ctx << " " << what << ": got " << got << ", specification says " << want; throw Mismatch(o.str()); } }
static MatrixFieldMapping* mat(FieldMapping::Ptr m) { return dynamic_cast<MatrixFieldMapping*>(m.get()); }
static FrustumFieldMapping* fru(FieldMapping::Ptr m) { return dynamic_cast<FrustumFieldMapping*>(m.get()); }
static Box3i ext(const J& e) { return Box3i(v3(e[0]), v3(e[1])); }
static FieldMapping::Ptr make(const std::string& k, const Box3i& e, int how) {
  FieldMapping::Ptr m; bool c = how & 1;
  if (k == "matrix") m = c ? new MatrixFieldMapping(e) : new MatrixFieldMapping; else if (k == "frustum") m = c ? new FrustumFieldMapping(e) : new FrustumFieldMapping; else m = c ? new NullFieldMapping(e) : new NullFieldMapping;
  if (!c) m->setExtents(e); return m; }
static void add(FieldMapping::Ptr m, bool timed, float t, const J& v) {
  if (MatrixFieldMapping* x = mat(m)) { if (timed) x->setLocalToWorld(t, affine(v)); else x->setLocalToWorld(affine(v)); }
  else { FrustumFieldMapping* f = fru(m); M44d c = affine(v["c"]), s = lens(v) * c; if (timed) f->setTransforms(t, s, c); else f->setTransforms(s, c); } }
static int g_files = 0;
static FieldMapping::Ptr trip(FieldMapping::Ptr m, const Box3i& e, int fmt) {
  std::string path = "x" + std::to_string(++g_files) + ".f3d"; DenseFieldf::Ptr f(new DenseFieldf); f->setSize(e, Box3i(e.min, e.min + V3i(1, 1, 0))); f->clear(2); f->name = "n"; f->attribute = "a"; f->setMapping(m->clone());
  { Field3DOutputFile o; o.useOgawa(fmt == 0); expectTrue(o.create(path), "create"); expectTrue(o.writeScalarLayer<float>(f), "write"); expectTrue(o.close(), "close"); }
  Field3DInputFile in; expectTrue(in.open(path), "open"); auto v = in.readScalarLayers<float>("n", "a"); expectEq(v.size(), size_t(1), "layers read"); FieldMapping::Ptr r = v[0]->mapping(); expectTrue(!!r, "the field read has no mapping");
  expectTrue(m->isIdentical(r) && r->isIdentical(m), "the mapping read from a file is not identical to the one written"); unlink(path.c_str()); return r; }
static void inspect(FieldMapping::Ptr m, const J& r) {
  const J& st = r["st"]; const std::string& kind = st["kind"].str(); Box3i e = ext(st["ext"]); V3d org(e.min), res(e.max - e.min + V3i(1)); const J& s = st["s"];
  expectTrue(m->className() == (kind == "matrix" ? "MatrixFieldMapping" : kind == "frustum" ? "FrustumFieldMapping" : "NullFieldMapping"), "class " + m->className());
  near(m->origin(), org, 0, "origin"); near(m->resolution(), res, 0, "resolution");
  bool shared = true; for (size_t i = 1; i < s.size() && kind == "frustum"; ++i) for (const char* k : {"n", "f", "a", "b"}) if (s[i]["v"][k].n() != s[0]["v"][k].n()) shared = false;
  if (MatrixFieldMapping* x = mat(m)) { const auto& c = x->localToWorldSamples(); expectEq(c.size(), s.size(), "number of samples");
    for (size_t i = 0; i < s.size(); ++i) { expectEq(c[i].first, tm_(s[i]["t"]), "time of sample " + std::to_string(i)); expectTrue(c[i].second == affine(s[i]["v"]), "matrix of sample " + std::to_string(i) + " differs"); } }
  else if (FrustumFieldMapping* f = fru(m)) { const auto &c = f->cameraToWorldSamples(), &q = f->screenToWorldSamples(); const auto &n = f->nearPlaneSamples(), &fa = f->farPlaneSamples();
    expectEq(c.size(), s.size(), "number of camera samples"); expectEq(q.size(), s.size(), "number of screen samples"); expectEq(n.size(), s.size(), "number of near samples"); expectEq(fa.size(), s.size(), "number of far samples");
    expectEq(int(f->zDistribution()), st["z"].n(), "slice distribution");
    for (size_t i = 0; i < s.size(); ++i) { std::string w = "sample " + std::to_string(i); float t = tm_(s[i]["t"]); expectTrue(c[i].first == t && q[i].first == t && n[i].first == t && fa[i].first == t, "time of " + w); const J& v = s[i]["v"]; if (!v["n"].n()) continue;
      expectTrue(c[i].second == affine(v["c"]), "camera matrix of " + w); expectTrue(q[i].second == lens(v) * affine(v["c"]), "screen matrix of " + w); near(V3d(n[i].second, fa[i].second, 0), V3d(v["n"].n(), v["f"].n(), 0), 1e-9, "near and far of " + w); }
    const J& nf = r["nf"]; if (nf.size()) near(V3d(f->nearPlane(), f->farPlane(), 0), V3d(nf[0]["num"][0].n(), nf[0]["num"][1].n(), 0) / double(nf[0]["den"].n()), 1e-5, "near and far plane"); }
  const J& ev = r["ev"];
  for (size_t i = 0; i < ev.size(); ++i) { const J& q = ev[i]["q"]; V3d ls(q[0].n() / 4., q[1].n() / 4., q[2].n() / 4.), vs = org + ls * res, w, w0, b; float t = tm_(ev[i]["t"]); const J& x = ev[i]["w"];
    std::ostringstream o; o << "local " << ls << " at time " << t; std::string at = o.str();
    m->localToVoxel(ls, b); near(b, vs, 1e-12, "localToVoxel of " + at); m->voxelToLocal(vs, b); near(b, ls, 1e-12, "voxelToLocal of " + at);
    m->localToWorld(ls, w, t);
    if (x["den"].n()) { V3d want(x["num"][0].n(), x["num"][1].n(), x["num"][2].n()); want /= double(x["den"].n()); near(w, want, 1e-4, "localToWorld of " + at); m->voxelToWorld(vs, b, t); near(b, want, 1e-4, "voxelToWorld of " + at);
      if (t == 0) { m->localToWorld(ls, w0); near(w0, want, 1e-4, "localToWorld without a time of " + at); m->voxelToWorld(vs, w0); near(w0, want, 1e-4, "voxelToWorld without a time of " + at); } }
    if (kind == "frustum" && (!x["den"].n() || !shared)) { // blends of lenses may be close to singular
      if (st["z"].n() == 0) { m->worldToLocal(w, b, t); V3d c; m->localToWorld(b, c, t); near(c, w, 1e-3, "worldToLocal is not the inverse for " + at); m->worldToVoxel(w, b, t); m->voxelToWorld(b, c, t); near(c, w, 1e-3, "worldToVoxel is not the inverse for " + at); }
      continue; }
    m->worldToLocal(w, b, t); near(b, ls, 2e-4, "worldToLocal of the image of " + at); m->worldToVoxel(w, b, t); near(b, vs, 2e-4, "worldToVoxel of the image of " + at);
    if (t == 0) { m->worldToLocal(w, b); near(b, ls, 2e-4, "worldToLocal without a time of the image of " + at); m->worldToVoxel(w, b); near(b, vs, 2e-4, "worldToVoxel without a time of the image of " + at); }
    if (MatrixFieldMapping* mm = mat(m)) { mm->worldToVoxel(t).multVecMatrix(w, b); near(b, vs, 2e-4, "matrix worldToVoxel of the image of " + at); if (t == 0) { mm->worldToVoxel().multVecMatrix(w, b); near(b, vs, 2e-4, "matrix worldToVoxel"); mm->voxelToWorld().multVecMatrix(vs, b); near(b, w, 1e-4, "matrix voxelToWorld"); mm->localToWorld().multVecMatrix(ls, b); near(b, w, 1e-4, "matrix localToWorld");
      V3d d, d0, d1; mm->voxelToWorldDir(V3d(1, 2, 3), d); mm->voxelToWorld(vs + V3d(1, 2, 3), d1); near(d, d1 - w, 1e-4, "voxelToWorldDir"); mm->worldToVoxelDir(d, d0); near(d0, V3d(1, 2, 3), 1e-4, "worldToVoxelDir"); mm->localToWorldDir(V3d(1, 2, 3), d); mm->localToWorld(ls + V3d(1, 2, 3), d1); near(d, d1 - w, 1e-4, "localToWorldDir"); mm->worldToLocalDir(d, d0); near(d0, V3d(1, 2, 3), 1e-4, "worldToLocalDir"); } }
  }
  // voxel size: distances between adjacent voxel centres of a slice
  for (int k = e.min.z; k <= e.max.z; ++k) { int kk = (k == e.max.z && k > e.min.z && kind == "frustum") ? k - 1 : k; V3d got = m->wsVoxelSize(e.min.x, e.min.y, k), lo(1e30), hi(-1e30);
    for (int j = e.min.y - 1; j <= e.max.y + 1; ++j) for (int i = e.min.x - 1; i <= e.max.x + 1; ++i) { V3d c = V3d(i + .5, j + .5, kk + .5), a, b; m->voxelToWorld(c, a); for (int d = 0; d < 3; ++d) { V3d p = c; p[d] += 1; m->voxelToWorld(p, b); double l = (b - a).length(); lo[d] = std::min(lo[d], l); hi[d] = std::max(hi[d], l); }
      if (kind == "frustum" && e.min.z == e.max.z) { V3d p = c, q = c; p.z = k; q.z = k + 1; m->voxelToWorld(p, a); m->voxelToWorld(q, b); double l = (b - a).length(); lo.z = std::min(lo.z, l); hi.z = std::max(hi.z, l); } } // a single slice: its own thickness will do
    for (int d = 0; d < 3; ++d) { ++g_cmp; if (!(got[d] >= lo[d] * (1 - 1e-6) && got[d] <= hi[d] * (1 + 1e-6))) { std::ostringstream o; o << g_ctx << " voxel size of slice " << k << ": got " << got << ", the distances between adjacent voxel centres are " << lo << " to " << hi; throw Mismatch(o.str()); } } }
}
int main(int c, char** v) {
  initIO(); SparseFileManager::singleton().setLimitMemUse(false); Msg::setVerbosity(0);
  return replayMain(c, v, [](const J& h) {
    Box3i e0(V3i(0), V3i(3)); std::vector<FieldMapping::Ptr> o; for (int i = 0; i < 3; ++i) o.push_back(make("matrix", e0, i));
    for (size_t t = 1; t < h.size(); ++t) {
      const J& r = h[t]; const std::string& n = r["n"].str(); int a = r["obj"].n() - 1; g_ctx = "step " + std::to_string(t) + " " + n + " (" + r["st"]["kind"].str() + ")";
      if (n == "New") o[a] = make(r["st"]["kind"].str(), ext(r["st"]["ext"]), r["how"].n());
      else if (n == "Add") add(o[a], true, tm_(r["t"]), r["v"]);
      else if (n == "Only") add(o[a], false, 0, r["v"]);
      else if (n == "Clear") { if (mat(o[a])) mat(o[a])->makeIdentity(); else fru(o[a])->reset(); }
      else if (n == "Z") fru(o[a])->setZDistribution(r["z"].n() ? FrustumFieldMapping::UniformDistribution : FrustumFieldMapping::PerspectiveDistribution);
      else if (n == "Ext") o[a]->setExtents(ext(r["st"]["ext"]));
      else if (n == "Clone") o[r["b"].n() - 1] = o[r["a"].n() - 1]->clone();
      else if (n == "Trip") { g_ctx += r["fmt"].n() ? " HDF5" : " Ogawa"; o[a] = trip(o[a], ext(r["st"]["ext"]), r["fmt"].n()); }
      inspect(o[a], r);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int w = r["same"][i][j].n(); if (w >= 0) expectEq(o[i]->isIdentical(o[j]), w == 1, "mappings " + std::to_string(i + 1) + " and " + std::to_string(j + 1) + " identical"); }
    }
  });
}
