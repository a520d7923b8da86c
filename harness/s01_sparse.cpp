// Replays SparseMapGen behaviours on SparseField.
#include "f3d_common.h"
template <class T> struct Runner {
  typename SparseField<T>::Ptr f[3];
  J last[3]; Box3i ext[3]; bool have[3] = {false, false, false};
  static Box3i grow(Box3i b) { b.min -= V3i(1, 2, 0); b.max += V3i(3, 0, 1); return b; }
  void check(int x, const J& o, const std::string& w) {
    SparseField<T>& s = *f[x];
    V3i mn = v3(o["min"]), res = v3(o["res"]);
    Box3i dw = boxOf(mn, res);
    expectTrue(s.dataWindow() == dw, w + " data window");
    expectTrue(s.extents() == ext[x], w + " extents");
    expectTrue(s.dataResolution() == res, w + " resolution");
    expectEq(s.blockOrder(), o["order"].n(), w + " block order");
    expectEq(s.blockSize(), 1 << o["order"].n(), w + " block size");
    V3i br = v3(o["bres"]);
    expectTrue(s.blockRes() == br, w + " block resolution");
    const J& val = o["val"]; const J& al = o["alloc"]; const J& ev = o["ev"];
    size_t n = 0; size_t allocated = 0;
    int bs = 1 << o["order"].n();
    for (int bk = 0; bk < br.z; ++bk) for (int bj = 0; bj < br.y; ++bj) for (int bi = 0; bi < br.x; ++bi, ++n) {
      expectEq(s.blockIsAllocated(bi, bj, bk), al[n].b(), w + " allocation of block " + sp(bi, bj, bk));
      expectTrue(s.blockIndexIsValid(bi, bj, bk), w + " block index valid " + sp(bi, bj, bk));
      expectTrue((s.blockData(bi, bj, bk) != NULL) == al[n].b(), w + " block storage " + sp(bi, bj, bk));
      if (!al[n].b()) expectVal(T(s.getBlockEmptyValue(bi, bj, bk)), ev[n].n(), w + " empty value of block " + sp(bi, bj, bk));
      allocated += al[n].b();
    }
    expectTrue(!s.blockIndexIsValid(br.x, 0, 0) && !s.blockIndexIsValid(0, br.y, 0) && !s.blockIndexIsValid(0, 0, br.z) && !s.blockIndexIsValid(-1, 0, 0), w + " block index range");
    expectEq(s.voxelCount(), allocated * bs * bs * bs, w + " voxel count");
    n = 0;
    const Field<T>& base = s;
    typename SparseField<T>::const_iterator it = s.cbegin(), e = s.cend();
    for (int k = dw.min.z; k <= dw.max.z; ++k) for (int j = dw.min.y; j <= dw.max.y; ++j) for (int i = dw.min.x; i <= dw.max.x; ++i, ++n, ++it) {
      expectVal(s.fastValue(i, j, k), val[n].n(), w + " fastValue" + sp(i, j, k));
      expectVal(base.value(i, j, k), val[n].n(), w + " value" + sp(i, j, k));
      expectTrue(it != e, w + " iterator ended early");
      expectVal(T(*it), val[n].n(), w + " iterator value" + sp(i, j, k));
      int a = i - mn.x, b = j - mn.y, c = k - mn.z;
      size_t bl = (a / bs) + br.x * ((b / bs) + size_t(br.y) * (c / bs));
      expectEq(s.voxelIsInAllocatedBlock(i, j, k), al[bl].b(), w + " voxel in allocated block " + sp(i, j, k));
    }
    expectTrue(!(it != e), w + " iterator did not end");
  }
  void run(const J& beh) {
    for (size_t st = 0; st < beh.size(); ++st) {
      const J& r = beh[st]; const J& op = r["op"]; int x = r["x"].n() ; const J& o = r["obs"];
      const std::string& k = op["n"].str();
      g_ctx = "step " + std::to_string(st) + " " + k;
      V3i mn = v3(o["min"]), res = v3(o["res"]); Box3i dw = boxOf(mn, res);
      if (k == "Start") {
        f[x] = new SparseField<T>; f[x]->setBlockOrder(op["o"].n()); ext[x] = grow(dw); f[x]->setSize(ext[x], dw);
      } else if (k == "SetSize") {
        if (op["k"].n() == 0) { ext[x] = dw; f[x]->setSize(dw); }
        else if (op["k"].n() == 1 && mn == V3i(0)) { ext[x] = dw; f[x]->setSize(res); }
        else if (op["k"].n() == 2 && mn.x == mn.y && mn.y == mn.z && mn.x < 0 && res.x + 2 * mn.x > 0 && res.y + 2 * mn.y > 0 && res.z + 2 * mn.z > 0)
        { V3i sz = res + mn * 2; ext[x] = Box3i(V3i(0), sz - V3i(1)); f[x]->setSize(sz, -mn.x); }
        else { ext[x] = grow(dw); f[x]->setSize(ext[x], dw); }
      } else if (k == "SetOrder") f[x]->setBlockOrder(op["o"].n());
      else if (k == "Clear") f[x]->clear(Emb<T>::to(op["v"].n()));
      else if (k == "Fill") { for (typename SparseField<T>::iterator i = f[x]->begin(), e = f[x]->end(); i != e; ++i) *i = Emb<T>::to(op["v"].n()); }
      else if (k == "Write") {
        V3i p = v3(op["p"]); T v = Emb<T>::to(op["v"].n());
        switch (op["k"].n()) {
          case 0: f[x]->lvalue(p.x, p.y, p.z) = v; break;
          case 1: f[x]->fastLValue(p.x, p.y, p.z) = v; break;
          case 2: static_cast<WritableField<T>&>(*f[x]).lvalue(p.x, p.y, p.z) = v; break;
          default: { typename SparseField<T>::iterator i = f[x]->begin(Box3i(p, p)); expectTrue(i.x == p.x && i.y == p.y && i.z == p.z, "iterator position"); *i = v; }
        }
      } else if (k == "SetBlockEmpty") { V3i b = v3(op["b"]); f[x]->setBlockEmptyValue(b.x, b.y, b.z, Emb<T>::to(op["v"].n())); }
      else if (k == "ReleaseEqual" || k == "ReleaseMaxAbs") {
        size_t before = 0, after = 0;
        for (size_t i = 0; i < last[x]["alloc"].size(); ++i) { before += last[x]["alloc"][i].b(); after += o["alloc"][i].b(); }
        int got;
        if (k == "ReleaseEqual") { Field3D::Sparse::CheckAllEqual<T> chk; got = f[x]->releaseBlocks(chk); }
        else { T m = Emb<T>::to(op["m"].n()); absT(m); Field3D::Sparse::CheckMaxAbs<T> chk(m); got = f[x]->releaseBlocks(chk); }
        expectEq((size_t)got, before - after, "number of released blocks");
      } else if (k == "Copy") {
        int y = op["y"].n();
        switch (op["k"].n()) {
          case 0: f[x] = new SparseField<T>(*f[y]); break;
          case 1: *f[x] = *f[y]; break;
          default: f[x] = field_dynamic_cast<SparseField<T> >(f[y]->clone()); expectTrue(!!f[x], "clone type");
        }
        ext[x] = ext[y];
      } else if (k == "CopyFrom") { int y = op["y"].n(); typename Field<T>::Ptr src = f[y]; f[x]->copyFrom(src); ext[x] = ext[y]; }
      else if (k == "MatchDef") { int y = op["y"].n(); f[x]->matchDefinition(f[y]); ext[x] = ext[y]; }
      else throw std::logic_error("@ERROR unknown op " + k);
      check(x, o, "field " + std::to_string(x));
      last[x] = o; have[x] = true;
      int other = 3 - x;
      if (have[other]) check(other, last[other], "untouched field " + std::to_string(other));
    }
  }
  static void absT(T&) {}
};
template <class S> void absV(FIELD3D_VEC3_T<S>& v) { v.x = S(std::abs(float(v.x))); v.y = S(std::abs(float(v.y))); v.z = S(std::abs(float(v.z))); }
template <> void Runner<V3h>::absT(V3h& v) { absV(v); }
template <> void Runner<V3f>::absT(V3f& v) { absV(v); }
template <> void Runner<V3d>::absT(V3d& v) { absV(v); }
static int g_n = 0;
int main(int c, char** v) {
  return replayMain(c, v, [](const J& b) {
    switch (b["t"].n() % 6) {
      case 0: { Runner<float> r; r.run(b["h"]); break; }
      case 1: { Runner<half> r; r.run(b["h"]); break; }
      case 2: { Runner<double> r; r.run(b["h"]); break; }
      case 3: { Runner<V3f> r; r.run(b["h"]); break; }
      case 4: { Runner<V3h> r; r.run(b["h"]); break; }
      default: { Runner<V3d> r; r.run(b["h"]); }
    }
  });
}
