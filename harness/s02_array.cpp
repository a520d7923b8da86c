// Replays ArrayFieldsGen behaviours on DenseField and MACField.
#include "f3d_common.h"
template <class T> struct Is3 { enum { v = 0 }; };
template <class S> struct Is3<FIELD3D_VEC3_T<S> > { enum { v = 1 }; };
// triples of the specification: scalars take the first component
template <class T> struct E3 { static T to(const J& j) { return T(float(j[0].n())); } static bool eq(const T& a, const J& j) { return a == to(j); } static T emb(long long v) { return T(float(v)); } };
template <class S> struct E3<FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T; static T to(const J& j) { return T(S(float(j[0].n())), S(float(j[1].n())), S(float(j[2].n()))); }
  static bool eq(const T& a, const J& j) { T b = to(j); return a.x == b.x && a.y == b.y && a.z == b.z; } static T emb(long long v) { return T(S(float(v)), S(float(2 * v)), S(float(-v))); } };
static const long long UND = 99999;
template <class T> void expect3(const T& got, const J& want, const std::string& what) {
  if (want[0].n() == UND || want[1].n() == UND || want[2].n() == UND) return;
  ++g_cmp; if (!E3<T>::eq(got, want)) throw Mismatch(g_ctx + " " + what + ": got " + Emb<T>::str(got) + ", specification says (" + std::to_string(want[0].n()) + "," + std::to_string(want[1].n()) + "," + std::to_string(want[2].n()) + ")"); }
static MatrixFieldMapping::Ptr mapTag(int m) { MatrixFieldMapping::Ptr p(new MatrixFieldMapping); M44d x; x.setScale(V3d(m + 1, 1, 2)); if (m) p->setLocalToWorld(x); return p; }
static Box3i padded(const Box3i& dw, int p) { return Box3i(dw.min - V3i(p), dw.max + V3i(p)); }
template <class T, bool V> struct MacOps;
template <class T> struct MacOps<T, false> { typedef FieldRes::Ptr Ptr; static void check(FieldRes&, const J&, const std::string&) {} static FieldRes::Ptr make() { return 0; } static void op(std::map<int, FieldRes::Ptr>&, int, const J&, const J&, const Box3i&) {}
  static FieldRes::Ptr copy(FieldRes::Ptr, FieldRes::Ptr, int) { return 0; } static void start(FieldRes&) {} };
template <class T> struct MacOps<T, true> {
  typedef MACField<T> M; typedef typename T::BaseType S;
  static FieldRes::Ptr make() { return new M; }
  static S get(const M& m, int c, const V3i& p) { return c == 0 ? m.u(p.x, p.y, p.z) : c == 1 ? m.v(p.x, p.y, p.z) : m.w(p.x, p.y, p.z); }
  static S& ref(M& m, int c, const V3i& p) { return c == 0 ? m.u(p.x, p.y, p.z) : c == 1 ? m.v(p.x, p.y, p.z) : m.w(p.x, p.y, p.z); }
  static void check(FieldRes& f, const J& o, const std::string& w) {
    M& m = static_cast<M&>(f); const M& cm = m; V3i mn = v3(o["min"]), res = v3(o["res"]); V3i cs;
    for (int c = 0; c < 3; ++c) {
      const J& face = o["face"][c]; V3i r = res; r[c] += 1; size_t n = 0; cs[c] = r.x * r.y * r.z;
      typename M::const_mac_comp_iterator it = cm.cbegin_comp(MACComponent(c)), e = cm.cend_comp(MACComponent(c));
      for (int k = 0; k < r.z; ++k) for (int j = 0; j < r.y; ++j) for (int i = 0; i < r.x; ++i, ++n, ++it) {
        V3i p = mn + V3i(i, j, k); S want = S(float(face[n].n()));
        expectTrue(it != e && it.x == p.x && it.y == p.y && it.z == p.z, w + " face iterator position " + char('u' + c) + sp(p.x, p.y, p.z));
        if (face[n].n() == UND) continue;
        expectTrue(get(cm, c, p) == want, w + " face " + char('u' + c) + sp(p.x, p.y, p.z) + " is " + std::to_string(double(get(cm, c, p))) + ", specification says " + std::to_string(double(want)));
        expectTrue(ref(m, c, p) == want, w + " face (writable) " + char('u' + c) + sp(p.x, p.y, p.z));
        expectTrue(it != e && *it == want && it.x == p.x && it.y == p.y && it.z == p.z, w + " face iterator " + char('u' + c) + sp(p.x, p.y, p.z));
      }
      expectTrue(!(it != e), w + " face iterator did not end");
    }
    expectTrue(m.getComponentSize() == cs, w + " component sizes");
    const Field<T>& b = cm;
    for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i) {
      V3i p = mn + V3i(i, j, k); T want; bool und = false;
      for (int c = 0; c < 3; ++c) { V3i r = res; r[c] += 1; V3i h(i, j, k); h[c] += 1; long long s0 = o["face"][c][i + r.x * (j + size_t(r.y) * k)].n(), s1 = o["face"][c][h.x + r.x * (h.y + size_t(r.y) * h.z)].n(); und |= s0 == UND || s1 == UND; want[c] = S(float(s0 + s1) / 2); }
      if (und) continue;
      T got = b.value(p.x, p.y, p.z);
      expectTrue(got.x == want.x && got.y == want.y && got.z == want.z, w + " cell value " + sp(p.x, p.y, p.z));
      expectTrue(m.uCenter(p.x, p.y, p.z) == want.x && m.vCenter(p.x, p.y, p.z) == want.y && m.wCenter(p.x, p.y, p.z) == want.z, w + " cell centre " + sp(p.x, p.y, p.z));
    }
  }
  static void start(FieldRes& f) { static_cast<M&>(f).clear(E3<T>::emb(2)); }
  static FieldRes::Ptr copy(FieldRes::Ptr x, FieldRes::Ptr y, int k) {
    M& b = static_cast<M&>(*y);
    if (k == 0) return new M(b);
    if (k == 1) { static_cast<M&>(*x) = b; return x; }
    FieldBase::Ptr c = b.clone(); return boost::static_pointer_cast<FieldRes>(c);
  }
  static void op(std::map<int, FieldRes::Ptr>& F, int x, const J& o, const J& obs, const Box3i& dw) {
    M& m = static_cast<M&>(*F[x]); const std::string& k = o["n"].str();
    if (k == "Clear") m.clear(E3<T>::emb(o["v"].n()));
    else if (k == "WriteFace") { V3i p = v3(o["p"]); int c = o["c"].n() - 1; S v = S(float(o["v"].n())); 
      if (o["k"].n() == 0) ref(m, c, p) = v;
      else { V3i q(std::min(p.x, dw.max.x), std::min(p.y, dw.max.y), std::min(p.z, dw.max.z)); bool done = false;
        for (typename M::mac_comp_iterator i = m.begin_comp(MACComponent(c), Box3i(q, q)), e = m.end_comp(MACComponent(c), Box3i(q, q)); i != e; ++i) if (i.x == p.x && i.y == p.y && i.z == p.z) { *i = v; done = true; }
        expectTrue(done, "face iterator over the box of a cell misses its face"); } }
    else if (k == "FillFace") { int c = o["c"].n() - 1; long n = 0; for (typename M::mac_comp_iterator i = m.begin_comp(MACComponent(c)), e = m.end_comp(MACComponent(c)); i != e; ++i) { ++n; *i = S(float(o["v"].n() + 2 * (n % 4))); } }
    else if (k == "CopyMAC") m.copyMAC(&static_cast<M&>(*F[o["y"].n()]));
    else if (k == "MatchDef") m.matchDefinition(F[o["y"].n()]);
    else throw std::logic_error("@ERROR unknown op " + k);
  }
};
template <class T> struct Runner {
  typedef DenseField<T> D; typedef MacOps<T, bool(Is3<T>::v)> M;
  std::map<int, FieldRes::Ptr> F; std::map<int, J> last;
  void checkDense(D& d, const J& o, const std::string& w) {
    V3i mn = v3(o["min"]), res = v3(o["res"]); size_t n = 0; const D& cd = d; const Field<T>& b = d;
    typename D::const_iterator it = cd.cbegin(), e = cd.cend();
    for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i, ++n, ++it) {
      V3i p = mn + V3i(i, j, k); const J& v = o["val"][n];
      expect3(cd.fastValue(p.x, p.y, p.z), v, w + " fastValue" + sp(p.x, p.y, p.z));
      expect3(b.value(p.x, p.y, p.z), v, w + " value" + sp(p.x, p.y, p.z));
      expect3(T(d.lvalue(p.x, p.y, p.z)), v, w + " lvalue" + sp(p.x, p.y, p.z));
      expect3(T(d.fastLValue(p.x, p.y, p.z)), v, w + " fastLValue" + sp(p.x, p.y, p.z));
      expectTrue(it != e && it.x == p.x && it.y == p.y && it.z == p.z, w + " iterator position" + sp(p.x, p.y, p.z));
      expect3(T(*it), v, w + " iterator" + sp(p.x, p.y, p.z));
    }
    expectTrue(!(it != e), w + " iterator did not end");
  }
  void check(int x, const J& o, const std::string& w) {
    FieldRes& f = *F[x]; V3i mn = v3(o["min"]), res = v3(o["res"]); Box3i dw = boxOf(mn, res), ex = padded(dw, o["pad"].n());
    expectTrue(f.dataWindow() == dw, w + " data window"); expectTrue(f.extents() == ex, w + " extents"); expectTrue(f.dataResolution() == res, w + " resolution");
    expectTrue(V3i(f.mapping()->origin()) == ex.min && V3i(f.mapping()->resolution()) == ex.max - ex.min + V3i(1), w + " extents of the mapping");
    expectEq(f.voxelCount(), size_t(res.x) * res.y * res.z, w + " voxel count");
    V3d got, want; f.mapping()->localToWorld(V3d(1, 1, 1), got); MatrixFieldMapping::Ptr m = mapTag(o["map"].n()); m->localToWorld(V3d(1, 1, 1), want);
    expectTrue((got - want).length() < 1e-12, w + " mapping");
    V3d v, ws; m->setExtents(ex); m->worldToVoxel(V3d(0.25, 0.5, 0.75), want); f.mapping()->worldToVoxel(V3d(0.25, 0.5, 0.75), got); expectTrue((got - want).length() < 1e-9, w + " world to voxel");
    for (int c = 0; c < 3; ++c) { V3i a = mn, b = dw.max; a[c] -= 1; b[c] += 1; expectTrue(!f.isInBounds(a.x, a.y, a.z) && !f.isInBounds(b.x, b.y, b.z), w + " bounds"); }
    expectTrue(f.isInBounds(mn.x, mn.y, mn.z) && f.isInBounds(dw.max.x, dw.max.y, dw.max.z), w + " bounds");
    if (o["kind"].str() == "dense") checkDense(static_cast<D&>(f), o, w); else M::check(f, o, w);
  }
  static typename Field<T>::Ptr gen(FieldRes::Ptr f, const J& o) { return static_cast<Field<T>*>(f.get()); }
  void run(const J& beh) {
    for (size_t st = 0; st < beh.size(); ++st) {
      const J& r = beh[st]; const J& op = r["op"]; int x = r["x"].n(); const J& o = r["obs"]; const std::string& k = op["n"].str();
      g_ctx = "step " + std::to_string(st) + " " + k + " field " + std::to_string(x);
      V3i mn = v3(o["min"]), res = v3(o["res"]); Box3i dw = boxOf(mn, res), ex = padded(dw, o["pad"].n()); bool dense = o["kind"].str() == "dense";
      ResizableField<T>* rf = 0;
      if (k == "Start") { if (dense) F[x] = new D; else F[x] = M::make(); }
      rf = static_cast<ResizableField<T>*>(F[x].get());
      if (k == "Start") { rf->setSize(ex, dw); if (dense) static_cast<D&>(*rf).clear(E3<T>::emb(2)); else M::start(*rf); }
      else if (k == "SetSize") {
        int pad = o["pad"].n();
        if (op["k"].n() == 0 && pad == 0) rf->setSize(dw);
        else if (op["k"].n() == 1 && pad == 0 && mn == V3i(0)) rf->setSize(res);
        else if (op["k"].n() == 2 && pad == 0 && mn == V3i(0)) rf->setSize(res, 0);
        else rf->setSize(ex, dw);
      }
      else if (k == "SetMapping") { MatrixFieldMapping::Ptr m = mapTag(op["m"].n()); rf->setMapping(m); M44d z; z.setScale(99.0); m->setLocalToWorld(z); m->setExtents(Box3i(V3i(7), V3i(9))); }
      else if (k == "Copy") {
        int y = op["y"].n();
        if (dense) { D& b = static_cast<D&>(*F[y]); if (op["k"].n() == 0) F[x] = new D(b); else if (op["k"].n() == 1) static_cast<D&>(*F[x]) = b; else { FieldBase::Ptr c = b.clone(); F[x] = field_dynamic_cast<D>(c); expectTrue(!!F[x], "clone type"); } }
        else F[x] = M::copy(F[x], F[y], op["k"].n());
      }
      else if (!dense) M::op(F, x, op, o, dw);
      else {
        D& d = static_cast<D&>(*F[x]);
        if (k == "Clear") d.clear(E3<T>::emb(op["v"].n()));
        else if (k == "Fill") { long n = 0; if (op["k"].n() == 0) for (typename D::iterator i = d.begin(), e = d.end(); i != e; ++i) { ++n; *i = E3<T>::emb(op["v"].n() + n % 3); }
          else { WritableField<T>& wf = d; for (typename WritableField<T>::iterator i = wf.begin(), e = wf.end(); i != e; ++i) { ++n; *i = E3<T>::emb(op["v"].n() + n % 3); } } }
        else if (k == "Write") { V3i p = v3(op["p"]); T v = E3<T>::emb(op["v"].n());
          switch (op["k"].n()) { case 0: d.lvalue(p.x, p.y, p.z) = v; break; case 1: d.fastLValue(p.x, p.y, p.z) = v; break; case 2: static_cast<WritableField<T>&>(d).lvalue(p.x, p.y, p.z) = v; break;
            case 3: { typename D::iterator i = d.begin(Box3i(p, p)); *i = v; break; } default: { typename D::iterator i = d.begin(Box3i(mn, p)), e = d.end(Box3i(mn, p)); for (; i != e; ++i) if (i.x == p.x && i.y == p.y && i.z == p.z) *i = v; } } }
        else if (k == "CopyFrom") d.copyFrom(typename Field<T>::Ptr(static_cast<Field<T>*>(F[op["y"].n()].get())));
        else if (k == "MatchDef") d.matchDefinition(F[op["y"].n()]);
        else throw std::logic_error("@ERROR unknown op " + k);
      }
      last[x] = o;
      for (auto& l : last) check(l.first, l.second, (l.first == x ? "field " : "untouched field ") + std::to_string(l.first));
      for (auto& l : last) if (l.first != x) {
        typename Field<T>::Ptr a = static_cast<Field<T>*>(F[x].get()), b = static_cast<Field<T>*>(F[l.first].get());
        bool same = r["same"][l.first - 1].b(); int idn = r["ident"][l.first - 1].n(); bool id = idn == 1;
        expectEq((sameDefinition<T, T>(a, b)), same, "sameDefinition with field " + std::to_string(l.first));
        if (idn == 2) continue;
        if (Is3<T>::v) expectEq(isIdentical<T>(a, b), id, "isIdentical to field " + std::to_string(l.first));
        else if (id) expectTrue(isIdentical<T>(a, b), "isIdentical to field " + std::to_string(l.first));
      }
    }
  }
};
int main(int c, char** v) {
  return replayMain(c, v, [](const J& b) {
    switch (b["t"].n()) {
      case 0: { Runner<float> r; r.run(b["h"]); break; }
      case 1: { Runner<half> r; r.run(b["h"]); break; }
      case 2: { Runner<double> r; r.run(b["h"]); break; }
      case 3: { Runner<V3f> r; r.run(b["h"]); break; }
      case 4: { Runner<V3h> r; r.run(b["h"]); break; }
      default: { Runner<V3d> r; r.run(b["h"]); }
    }
  });
}
