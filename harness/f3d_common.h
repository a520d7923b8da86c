#pragma once
#include "replay.h"
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "MIPField.h"
#include "MIPUtil.h"
#include "Field3DFile.h"
#include "FieldInterp.h"
#include "InitIO.h"
#if !defined(WITH_SCHED) && !defined(OWN_EVENTS)
extern "C" __attribute__((weak)) void field3d_verif_event(const char*, const void*, long, long, long) {}
#endif
using namespace Field3D;
// embedding of specification integers into the supported voxel types
template <class T> struct Emb { static T to(long long v) { return T(float(v)); } static bool eq(const T& a, long long v) { return a == to(v); }
  static std::string str(const T& a) { std::ostringstream s; s << double(a); return s.str(); } };
template <class S> struct Emb<FIELD3D_VEC3_T<S> > { typedef FIELD3D_VEC3_T<S> T;
  static T to(long long v) { return T(S(float(v)), S(float(2 * v)), S(float(-v))); }
  static bool eq(const T& a, long long v) { T b = to(v); return a.x == b.x && a.y == b.y && a.z == b.z; }
  static std::string str(const T& a) { std::ostringstream s; s << "(" << double(a.x) << "," << double(a.y) << "," << double(a.z) << ")"; return s.str(); } };
template <class T> void expectVal(const T& got, long long want, const std::string& what) {
  ++g_cmp;
  if (!Emb<T>::eq(got, want)) { std::ostringstream s; s << g_ctx << " " << what << ": got " << Emb<T>::str(got) << ", specification says " << want; throw Mismatch(s.str()); }
}
inline V3i v3(const J& j) { return V3i(j[0].n(), j[1].n(), j[2].n()); }
inline std::string sp(int i, int j, int k) { std::ostringstream s; s << "(" << i << "," << j << "," << k << ")"; return s.str(); }
inline Box3i boxOf(const V3i& mn, const V3i& res) { return Box3i(mn, mn + res - V3i(1)); }
