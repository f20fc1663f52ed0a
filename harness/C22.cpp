// Contracts of the named vectors, slice and extend.
#include "common.h"

#include <limits>

template <typename T, Index N>
VC_INLINE Vector<T, N> anyInts(const char* name, Index dim, long lo = -1, long hi = 2) {
  Vector<T, N> v(dim);
  for (Index i = 0; i < dim; ++i) {
    v[i] = T(vc_long(name, lo, hi));
  }
  return v;
}

template <typename T, Index N>
VC_INLINE void named() {
  const long dim = N < 0 ? 1 : N;
  const auto z = Vector<T, N>::zero();
  const auto o = Vector<T, N>::one();
  const auto f = Vector<T, N>::inf();
  vc_assert(long(z.size()) == dim && long(o.size()) == dim && long(f.size()) == dim, "dimension");
  bool zero = true;
  bool one = true;
  bool inf = true;
  for (long i = 0; i < dim; ++i) {
    zero = zero && z[i] == T(0);
    one = one && o[i] == T(1);
    inf = inf && f[i] == std::numeric_limits<T>::max();
  }
  vc_assert(zero, "zero");
  vc_assert(one, "one");
  vc_assert(inf, "inf");
  vc_assert(z.isZero() && o.isOne() && f.isInf(), "recognized");
  vc_assert(!z.isOne() && !z.isInf() && !o.isZero() && !o.isInf() && !f.isZero() && !f.isOne(), "distinguished");
}

VC_PROOF(named_1) { named<Index, 1>(); }
VC_PROOF(named_2) { named<Index, 2>(); }
VC_PROOF(named_3) { named<Index, 3>(); }
VC_PROOF(named_5) { named<Index, 5>(); }
VC_PROOF(named_var) { named<Index, -1>(); }
VC_PROOF(named_int_3) { named<int, 3>(); }
VC_PROOF(named_short_2) { named<short, 2>(); }

template <typename T, Index N>
VC_INLINE void recognized(Index dim) {
  const auto v = anyInts<T, N>("v", dim, -1, 2);
  bool zero = true;
  bool one = true;
  bool inf = true;
  for (Index i = 0; i < dim; ++i) {
    zero = zero && v[i] == T(0);
    one = one && v[i] == T(1);
    inf = inf && v[i] == std::numeric_limits<T>::max();
  }
  vc_assert(v.isZero() == zero, "isZero recognizes zero only");
  vc_assert(v.isOne() == one, "isOne recognizes one only");
  vc_assert(v.isInf() == inf, "isInf recognizes inf only");
  auto w = Vector<T, N>(dim).fill(std::numeric_limits<T>::max());
  vc_assert(w.isInf(), "isInf recognizes inf");
  const long k = vc_long("changed", 0, dim - 1);
  vc_assume(k >= 0 && k < dim);
  w[k] = T(vc_long("by", -2, 2));
  vc_assume(w[k] != std::numeric_limits<T>::max());
  vc_assert(!w.isInf(), "isInf checks each coordinate");
}

VC_PROOF(recognized_1) { recognized<Index, 1>(1); }
VC_PROOF(recognized_2) { recognized<Index, 2>(2); }
VC_PROOF(recognized_3) { recognized<Index, 3>(3); }
VC_PROOF(recognized_4) { recognized<Index, 4>(4); }
VC_PROOF(recognized_var3) { recognized<Index, -1>(3); }

template <Index M, Index N>
VC_INLINE void sliced(Index dim) {
  const auto v = anyInts<Index, N>("v", dim, 0, 3);
  const auto s = v.template slice<M>();
  bool ok = long(s.size()) == M;
  for (Index i = 0; i < M; ++i) {
    ok = ok && s[i] == v[i];
  }
  vc_assert(ok, "the first coordinates are kept in order");
}

VC_PROOF(slice_1_3) { sliced<1, 3>(3); }
VC_PROOF(slice_2_3) { sliced<2, 3>(3); }
VC_PROOF(slice_3_3) { sliced<3, 3>(3); }
VC_PROOF(slice_2_5) { sliced<2, 5>(5); }
VC_PROOF(slice_4_5) { sliced<4, 5>(5); }
VC_PROOF(slice_2_var3) { sliced<2, -1>(3); }
VC_PROOF(slice_3_var3) { sliced<3, -1>(3); }

template <Index M, Index N>
VC_INLINE void extended(Index dim) {
  const auto v = anyInts<Index, N>("v", dim, 0, 2);
  const auto pad = anyInts<Index, M>("padding", M, 3, 5);
  const auto e = v.template extend<M>(pad);
  bool ok = long(e.size()) == M;
  for (Index i = 0; i < M; ++i) {
    ok = ok && e[i] == (i < dim ? v[i] : pad[i]);
  }
  vc_assert(ok, "coordinates are kept, others come from the padding");
  const auto z = v.template extend<M>();
  ok = long(z.size()) == M;
  for (Index i = 0; i < M; ++i) {
    ok = ok && z[i] == (i < dim ? v[i] : 0);
  }
  vc_assert(ok, "zero padding by default");
  Position<N> w(dim);
  const auto back = e;
  for (Index i = 0; i < dim; ++i) {
    w[i] = back[i];
  }
  vc_assert(w == v, "slicing undoes the extension");
}

VC_PROOF(extend_1_3) { extended<3, 1>(1); }
VC_PROOF(extend_2_3) { extended<3, 2>(2); }
VC_PROOF(extend_3_3) { extended<3, 3>(3); }
VC_PROOF(extend_2_5) { extended<5, 2>(2); }
VC_PROOF(extend_var2_4) { extended<4, -1>(2); }

VC_PROOF(slice_of_extension) {
  const auto v = anyInts<Index, 2>("v", 2);
  const auto pad = anyInts<Index, 4>("padding", 4);
  vc_assert(v.extend<4>(pad).slice<2>() == v, "slicing undoes the extension");
}

#ifndef VC_SYMBOLIC
VC_BOUNDED(floating) {
  const auto f = Vector<double, 3>::inf();
  bool ok = true;
  for (auto e : f) {
    ok = ok && e >= std::numeric_limits<double>::max();
  }
  vc_assert(ok && f.isInf(), "inf of floating point vectors");
  vc_assert(Vector<double, 3>::zero().isZero() && Vector<float, 3>::one().isOne(), "zero and one");
}
#endif
