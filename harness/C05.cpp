// Contract of Box::surround: for an arbitrary position x, exactly one box among the inner one and the surrounding ones
// contains x if x is in the grown box, and none otherwise.
#include "common.h"

template <Index N>
VC_INLINE Position<N> pos(const char* name, Index dim, long lo, long hi) {
  auto p = anyPosition<N>(name, dim, lo, hi);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(p[i] > -VC_MAX && p[i] < VC_MAX);
  }
  return p;
}

template <Index N>
VC_INLINE void partition(Index dim, long lo = 0, long hi = 1, long m = 2) {
  const auto f = pos<N>("front", dim, lo, hi);
  const auto b = pos<N>("back", dim, lo, hi);
  const auto mf = pos<N>("mfront", dim, -m, 0);
  const auto mb = pos<N>("mback", dim, 0, m);
  long expected = 0;
  for (Index i = 0; i < dim; ++i) {
    vc_assume(f[i] <= b[i] && mf[i] <= 0 && mb[i] >= 0);
    expected += (mf[i] < 0) + (mb[i] > 0);
  }
  const Box<N> box(f, b);
  const Box<N> margin(mf, mb);
  const auto boxes = box.surround(margin);
  vc_assert(long(boxes.size()) == expected, "one box per non-null margin coordinate");
  const auto x = pos<N>("x", dim, lo - m - 1, hi + m + 1);
  const bool inner = insideBox<N>(x, f, b);
  bool grown = true;
  for (Index i = 0; i < dim; ++i) {
    grown = grown && x[i] >= f[i] + mf[i] && x[i] <= b[i] + mb[i];
  }
  long count = inner;
  bool nonempty = true;
  bool dims = true;
  for (const auto& o : boxes) {
    dims = dims && o.dimension() == dim && long(o.back().size()) == dim;
    for (Index i = 0; i < dim; ++i) {
      nonempty = nonempty && o.front()[i] <= o.back()[i];
    }
    count += insideBox<N>(x, o.front(), o.back());
  }
  vc_assert(dims, "same dimension");
  vc_assert(nonempty, "no empty box");
  vc_assert(count == (grown ? 1 : 0), "the boxes partition the grown box");
  vc_assert(samePosition<N>(box.front(), f) && samePosition<N>(box.back(), b), "the box is unchanged");
}

VC_PROOF(partition_1) { partition<1>(1, -2, 2, 3); }
VC_PROOF(partition_2) { partition<2>(2, 0, 1, 1); }
VC_PROOF(partition_3) { partition<3>(3, 0, 1, 1); }
VC_PROOF(partition_var2) { partition<-1>(2, 0, 1, 1); }

#ifndef VC_SYMBOLIC
VC_BOUNDED(partition_2_wide) { partition<2>(2, -1, 1, 2); }
VC_BOUNDED(partition_4) { partition<4>(4); }
VC_BOUNDED(partition_var3) { partition<-1>(3); }
#endif
