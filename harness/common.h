// Shared parts of the contracts. Only the public interface of the library is used.
#ifndef VC_COMMON_H
#define VC_COMMON_H

#include "vc.h"

#include "LitlRaster/Raster.h"

using namespace Litl;

#define VC_INLINE inline __attribute__((always_inline))

// Upper bound of the sizes: 2^40 elements (allocations beyond 2^63 bytes are out of the scope of the contracts)
constexpr long VC_MAX = 1L << 40;

template <Index N>
VC_INLINE Position<N> anyPosition(const char* name, Index dim, long lo, long hi) {
  Position<N> p(dim);
  for (Index i = 0; i < dim; ++i) {
    p[i] = vc_long(name, lo, hi);
  }
  return p;
}

template <Index N>
VC_INLINE Position<N> anyShape(const char* name, Index dim, long lo = 1, long hi = 4) {
  Position<N> s(dim);
  for (Index i = 0; i < dim; ++i) {
    s[i] = vc_long(name, lo, hi);
    vc_assume(s[i] >= lo && s[i] < VC_MAX);
  }
  return s;
}

template <Index N>
VC_INLINE long product(const Position<N>& s, Index n) {
  long out = 1;
  for (Index i = 0; i < n; ++i) {
    out *= s[i];
  }
  return out;
}

template <Index N>
VC_INLINE long rowMajor(const Position<N>& p, const Position<N>& s) {
  long out = 0;
  for (long i = long(s.size()) - 1; i >= 0; --i) {
    out = out * s[i] + p[i];
  }
  return out;
}

template <Index N>
VC_INLINE bool inside(const Position<N>& p, const Position<N>& s) {
  bool out = true;
  for (std::size_t i = 0; i < s.size(); ++i) {
    out = out && p[i] >= 0 && p[i] < s[i];
  }
  return out;
}

template <Index N>
VC_INLINE bool insideBox(const Position<N>& p, const Position<N>& front, const Position<N>& back) {
  bool out = true;
  for (std::size_t i = 0; i < front.size(); ++i) {
    out = out && p[i] >= front[i] && p[i] <= back[i];
  }
  return out;
}

template <Index N>
VC_INLINE bool samePosition(const Position<N>& p, const Position<N>& q) {
  bool out = p.size() == q.size();
  for (std::size_t i = 0; i < p.size(); ++i) {
    out = out && p[i] == q[i];
  }
  return out;
}

#endif
