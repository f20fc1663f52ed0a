// Contracts of extrapolation: total on all integer positions, and equal to the definition of each method.
#include "common.h"

#include "LitlTransforms/Interpolation.h"

template <Index N>
struct Case {
  Position<N> shape;
  int* data;
  Position<N> pos;
};

// The position is arbitrary: in bounds or (however far) out of bounds
template <Index N>
VC_INLINE Case<N> anyCase(Index dim, long hi) {
  Case<N> out {anyShape<N>("length", dim, 1, hi), nullptr, Position<N>(dim)};
  const long size = product(out.shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  out.data = vc_array_int("data", size);
  out.pos = anyPosition<N>("pos", dim, -2 * hi - 1, 3 * hi);
  return out;
}

// In-bounds position at which the method reads
VC_INLINE long nearest(long p, long s) {
  return p < 0 ? 0 : p >= s ? s - 1 : p;
}

VC_INLINE long modulo(long p, long s) {
  const long q = p % s;
  return q < 0 ? q + s : q;
}

template <Index N>
VC_INLINE void constant(Index dim, long hi) {
  const auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const int k = vc_long("constant", 5, 6);
  vc_assume(k > -1000 && k < 1000);
  const auto e = extrapolate(r, k);
  if (inside(c.pos, c.shape)) {
    vc_assert(&e[c.pos] == &r[c.pos], "the pixel in bounds");
    vc_assert(e[c.pos] == c.data[rowMajor(c.pos, c.shape)], "its value in bounds");
  } else {
    vc_assert(e[c.pos] == k, "the constant out of bounds");
  }
  vc_assert(&e.raster() == &r && samePosition<N>(e.shape(), c.shape), "the extrapolated raster");
}

VC_PROOF(constant_1) { constant<1>(1, 4); }
VC_PROOF(constant_2) { constant<2>(2, 3); }
VC_PROOF(constant_3) { constant<3>(3, 2); }
VC_PROOF(constant_var2) { constant<-1>(2, 2); }

template <Index N>
VC_INLINE void nearestNeighbor(Index dim, long hi) {
  const auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto d = extrapolate(r);
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) {
    q[i] = nearest(c.pos[i], c.shape[i]);
  }
  vc_assert(inside(q, c.shape), "in bounds");
  vc_assert(&e[c.pos] == c.data + rowMajor(q, c.shape), "the pixel at the closest in-bounds position");
  vc_assert(e[c.pos] == c.data[rowMajor(q, c.shape)], "and its value");
  vc_assert(&d[c.pos] == &e[c.pos], "default method");
  if (inside(c.pos, c.shape)) {
    vc_assert(&e[c.pos] == &r[c.pos], "the pixel in bounds");
  }
}

VC_PROOF(nearest_1) { nearestNeighbor<1>(1, 4); }
VC_PROOF(nearest_2) { nearestNeighbor<2>(2, 3); }
VC_PROOF(nearest_3) { nearestNeighbor<3>(3, 2); }
VC_PROOF(nearest_var2) { nearestNeighbor<-1>(2, 2); }

template <Index N>
VC_INLINE void periodic(Index dim, long hi) {
  const auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const auto e = extrapolate<Periodic>(r);
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) {
    q[i] = modulo(c.pos[i], c.shape[i]);
  }
  vc_assert(inside(q, c.shape), "in bounds");
  vc_assert(&e[c.pos] == c.data + rowMajor(q, c.shape), "the pixel at the position modulo the shape");
  vc_assert(e[c.pos] == c.data[rowMajor(q, c.shape)], "and its value");
  if (inside(c.pos, c.shape)) {
    vc_assert(&e[c.pos] == &r[c.pos], "the pixel in bounds");
  }
}

VC_PROOF(periodic_1) { periodic<1>(1, 4); }
VC_PROOF(periodic_2) { periodic<2>(2, 3); }
VC_PROOF(periodic_3) { periodic<3>(3, 2); }
VC_PROOF(periodic_var2) { periodic<-1>(2, 2); }

// The period is exactly the shape
VC_PROOF(period) {
  const auto c = anyCase<2>(2, 3);
  const PtrRaster<int, 2> r(c.shape, c.data);
  const auto e = extrapolate<Periodic>(r);
  const long k = vc_long("periods", -3, 3);
  vc_assume(k > -1000 && k < 1000);
  vc_assume(c.pos[0] > -VC_MAX && c.pos[0] < VC_MAX && c.pos[1] > -VC_MAX && c.pos[1] < VC_MAX);
  vc_assume(inside(c.pos, c.shape));
  vc_assert(&e[c.pos + Position<2> {c.shape[0] * k, 0}] == &r[c.pos], "periodic along the first axis");
  vc_assert(&e[c.pos + Position<2> {0, c.shape[1] * k}] == &r[c.pos], "periodic along the second axis");
}

// Methods given as objects, properties of the extrapolator
VC_PROOF(properties) {
  const auto c = anyCase<2>(2, 3);
  const PtrRaster<int, 2> r(c.shape, c.data);
  const auto e = extrapolate<OutOfBoundsConstant<int>>(r, 7);
  vc_assert(e[c.pos] == (inside(c.pos, c.shape) ? c.data[rowMajor(c.pos, c.shape)] : 7), "constant method");
  const auto d = e.domain();
  const auto s = e.shape();
  vc_assert(s[0] == c.shape[0] && s[1] == c.shape[1], "shape");
  vc_assert(d.front()[0] == 0 && d.front()[1] == 0, "domain front");
  vc_assert(d.back()[0] == s[0] - 1 && d.back()[1] == s[1] - 1, "domain back");
  vc_assert(&e.raster() == &r, "raster");
}

#ifndef VC_SYMBOLIC
// Owning rasters, other types, dimension 4
VC_BOUNDED(dimension_4) {
  const auto s = anyShape<4>("length", 4, 1, 2);
  Raster<double, 4> r(s);
  r.range(1., .5);
  const auto p = anyPosition<4>("pos", 4, -3, 4);
  const double k = -7;
  const auto c = extrapolate(r, k);
  const auto n = extrapolate<NearestNeighbor>(r);
  const auto q = extrapolate<Periodic>(r);
  Position<4> pn;
  Position<4> pq;
  for (int i = 0; i < 4; ++i) {
    pn[i] = nearest(p[i], s[i]);
    pq[i] = modulo(p[i], s[i]);
  }
  vc_assert(c[p] == (inside(p, s) ? r.at(p) : k), "constant");
  vc_assert(n[p] == r.at(pn), "nearest");
  vc_assert(q[p] == r.at(pq), "periodic");
}
#endif
