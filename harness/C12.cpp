// Contracts of interpolation over extrapolated rasters: the value at any real position is the formula of the method over
// the surrounding pixels, and the pixel itself at integer positions. Machine floats are treated as real numbers.
#include "common.h"

#include "LitlTransforms/Interpolation.h"

#include <cmath>

template <Index N>
struct Case {
  Position<N> shape;
  double* data;
  Vector<double, N> pos;
  Position<N> f; // Floor
  Vector<double, N> d; // Fractional part
};

template <Index N>
VC_INLINE Case<N> anyCase(Index dim, long hi, long margin = 2) {
  Case<N> out {anyShape<N>("length", dim, 1, hi), nullptr, Vector<double, N>(dim), Position<N>(dim), Vector<double, N>(dim)};
  const long size = product(out.shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  out.data = vc_array_double("data", size);
  for (Index i = 0; i < dim; ++i) {
    out.pos[i] = vc_double("pos", -margin, hi + margin);
    vc_assume(out.pos[i] > -1e6 && out.pos[i] < 1e6);
    out.f[i] = long(std::floor(out.pos[i]));
    out.d[i] = out.pos[i] - double(out.f[i]);
    vc_assert(out.d[i] >= 0 && out.d[i] < 1, "fractional part");
  }
  return out;
}

VC_INLINE bool near(double a, double b) {
#ifdef VC_SYMBOLIC
  return a == b;
#else
  const double t = a - b;
  return (t < 0 ? -t : t) <= 1e-9 * (1 + (a < 0 ? -a : a));
#endif
}

VC_INLINE double mix(double p, double n, double d) {
  return (1 - d) * p + d * n;
}

VC_INLINE double catmullRom(double a, double b, double c, double e, double d) {
  return b + .5 * (d * (c - a) + d * d * (2 * a - 5 * b + 4 * c - e) + d * d * d * (3 * b - 3 * c + e - a));
}

// Nearest
template <Index N>
VC_INLINE void nearest(Index dim, long hi) {
  const auto c = anyCase<N>(dim, hi);
  const PtrRaster<double, N> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<NearestNeighbor>(e);
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) {
    q[i] = c.d[i] < .5 ? c.f[i] : c.f[i] + 1;
  }
  vc_assert(in(c.pos) == e[q], "the pixel whose coordinates are the closest integers");
}

VC_PROOF(nearest_1) { nearest<1>(1, 4); }
VC_PROOF(nearest_2) { nearest<2>(2, 2); }
VC_PROOF(nearest_3) { nearest<3>(3, 2); }

// Linear
VC_PROOF(linear_1) {
  const auto c = anyCase<1>(1, 4);
  const PtrRaster<double, 1> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<Linear>(e);
  const long x = c.f[0];
  vc_assert(near(in(c.pos), mix(e[Position<1> {x}], e[Position<1> {x + 1}], c.d[0])), "linear combination of the surrounding pixels");
}

VC_PROOF(linear_2) {
  const auto c = anyCase<2>(2, 2);
  const PtrRaster<double, 2> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<Linear>(e);
  const long x = c.f[0];
  const long y = c.f[1];
  const double p = mix(e[{x, y}], e[{x + 1, y}], c.d[0]);
  const double n = mix(e[{x, y + 1}], e[{x + 1, y + 1}], c.d[0]);
  vc_assert(near(in(c.pos), mix(p, n, c.d[1])), "bilinear combination of the surrounding pixels");
}

VC_PROOF(linear_2_constant) {
  const auto c = anyCase<2>(2, 2);
  const PtrRaster<double, 2> r(c.shape, c.data);
  const auto e = extrapolate(r, 0.);
  const auto in = interpolate<Linear>(e);
  const long x = c.f[0];
  const long y = c.f[1];
  const double p = mix(e[{x, y}], e[{x + 1, y}], c.d[0]);
  const double n = mix(e[{x, y + 1}], e[{x + 1, y + 1}], c.d[0]);
  vc_assert(near(in(c.pos), mix(p, n, c.d[1])), "bilinear combination of the surrounding pixels");
}

VC_PROOF(linear_3) {
  const auto c = anyCase<3>(3, 2, 1);
  const PtrRaster<double, 3> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<Linear>(e);
  const long x = c.f[0];
  const long y = c.f[1];
  const long z = c.f[2];
  const double a = mix(mix(e[{x, y, z}], e[{x + 1, y, z}], c.d[0]), mix(e[{x, y + 1, z}], e[{x + 1, y + 1, z}], c.d[0]), c.d[1]);
  const double b = mix(
      mix(e[{x, y, z + 1}], e[{x + 1, y, z + 1}], c.d[0]),
      mix(e[{x, y + 1, z + 1}], e[{x + 1, y + 1, z + 1}], c.d[0]),
      c.d[1]);
  vc_assert(near(in(c.pos), mix(a, b, c.d[2])), "trilinear combination of the surrounding pixels");
}

// Cubic
template <typename TExtra>
VC_INLINE double cubicRow(const TExtra& e, long x, long y, double d) {
  return catmullRom(e[{x - 1, y}], e[{x, y}], e[{x + 1, y}], e[{x + 2, y}], d);
}

VC_PROOF(cubic_1) {
  const auto c = anyCase<1>(1, 4);
  const PtrRaster<double, 1> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<Cubic>(e);
  const long x = c.f[0];
  const double expected =
      catmullRom(e[Position<1> {x - 1}], e[Position<1> {x}], e[Position<1> {x + 1}], e[Position<1> {x + 2}], c.d[0]);
  vc_assert(near(in(c.pos), expected), "Catmull-Rom combination of the surrounding pixels");
}

VC_PROOF(cubic_2) {
  const auto c = anyCase<2>(2, 2);
  const PtrRaster<double, 2> r(c.shape, c.data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<Cubic>(e);
  const long x = c.f[0];
  const long y = c.f[1];
  const double expected = catmullRom(
      cubicRow(e, x, y - 1, c.d[0]),
      cubicRow(e, x, y, c.d[0]),
      cubicRow(e, x, y + 1, c.d[0]),
      cubicRow(e, x, y + 2, c.d[0]),
      c.d[1]);
  vc_assert(near(in(c.pos), expected), "Catmull-Rom combination of the surrounding pixels");
}

// Integer positions
template <typename TMethod, Index N>
VC_INLINE void integral(Index dim, long hi) {
  const auto s = anyShape<N>("length", dim, 1, hi);
  const long size = product(s, dim);
  vc_assume(size > 0 && size < VC_MAX);
  double* data = vc_array_double("data", size);
  const auto p = anyPosition<N>("pos", dim, -2, hi + 1);
  Vector<double, N> v(dim);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(p[i] > -1000000 && p[i] < 1000000);
    v[i] = double(p[i]);
  }
  const PtrRaster<double, N> r(s, data);
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto in = interpolate<TMethod>(e);
  vc_assert(in(v) == e[p], "the pixel value at integer positions");
  vc_assert(&in[p] == &e[p], "the pixel itself");
  if (inside(p, s)) {
    vc_assert(in(v) == data[rowMajor(p, s)], "the pixel of the raster in bounds");
  }
}

VC_PROOF(integer_nearest_1) { integral<NearestNeighbor, 1>(1, 4); }
VC_PROOF(integer_nearest_2) { integral<NearestNeighbor, 2>(2, 3); }
VC_PROOF(integer_nearest_3) { integral<NearestNeighbor, 3>(3, 2); }
VC_PROOF(integer_linear_1) { integral<Linear, 1>(1, 4); }
VC_PROOF(integer_linear_2) { integral<Linear, 2>(2, 3); }
VC_PROOF(integer_linear_3) { integral<Linear, 3>(3, 2); }
VC_PROOF(integer_cubic_1) { integral<Cubic, 1>(1, 4); }
VC_PROOF(integer_cubic_2) { integral<Cubic, 2>(2, 3); }

// Without extrapolation, inside the raster: no pixel out of bounds is read
VC_PROOF(inner_linear) {
  const auto c = anyCase<2>(2, 4, 0);
  const long x = c.f[0];
  const long y = c.f[1];
  vc_assume(x >= 0 && x + 1 < c.shape[0] && y >= 0 && y + 1 < c.shape[1]);
  const PtrRaster<double, 2> r(c.shape, c.data);
  const auto in = interpolate<Linear>(r);
  const double p = mix(r[{x, y}], r[{x + 1, y}], c.d[0]);
  const double n = mix(r[{x, y + 1}], r[{x + 1, y + 1}], c.d[0]);
  vc_assert(near(in(c.pos), mix(p, n, c.d[1])), "bilinear combination of the surrounding pixels");
}

VC_PROOF(inner_cubic) {
  const auto c = anyCase<2>(2, 4, 0);
  const long x = c.f[0];
  const long y = c.f[1];
  vc_assume(x >= 1 && x + 2 < c.shape[0] && y >= 1 && y + 2 < c.shape[1]);
  const PtrRaster<double, 2> r(c.shape, c.data);
  const auto in = interpolate<Cubic>(r);
  const double expected = catmullRom(
      cubicRow(r, x, y - 1, c.d[0]),
      cubicRow(r, x, y, c.d[0]),
      cubicRow(r, x, y + 1, c.d[0]),
      cubicRow(r, x, y + 2, c.d[0]),
      c.d[1]);
  vc_assert(near(in(c.pos), expected), "Catmull-Rom combination of the surrounding pixels");
}

VC_PROOF(inner_nearest) {
  const auto c = anyCase<2>(2, 4, 1);
  const PtrRaster<double, 2> r(c.shape, c.data);
  const auto in = interpolate<NearestNeighbor>(r);
  const long x = c.d[0] < .5 ? c.f[0] : c.f[0] + 1;
  const long y = c.d[1] < .5 ? c.f[1] : c.f[1] + 1;
  const Position<2> q {x, y};
  vc_assume(inside(q, c.shape));
  vc_assert(in(c.pos) == c.data[rowMajor(q, c.shape)], "the closest pixel");
}

// Floor
VC_PROOF(floor_of_reals) {
  const double x = vc_double("x", -9, 9);
  vc_assume(x > -1e12 && x < 1e12);
  const long f = Litl::floor<Index>(x);
  vc_assert(double(f) <= x && x < double(f) + 1, "largest integer below");
}

#ifndef VC_SYMBOLIC
// Integer rasters, cubic in dimension 3
VC_BOUNDED(cubic_3) {
  Raster<int, 3> r({3, 2, 2});
  int* d = vc_array_int("data", 12);
  std::copy_n(d, 12, r.begin());
  const auto e = extrapolate<Periodic>(r);
  const auto in = interpolate<Cubic>(e);
  Vector<double, 3> v;
  long f[3];
  double t[3];
  for (int i = 0; i < 3; ++i) {
    v[i] = vc_double("pos", -1.5, 3);
    f[i] = long(std::floor(v[i]));
    t[i] = v[i] - f[i];
  }
  double z[4];
  for (long k = 0; k < 4; ++k) {
    double y[4];
    for (long j = 0; j < 4; ++j) {
      double x[4];
      for (long i = 0; i < 4; ++i) {
        x[i] = e[{f[0] + i - 1, f[1] + j - 1, f[2] + k - 1}];
      }
      y[j] = catmullRom(x[0], x[1], x[2], x[3], t[0]);
    }
    z[k] = catmullRom(y[0], y[1], y[2], y[3], t[1]);
  }
  vc_assert(near(in(v), catmullRom(z[0], z[1], z[2], z[3], t[2])), "Catmull-Rom combination");
}

VC_BOUNDED(linear_integers) {
  Raster<int, 2> r({3, 2});
  int* d = vc_array_int("data", 6);
  std::copy_n(d, 6, r.begin());
  const auto e = extrapolate(r, 0);
  const auto in = interpolate<Linear>(e);
  const Vector<double, 2> v {vc_double("x", -2, 4), vc_double("y", -2, 4)};
  const long x = long(std::floor(v[0]));
  const long y = long(std::floor(v[1]));
  const double p = mix(e[{x, y}], e[{x + 1, y}], v[0] - x);
  const double n = mix(e[{x, y + 1}], e[{x + 1, y + 1}], v[0] - x);
  vc_assert(near(in(v), mix(p, n, v[1] - y)), "bilinear combination");
}
#endif
