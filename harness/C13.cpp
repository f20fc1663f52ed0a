// Contracts of kernels: window and values, and correlation of extrapolated rasters equal to its definition at every
// pixel, whatever the sizes of the image and kernel.
#include "common.h"

#include "LitlTransforms/Kernel.h"

// Construction
template <Index N>
VC_INLINE void construction(Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  const int* values = vc_array_int("values", size);
  const auto front = anyPosition<N>("front", dim, -2, 2);
  Position<N> back(dim);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(front[i] > -VC_MAX && front[i] < VC_MAX);
    back[i] = front[i] + shape[i] - 1;
  }
  const auto k = kernelize(values, Box<N>(front, back));
  vc_assert(samePosition<N>(k.window().front(), front) && samePosition<N>(k.window().back(), back), "window");
  vc_assert(samePosition<N>(k.shape(), shape), "shape");
  const auto r = k.raster();
  vc_assert(samePosition<N>(r.shape(), shape), "shape of the raster of values");
  const long i = vc_long("i", 0, 30);
  vc_assume(i >= 0 && i < size);
  vc_assert(r.data()[i] == values[i], "values");
  vc_assert(r.data() != values, "the values are copied");
}

VC_PROOF(construction_1) { construction<1>(1, 4); }
VC_PROOF(construction_2) { construction<2>(2, 3); }
VC_PROOF(construction_3) { construction<3>(3, 2); }
VC_PROOF(construction_var2) { construction<-1>(2, 2); }

// Construction from a raster, with given or centered origin
template <Index N>
VC_INLINE void fromRaster(Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  const int* values = vc_array_int("values", size);
  const PtrRaster<const int, N> r(shape, values);
  const auto origin = anyPosition<N>("origin", dim, -1, 3);
  const auto k = kernelize(Raster<int, N>(shape, std::vector<int>(values, values + size)), origin);
  bool front = true;
  bool back = true;
  for (Index i = 0; i < dim; ++i) {
    front = front && k.window().front()[i] == -origin[i];
    back = back && k.window().back()[i] == shape[i] - 1 - origin[i];
  }
  vc_assert(front && back, "window with given origin");
  const auto c = kernelize(Raster<int, N>(shape, std::vector<int>(values, values + size)));
  bool cfront = true;
  bool cback = true;
  for (Index i = 0; i < dim; ++i) {
    cfront = cfront && c.window().front()[i] == -(shape[i] / 2);
    cback = cback && c.window().back()[i] == shape[i] - 1 - shape[i] / 2;
  }
  vc_assert(cfront && cback, "window with centered origin");
  const long i = vc_long("i", 0, 30);
  vc_assume(i >= 0 && i < size);
  vc_assert(k.raster().data()[i] == values[i] && c.raster().data()[i] == values[i], "values");
}

VC_PROOF(from_raster_1) { fromRaster<1>(1, 4); }
VC_PROOF(from_raster_2) { fromRaster<2>(2, 3); }
VC_PROOF(from_raster_3) { fromRaster<3>(3, 2); }

// Correlation of a whole image of any shape, by a kernel of any values and given window
template <typename T, Index N, typename TIn>
VC_INLINE T convolved(const T* k, const Box<N>& window, const TIn& in, const Position<N>& p) {
  T sum {};
  const T* v = k;
  for (const auto& q : window) {
    sum += *v++ * in[p + q];
  }
  return sum;
}

// Equality of sums: exact for the reals of the proofs, up to rounding natively
VC_INLINE bool sameSum(double a, double b) {
#ifdef VC_SYMBOLIC
  return a == b;
#else
  return std::abs(a - b) <= 1e-9 * (1 + std::abs(a));
#endif
}

template <Index N>
VC_INLINE Position<N> constant(long v) {
  Position<N> out(N);
  for (Index i = 0; i < N; ++i) {
    out[i] = v;
  }
  return out;
}

template <Index N, typename TExtrapolate>
VC_INLINE void whole(long f, long b, TExtrapolate&& extrapolated) {
  const auto shape = anyShape<N>("length", N, 1, 6);
  const long size = product(shape, N);
  vc_assume(size < VC_MAX);
  const Box<N> window(constant<N>(f), constant<N>(b));
  double k[32];
  for (long i = 0; i < window.size(); ++i) {
    k[i] = vc_double("kernel", -2, 2);
  }
  double* d = vc_array_double("data", size);
  double* o = vc_array_double("out", size);
  const PtrRaster<double, N> in(shape, d);
  PtrRaster<double, N> out(shape, o);
  auto kernel = kernelize(k, window);
  const auto e = extrapolated(in);
  const long i = vc_long("i", 0, 30);
  vc_assume(i >= 0 && i < size);
  const double old = d[i];
  kernel.correlateTo(e, out);
  vc_assert(d[i] == old, "unchanged input");
  // Every position is along borders or inside
  const auto inner = anyPosition<N>("pos", N, 0, 5);
  vc_assume(inside<N>(inner, shape));
  const long n = b - f + 1;
  long cases = 1;
  for (Index i = 0; i < N; ++i) {
    cases *= n;
  }
  for (long c = 0; c < cases; ++c) {
    Position<N> p = inner;
    bool here = true;
    long d = c;
    for (Index i = 0; i < N; ++i) {
      const long r = d % n;
      d /= n;
      if (r < -f) {
        p[i] = r;
        here = here && r < shape[i];
      } else if (r > -f) {
        p[i] = shape[i] - 1 + (r - n + 1);
        here = here && p[i] >= 0;
      } else {
        here = here && p[i] >= -f && p[i] < shape[i] - b;
      }
    }
    if (here) {
      vc_assert(sameSum(out[p], convolved<double, N>(k, window, e, p)), "correlation equal to the definition");
    }
  }
}

struct Constant { double v; template <typename T> auto operator()(const T& in) const { return extrapolate(in, v); } };
struct Nearest { template <typename T> auto operator()(const T& in) const { return extrapolate<NearestNeighbor>(in); } };
struct Period { template <typename T> auto operator()(const T& in) const { return extrapolate<Periodic>(in); } };

VC_PROOF(whole_1_m1_1) { whole<1>(-1, 1, Constant {vc_double("constant", -2, 2)}); }
VC_PROOF(whole_1_0_0) { whole<1>(0, 0, Constant {0}); }
VC_PROOF(whole_1_m2_1) { whole<1>(-2, 1, Constant {0}); }
VC_PROOF(whole_1_0_2) { whole<1>(0, 2, Constant {0}); }
VC_PROOF(whole_nearest_1_m1_1) { whole<1>(-1, 1, Nearest {}); }
VC_PROOF(whole_nearest_1_m2_0) { whole<1>(-2, 0, Nearest {}); }
VC_PROOF(whole_periodic_1_m1_1) { whole<1>(-1, 1, Period {}); }
VC_PROOF(whole_2_m1_1) { whole<2>(-1, 1, Constant {vc_double("constant", -2, 2)}); }
VC_PROOF(whole_2_0_1) { whole<2>(0, 1, Constant {0}); }
VC_PROOF(whole_nearest_2_m1_1) { whole<2>(-1, 1, Nearest {}); }
VC_PROOF(whole_nearest_2_m1_0) { whole<2>(-1, 0, Nearest {}); }
VC_PROOF(whole_periodic_2_0_1) { whole<2>(0, 1, Period {}); }

#ifndef VC_SYMBOLIC

#include <memory>

// Definition
template <typename T, Index N, typename TIn>
T definition(const T* k, const Box<N>& window, const TIn& in, const Position<N>& p) {
  T sum {};
  const T* v = k;
  for (const auto& q : window) {
    sum += *v++ * in[p + q];
  }
  return sum;
}

template <typename T>
bool close(T a, T b) {
  return std::abs(a - b) <= 1e-9 * (1 + std::abs(a));
}

template <typename T, typename TIn, Index N>
void correlation(Index dim, long hi, long khi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  const auto front = anyPosition<N>("front", dim, -2, 1);
  Position<N> back(dim);
  for (Index i = 0; i < dim; ++i) {
    back[i] = front[i] + vc_long("width", 0, khi - 1);
  }
  const Box<N> window(front, back);
  const long ksize = window.size();
  vc_assume(ksize <= 60);
  const int* k0 = vc_array_int("kernel", ksize);
  std::vector<T> k(ksize);
  for (long i = 0; i < ksize; ++i) {
    k[i] = T(k0[i]) / (std::is_integral<T>::value ? 1 : 2);
  }
  const int* d0 = vc_array_int("data", size);
  std::unique_ptr<TIn[]> d(new TIn[size]);
  for (long i = 0; i < size; ++i) {
    d[i] = TIn(d0[i]) / (std::is_integral<TIn>::value ? 1 : 4);
  }
  const std::vector<TIn> copy(d.get(), d.get() + size);
  const PtrRaster<const TIn, N> in(shape, d.get());
  Raster<TIn, N> own(shape, std::vector<TIn>(copy));
  auto kernel = kernelize(k.data(), window);
  std::unique_ptr<T[]> o(new T[size]);
  PtrRaster<T, N> out(shape, o.get());
  const long method = vc_long("method", 0, 2);
  const auto check = [&](const auto& e) {
    std::fill_n(o.get(), size, T(-999));
    kernel.correlateTo(e, out);
    const auto res = kernel * e;
    vc_assert(samePosition<N>(res.shape(), shape), "shape of the output");
    for (const auto& p : own.domain()) {
      const auto expected = definition<T, N>(k.data(), window, e, p);
      vc_assert(close<T>(out[p], expected), "correlation equal to the definition");
      vc_assert(close<T>(res[p], expected), "correlation equal to the definition, as an operator");
    }
  };
  if (method == 0) {
    check(extrapolate(own, TIn(vc_long("constant", 0, 2))));
  } else if (method == 1) {
    check(extrapolate<NearestNeighbor>(own));
  } else {
    check(extrapolate<Periodic>(own));
  }
  for (long i = 0; i < size; ++i) {
    vc_assert(own[i] == copy[i], "unchanged input");
  }
  const auto r = kernel.raster();
  for (long i = 0; i < ksize; ++i) {
    vc_assert(r.data()[i] == k[i], "unchanged kernel");
  }
}

VC_BOUNDED(correlation_1) { correlation<int, int, 1>(1, 6, 4); }
VC_BOUNDED(correlation_2) { correlation<int, int, 2>(2, 5, 3); }
VC_BOUNDED(correlation_3) { correlation<int, int, 3>(3, 4, 3); }
VC_BOUNDED(correlation_4) { correlation<int, int, 4>(4, 3, 2); }
VC_BOUNDED(correlation_var2) { correlation<int, int, -1>(2, 5, 3); }
VC_BOUNDED(correlation_var3) { correlation<int, int, -1>(3, 4, 3); }
VC_BOUNDED(correlation_double) { correlation<double, double, 2>(2, 5, 3); }
VC_BOUNDED(correlation_double_int) { correlation<double, int, 2>(2, 4, 3); }
VC_BOUNDED(correlation_int_double) {
  // The sum is accumulated in the type of the kernel, with the same rounding inside and along the borders
  const auto shape = anyShape<2>("length", 2, 1, 4);
  Raster<double, 2> own(shape);
  own.range(.5, .25);
  const Box<2> window({-1, -1}, {1, 1});
  std::vector<int> k {1, 2, 3, 4, 5, 6, 7, 8, 9};
  auto kernel = kernelize(k.data(), window);
  const auto e = extrapolate(own, 1.25);
  const auto res = kernel * e;
  for (const auto& p : own.domain()) {
    vc_assert(res[p] == definition<int, 2>(k.data(), window, e, p), "correlation equal to the definition");
  }
}

// Large images
VC_BOUNDED(correlation_large) {
  const Position<2> shape {vc_long("width", 1, 40), vc_long("height", 1, 40)};
  Raster<long, 2> own(shape);
  own.range(1, 3);
  const Position<2> kshape {vc_long("kwidth", 1, 7), vc_long("kheight", 1, 7)};
  Raster<long, 2> k(kshape);
  k.range(-3, 2);
  auto kernel = kernelize(k);
  const auto e = extrapolate<NearestNeighbor>(own);
  const auto res = kernel * e;
  const Box<2> window = k.domain() - kshape / 2;
  vc_assert(kernel.window() == window, "centered window");
  for (const auto& p : own.domain()) {
    vc_assert(res[p] == definition<long, 2>(k.data(), window, e, p), "correlation equal to the definition");
  }
}

#endif
