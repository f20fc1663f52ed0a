// Contracts of the median filter: each output pixel is the median of the neighbors in the window centered at the pixel.
#include "common.h"

#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/MedianFilter.h"

#include <algorithm>
#include <memory>

// m is the median of the n values: the middle value, or the mean of the two middle values
template <long n, typename U, typename T>
VC_INLINE bool isMedian(U m, const T* v) {
  bool out = true;
  const long h = n / 2;
  for (long i = 0; i < n; ++i) {
    long below = 0;
    long upto = 0;
    for (long j = 0; j < n; ++j) {
      below += v[j] < v[i];
      upto += v[j] <= v[i];
    }
    const bool upper = (below <= h) & (upto > h); // v[i] is at rank h in increasing order
    if (n % 2 == 1) {
      out &= !upper | (m == U(v[i]));
    } else {
      for (long k = 0; k < n; ++k) {
        long below2 = 0;
        long upto2 = 0;
        for (long j = 0; j < n; ++j) {
          below2 += v[j] < v[k];
          upto2 += v[j] <= v[k];
        }
        const bool lower = (below2 <= h - 1) & (upto2 > h - 1);
        out &= !(upper & lower) | (m == U((v[k] + v[i]) * .5));
      }
    }
  }
  return out;
}

template <typename T>
VC_INLINE T* anyValues(long n);
template <>
VC_INLINE double* anyValues<double>(long n) {
  return vc_array_double("values", n);
}
template <>
VC_INLINE long* anyValues<long>(long n) {
  return vc_array_long("values", n);
}

// Median of values
template <long K, typename T>
VC_INLINE void median() {
  const T* values = anyValues<T>(K);
  std::vector<T> copy(K);
  for (long i = 0; i < K; ++i) {
    copy[i] = values[i];
  }
  const auto m = MedianFilter<T, 1>::template median<double>(copy);
  vc_assert((isMedian<K, double, T>(m, values)), "median");
}

VC_PROOF(median_1) { median<1, double>(); }
VC_PROOF(median_2) { median<2, double>(); }
VC_PROOF(median_3) { median<3, double>(); }
VC_PROOF(median_4) { median<4, double>(); }
VC_PROOF(median_5) { median<5, double>(); }
VC_PROOF(median_6) { median<6, long>(); }
VC_PROOF(median_7) { median<7, long>(); }
VC_PROOF(median_9) { median<9, double>(); }

// Median at any pixel of a raster of any shape, for given windows
template <Index N, long K, typename TExtrapolator>
VC_INLINE void pixel(const Box<N>& window, const TExtrapolator& in, const Position<N>& shape) {
  double* o = vc_array_double("out", product(shape, shape.size()));
  PtrRaster<double, N> out(shape, o);
  const auto p = anyPosition<N>("p", shape.size(), 0, 3);
  vc_assume(inside(p, shape));
  double neighbors[K];
  long i = 0;
  for (const auto& q : window) {
    neighbors[i] = in[p + q];
    ++i;
  }
  MedianFilter<double, N> filter(window);
  filter.applyTo(in, out, Box<N>(p, p));
  vc_assert((isMedian<K, double, double>(out[p], neighbors)), "median of the neighbors");
}

template <Index N, long K>
VC_INLINE void extrapolated(const Box<N>& window, Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  double* data = vc_array_double("in", size);
  const PtrRaster<double, N> in(shape, data);
  pixel<N, K>(window, extrapolate<NearestNeighbor>(in), shape);
}

VC_PROOF(nearest_1_3) { extrapolated<1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(nearest_1_2) { extrapolated<1, 2>(Box<1>({0}, {1}), 1, 4); }
VC_PROOF(nearest_1_4) { extrapolated<1, 4>(Box<1>({-3}, {0}), 1, 4); }
VC_PROOF(nearest_2_3) { extrapolated<2, 3>(Box<2>({0, -1}, {0, 1}), 2, 3); }
VC_PROOF(nearest_2_2x2) { extrapolated<2, 4>(Box<2>({0, -1}, {1, 0}), 2, 2); }

template <Index N, long K>
VC_INLINE void constant(const Box<N>& window, Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  double* data = vc_array_double("in", size);
  const PtrRaster<double, N> in(shape, data);
  pixel<N, K>(window, extrapolate(in, vc_double("constant", 0, 1)), shape);
}

VC_PROOF(constant_1_3) { constant<1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(constant_2_3) { constant<2, 3>(Box<2>({-1, 0}, {1, 0}), 2, 3); }

// The default window is centered, with length 2 * radius + 1 along all axes
VC_PROOF(radius) {
  double* data = vc_array_double("in", 5);
  double* o = vc_array_double("out", 5);
  const Position<1> shape {5};
  const PtrRaster<double, 1> in(shape, data);
  PtrRaster<double, 1> out(shape, o);
  const auto e = extrapolate<NearestNeighbor>(in);
  MedianFilter<double, 1>().applyTo(e, out, Box<1>({2}, {2}));
  vc_assert((isMedian<3, double, double>(o[2], data + 1)), "default radius");
  MedianFilter<double, 1>(2).applyTo(e, out, Box<1>({2}, {2}));
  vc_assert((isMedian<5, double, double>(o[2], data)), "radius 2");
}

// Whole filters, for any shape and any region: each pixel of the region gets the median of its neighbors, and the other
// pixels are left unchanged
template <Index N, long K, typename TExtrapolator>
VC_INLINE void wholeOf(const Box<N>& window, const TExtrapolator& in, const Position<N>& shape) {
  const long size = product(shape, shape.size());
  double* o = vc_array_double("out", size);
  PtrRaster<double, N> out(shape, o);
  const auto p = anyPosition<N>("p", shape.size(), 0, 3);
  vc_assume(inside(p, shape));
  MedianFilter<double, N> filter(window);
  filter.applyTo(in, out);
  double neighbors[K];
  long i = 0;
  for (const auto& q : window) {
    neighbors[i] = in[p + q];
    ++i;
  }
  vc_assert((isMedian<K, double, double>(out[p], neighbors)), "median of the neighbors");
}

template <Index N, long K, typename TExtrapolator>
VC_INLINE void regionOf(const Box<N>& window, const TExtrapolator& in, const Position<N>& shape) {
  const Index dim = shape.size();
  const long size = product(shape, dim);
  double* o = vc_array_double("out", size);
  PtrRaster<double, N> out(shape, o);
  const auto p = anyPosition<N>("p", dim, 0, 3);
  vc_assume(inside(p, shape));
  const double before = out[p];
  const auto front = anyPosition<N>("front", dim, 0, 3);
  const auto extent = anyPosition<N>("extent", dim, 1, 3);
  auto back = front;
  long extents = 1;
  for (Index i = 0; i < dim; ++i) {
    back[i] += extent[i] - 1;
    extents *= extent[i];
  }
  vc_assume(inside(front, shape) & inside(back, shape));
  vc_assume(extents < VC_MAX);
  MedianFilter<double, N> filter(window);
  filter.applyTo(in, out, Box<N>(front, back));
  for (Index i = 0; i < dim; ++i) {
    vc_split(p[i] < front[i]);
    vc_split(p[i] > back[i]);
  }
  if (insideBox(p, front, back)) {
    double neighbors[K];
    long i = 0;
    for (const auto& q : window) {
      neighbors[i] = in[p + q];
      ++i;
    }
    vc_assert((isMedian<K, double, double>(out[p], neighbors)), "median of the neighbors");
  } else {
    vc_assert(out[p] == before, "unchanged outside the region");
  }
}

// The filtered raster
template <Index N, long K, typename TExtrapolator>
VC_INLINE void newOf(const Box<N>& window, const TExtrapolator& in, const Position<N>& shape) {
  const auto p = anyPosition<N>("p", shape.size(), 0, 3);
  vc_assume(inside(p, shape));
  MedianFilter<double, N> filter(window);
  const auto out = filter.apply(in);
  vc_assert(samePosition<N>(out.shape(), shape), "shape of the input");
  double neighbors[K];
  long i = 0;
  for (const auto& q : window) {
    neighbors[i] = in[p + q];
    ++i;
  }
  vc_assert((isMedian<K, double, double>(out[p], neighbors)), "median of the neighbors");
}

template <int How, Index N, long K, typename TExtrapolator>
VC_INLINE void filterOf(const Box<N>& window, const TExtrapolator& in, const Position<N>& shape) {
  if (How == 0) {
    wholeOf<N, K>(window, in, shape);
  } else if (How == 1) {
    regionOf<N, K>(window, in, shape);
  } else {
    newOf<N, K>(window, in, shape);
  }
}

template <int How, Index N, long K>
VC_INLINE void whole(const Box<N>& window, Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  double* data = vc_array_double("in", size);
  const PtrRaster<double, N> in(shape, data);
  filterOf<How, N, K>(window, extrapolate<NearestNeighbor>(in), shape);
}

template <int How, Index N, long K>
VC_INLINE void wholeConstant(const Box<N>& window, Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  double* data = vc_array_double("in", size);
  const PtrRaster<double, N> in(shape, data);
  filterOf<How, N, K>(window, extrapolate(in, vc_double("constant", 0, 1)), shape);
}

template <int How, Index N, long K>
VC_INLINE void wholePeriodic(const Box<N>& window, Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  double* data = vc_array_double("in", size);
  const PtrRaster<double, N> in(shape, data);
  filterOf<How, N, K>(window, extrapolate<Periodic>(in), shape);
}

VC_PROOF(whole_1_1) { whole<0, 1, 1>(Box<1>({0}, {0}), 1, 4); }
VC_PROOF(whole_1_2) { whole<0, 1, 2>(Box<1>({0}, {1}), 1, 4); }
VC_PROOF(whole_1_3) { whole<0, 1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(whole_2_2) { whole<0, 2, 2>(Box<2>({-1, 0}, {0, 0}), 2, 3); }
VC_PROOF(whole_2_3) { whole<0, 2, 3>(Box<2>({0, -1}, {0, 1}), 2, 3); }
VC_PROOF(whole_2_2x2) { whole<0, 2, 4>(Box<2>({0, -1}, {1, 0}), 2, 3); }
VC_PROOF(whole_2_3x2) { whole<0, 2, 6>(Box<2>({-1, -1}, {1, 0}), 2, 3); }
VC_PROOF(whole_2_3x3) { whole<0, 2, 9>(Box<2>({-1, -1}, {1, 1}), 2, 3); }
VC_PROOF(whole_3_2) { whole<0, 3, 2>(Box<3>({0, 0, -1}, {0, 0, 0}), 3, 2); }
VC_PROOF(whole_3_2x2) { whole<0, 3, 4>(Box<3>({0, -1, 0}, {1, 0, 0}), 3, 2); }
VC_PROOF(whole_var1) { whole<0, -1, 3>(Box<-1>({-1}, {1}), 1, 4); }
VC_PROOF(whole_var2) { whole<0, -1, 3>(Box<-1>({-1, 0}, {1, 0}), 2, 3); }
VC_PROOF(region_1_3) { whole<1, 1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(region_2_2) { whole<1, 2, 2>(Box<2>({-1, 0}, {0, 0}), 2, 3); }
VC_PROOF(region_2_3) { whole<1, 2, 3>(Box<2>({0, -1}, {0, 1}), 2, 3); }
VC_PROOF(region_2_2x2) { whole<1, 2, 4>(Box<2>({0, -1}, {1, 0}), 2, 3); }
VC_PROOF(region_3_2) { whole<1, 3, 2>(Box<3>({0, 0, -1}, {0, 0, 0}), 3, 2); }
VC_PROOF(region_var2) { whole<1, -1, 2>(Box<-1>({-1, 0}, {0, 0}), 2, 3); }
VC_PROOF(apply_1_3) { whole<2, 1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(apply_2_3) { whole<2, 2, 3>(Box<2>({-1, 0}, {1, 0}), 2, 3); }
VC_PROOF(apply_2_2x2) { whole<2, 2, 4>(Box<2>({0, -1}, {1, 0}), 2, 3); }
VC_PROOF(apply_var2) { whole<2, -1, 3>(Box<-1>({-1, 0}, {1, 0}), 2, 3); }
VC_PROOF(whole_constant_1_3) { wholeConstant<0, 1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(whole_constant_2_2) { wholeConstant<0, 2, 2>(Box<2>({-1, 0}, {0, 0}), 2, 3); }
VC_PROOF(whole_constant_2_3) { wholeConstant<0, 2, 3>(Box<2>({0, -1}, {0, 1}), 2, 3); }
VC_PROOF(whole_periodic_1_3) { wholePeriodic<0, 1, 3>(Box<1>({-1}, {1}), 1, 4); }
VC_PROOF(whole_periodic_2_2) { wholePeriodic<0, 2, 2>(Box<2>({-1, 0}, {0, 0}), 2, 3); }

// Without extrapolation, inside the raster
VC_PROOF(inner_1) {
  const long n = vc_long("length", 3, 8);
  vc_assume(n >= 3 && n < VC_MAX);
  double* data = vc_array_double("in", n);
  const PtrRaster<double, 1> in({n}, data);
  double* o = vc_array_double("out", n);
  PtrRaster<double, 1> out({n}, o);
  const long p = vc_long("p", 0, 7);
  vc_assume(p >= 0 && p < n);
  const double before = o[p];
  MedianFilter<double, 1>().applyTo(in, out, Box<1>({1}, {n - 2}));
  if (p >= 1 && p <= n - 2) {
    vc_assert((isMedian<3, double, double>(o[p], data + p - 1)), "median of the neighbors");
  } else {
    vc_assert(o[p] == before, "unchanged outside the region");
  }
}

#ifndef VC_SYMBOLIC

template <typename T>
double definition(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  const auto n = v.size();
  return n % 2 == 1 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) * .5;
}

template <typename TIn, Index N>
void filter(Index dim, long hi, long whi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  Position<N> wfront(dim);
  Position<N> wback(dim);
  for (Index i = 0; i < dim; ++i) {
    wfront[i] = vc_long("front", 1 - whi, 1);
    wback[i] = wfront[i] + vc_long("wlength", 1, whi) - 1;
  }
  const Box<N> window(wfront, wback);
  const long size = product(shape, dim);
  const int* d0 = vc_array_int("in", size);
  std::vector<TIn> d(d0, d0 + size);
  Raster<TIn, N> in(shape, std::vector<TIn>(d));
  const long constant = vc_long("constant", 0, 3);
  const bool whole = vc_bool("whole");
  const auto check = [&](const auto& e) {
    // Exact allocations, such that accesses out of the bounds are detected
    std::unique_ptr<double[]> o(new double[size]);
    std::fill_n(o.get(), size, -999);
    PtrRaster<double, N> out(shape, o.get());
    MedianFilter<TIn, N> f(window);
    auto region = in.domain();
    if (whole) {
      f.applyTo(e, out);
    } else {
      region = Box<N>(shape / 2, shape - 1);
      f.applyTo(e, out, region);
    }
    const auto res = f.apply(e);
    vc_assert(samePosition<N>(res.shape(), shape), "shape of the output");
    for (const auto& p : in.domain()) {
      std::vector<TIn> neighbors;
      for (const auto& q : window) {
        neighbors.push_back(e[p + q]);
      }
      const auto expected = definition(neighbors);
      vc_assert(res[p] == TIn(expected), "median of the neighbors");
      bool selected = true;
      for (Index i = 0; i < dim; ++i) {
        selected = selected && p[i] >= region.front()[i] && p[i] <= region.back()[i];
      }
      vc_assert(out[p] == (selected ? expected : -999), "median of the neighbors in the region only");
    }
  };
  check(extrapolate<NearestNeighbor>(in));
  check(extrapolate(in, TIn(constant)));
  check(extrapolate<Periodic>(in));
  for (long i = 0; i < size; ++i) {
    vc_assert(in[i] == d[i], "unchanged input");
  }
}

VC_BOUNDED(filter_1) { filter<int, 1>(1, 6, 4); }
VC_BOUNDED(filter_2) { filter<int, 2>(2, 4, 3); }
VC_BOUNDED(filter_2_double) { filter<double, 2>(2, 4, 3); }
VC_BOUNDED(filter_3) { filter<int, 3>(3, 3, 2); }
VC_BOUNDED(filter_var2) { filter<int, -1>(2, 4, 3); }

// Without extrapolation, inside the raster
VC_BOUNDED(inner) {
  const auto shape = anyShape<2>("length", 2, 3, 6);
  const long size = product(shape, 2);
  int* d = vc_array_int("in", size);
  std::unique_ptr<int[]> c(new int[size]);
  std::copy(d, d + size, c.get());
  const PtrRaster<int, 2> in(shape, c.get());
  Raster<double, 2> out(shape);
  MedianFilter<int, 2> f(vc_bool("default") ? MedianFilter<int, 2>() : MedianFilter<int, 2>(1));
  const Box<2> region({1, 1}, shape - 2);
  f.applyTo(in, out, region);
  for (const auto& p : region) {
    std::vector<int> v;
    for (long y = -1; y <= 1; ++y) {
      for (long x = -1; x <= 1; ++x) {
        v.push_back(d[p[0] + x + (p[1] + y) * shape[0]]);
      }
    }
    vc_assert(out[p] == definition(v), "median of the 3x3 neighbors");
  }
}

#endif
