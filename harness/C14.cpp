// Contracts of line and separable kernels: each output sample is the sum over the kernel elements j of
// kernel[j] * in[i + j - origin], restricted to the input range; nothing else is read or written.
#include "common.h"

#include "LitlContainer/Sequence.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/SeparableKernel.h"

#include <memory>

// Construction
VC_PROOF(construction) {
  const long size = vc_long("size", 1, 5);
  vc_assume(size >= 1 && size < VC_MAX);
  const int* values = vc_array_int("values", size);
  const long origin = vc_long("origin", 0, 4);
  vc_assume(origin >= 0 && origin < size);
  const long i = vc_long("i", 0, 4);
  vc_assume(i >= 0 && i < size);
  const LineKernel<int> k(std::vector<int>(values, values + size), origin);
  vc_assert(k.origin() == origin && k.originData() == k.data() + origin, "origin");
  vc_assert(long(k.size()) == size && k[i] == values[i], "values");
  vc_assert(k.window().front() == -origin, "front of the window");
  vc_assert(k.window().back() == size - 1 - origin, "back of the window");
  vc_assert(long(k.window().size()) == size, "size of the window");
  const LineKernel<int> c(std::vector<int>(values, values + size));
  vc_assert(c.origin() == size / 2, "centered origin");
  vc_assert(long(c.size()) == size && c[i] == values[i], "values of the centered kernel");
  const auto w = kernelize(values, Segment(-origin, size - 1 - origin));
  vc_assert(w.origin() == origin && long(w.size()) == size && w[i] == values[i], "kernel from values and window");
  const Kernel1d<int> d(std::vector<int>(values, values + size), origin);
  vc_assert(d.backward() == origin && d.forward() == size - 1 - origin, "backward and forward sizes");
  vc_assert(d.originData() == d.data() + origin && d[i] == values[i], "values of the 1D kernel");
}

VC_PROOF(segment) {
  const long front = vc_long("front", -3, 3);
  const long size = vc_long("size", 1, 4);
  vc_assume(front > -VC_MAX && front < VC_MAX && size >= 1 && size < VC_MAX);
  const auto s = Segment::fromSize(front, size);
  vc_assert(s.front() == front && s.back() == front + size - 1 && long(s.size()) == size, "segment from its size");
}

// Lines of any length and strides, for given kernel sizes and origins
template <long K, long O, bool Old>
VC_INLINE void line() {
  const long n = vc_long("length", 1, 6);
  vc_assume(n >= 1 && n < VC_MAX);
  const long stride = vc_long("stride", 1, 3);
  const long ostride = vc_long("ostride", 1, 3);
  vc_assume(stride >= 1 && stride < VC_MAX && ostride >= 1 && ostride < VC_MAX);
  const long isize = (n - 1) * stride + 1;
  const long osize = (n - 1) * ostride + 1;
  vc_assume(isize > 0 && isize < VC_MAX && osize > 0 && osize < VC_MAX);
  const long* in = vc_array_long("in", isize);
  long* out = vc_array_long("out", osize);
  const long* values = vc_array_long("values", K);
  const DataSamples<const long> inSamples(in, n, {}, stride);
  DataSamples<long> outSamples(out, n, {}, ostride);
  const long q = vc_long("q", 0, 5);
  const long b = vc_long("b", 1, 2);
  vc_assume(q >= 0 && q < n && b > 0 && b < ostride);
  const long o = q * ostride + b; // Between samples
  vc_assume(o < osize);
  const long other = out[o];
  std::vector<long> v(K);
  for (long j = 0; j < K; ++j) {
    v[j] = values[j];
  }
  if (Old) {
    const Kernel1d<long> k(v, O);
    k.sparseCorrelate1dTo(inSamples, outSamples);
  } else {
    const LineKernel<long> k(v, O);
    k.correlate(inSamples, outSamples);
  }
  const long i = vc_long("i", 0, 5);
  vc_assume(i >= 0 && i < n);
  long sum = 0;
  for (long j = 0; j < K; ++j) {
    const long s = i + j - O;
    if (s >= 0 && s < n) {
      sum += values[j] * in[s * stride];
    }
  }
  vc_assert(out[i * ostride] == sum, "zero-padded correlation");
  vc_assert(out[o] == other, "only the output samples are written");
}

// Contiguous lines
template <long K, long O>
VC_INLINE void contiguous() {
  const long n = vc_long("length", 1, 6);
  vc_assume(n >= 1 && n < VC_MAX);
  const long* in = vc_array_long("in", n);
  long* out = vc_array_long("out", n);
  const long* values = vc_array_long("values", K);
  const DataSamples<const long> inSamples(in, n);
  DataSamples<long> outSamples(out, n);
  std::vector<long> v(K);
  for (long j = 0; j < K; ++j) {
    v[j] = values[j];
  }
  const LineKernel<long> k(v, O);
  k.correlate(inSamples, outSamples);
  const long i = vc_long("i", 0, 5);
  vc_assume(i >= 0 && i < n);
  for (long j = 0; j < K; ++j) {
    vc_split(i == j);
    vc_split(n - i == j);
  }
  long sum = 0;
  for (long j = 0; j < K; ++j) {
    const long s = i + j - O;
    if (s >= 0 && s < n) {
      sum += values[j] * in[s];
    }
  }
  vc_assert(out[i] == sum, "zero-padded correlation");
}

VC_PROOF(contiguous_1_0) { contiguous<1, 0>(); }
VC_PROOF(contiguous_2_0) { contiguous<2, 0>(); }
VC_PROOF(contiguous_2_1) { contiguous<2, 1>(); }
VC_PROOF(contiguous_3_0) { contiguous<3, 0>(); }
VC_PROOF(contiguous_3_1) { contiguous<3, 1>(); }
VC_PROOF(contiguous_3_2) { contiguous<3, 2>(); }
VC_PROOF(contiguous_5_2) { contiguous<5, 2>(); }
VC_PROOF(strided_1_0) { line<1, 0, false>(); }
VC_PROOF(strided_2_0) { line<2, 0, false>(); }
VC_PROOF(strided_2_1) { line<2, 1, false>(); }
VC_PROOF(strided_3_1) { line<3, 1, false>(); }
VC_PROOF(strided_3_2) { line<3, 2, false>(); }
VC_PROOF(strided_5_2) { line<5, 2, false>(); }
VC_PROOF(strided_4_0) { line<4, 0, false>(); }
VC_PROOF(kernel1d_3_1) { line<3, 1, true>(); }

// Whole rasters of any shape, along an axis: what operator* returns at any position
template <Index N, Index A, long K, long O>
VC_INLINE void whole() {
  Position<N> s;
  long n = 1;
  for (Index i = 0; i < N; ++i) {
    s[i] = vc_long("length", 1, 4);
    vc_assume(s[i] >= 1 && s[i] < VC_MAX);
    n *= s[i];
    vc_assume(n > 0 && n < VC_MAX);
  }
  const long* d = vc_array_long("in", n);
  const long* values = vc_array_long("values", K);
  const PtrRaster<const long, N> in(s, d);
  std::vector<long> v(K);
  for (long j = 0; j < K; ++j) {
    v[j] = values[j];
  }
  const LineKernel<long> k(v, O);
  const Raster<long, N> out = k.template along<A>() * in;
  const auto p = anyPosition<N>("p", N, 0, 3);
  vc_assume(inside(p, s));
  long sum = 0;
  for (long j = 0; j < K; ++j) {
    const long q = p[A] + j - O;
    if (q >= 0 && q < s[A]) {
      auto r = p;
      r[A] = q;
      sum += values[j] * d[rowMajor(r, s)];
    }
  }
  vc_assert(out[p] == sum, "zero-padded correlation of every line along the axis");
}

VC_PROOF(whole_1_0_k2) { whole<1, 0, 2, 0>(); }
VC_PROOF(whole_2_0_k2) { whole<2, 0, 2, 1>(); }
VC_PROOF(whole_2_1_k2) { whole<2, 1, 2, 0>(); }
VC_PROOF(whole_2_0_k3) { whole<2, 0, 3, 1>(); }
VC_PROOF(whole_2_1_k3) { whole<2, 1, 3, 1>(); }
VC_PROOF(whole_3_0_k2) { whole<3, 0, 2, 0>(); }
VC_PROOF(whole_3_1_k2) { whole<3, 1, 2, 0>(); }
VC_PROOF(whole_3_2_k2) { whole<3, 2, 2, 0>(); }

// Whole rasters of any shape, along axis A0 then along axis A1
template <Index A0, long K0, long O0, Index A1, long K1, long O1>
VC_INLINE void composition() {
  const long s[] {vc_long("length0", 1, 4), vc_long("length1", 1, 4)};
  vc_assume(s[0] >= 1 && s[0] < VC_MAX && s[1] >= 1 && s[1] < VC_MAX);
  const long n = s[0] * s[1];
  vc_assume(n > 0 && n < VC_MAX);
  const long* d = vc_array_long("in", n);
  const long* a = vc_array_long("a", K0);
  const long* b = vc_array_long("b", K1);
  const PtrRaster<const long, 2> in({s[0], s[1]}, d);
  std::vector<long> va(K0), vb(K1);
  for (long j = 0; j < K0; ++j) {
    va[j] = a[j];
  }
  for (long j = 0; j < K1; ++j) {
    vb[j] = b[j];
  }
  const auto k = LineKernel<long>(va, O0).template along<A0>() * LineKernel<long>(vb, O1).template along<A1>();
  const Raster<long, 2> out = k * in;
  const long x = vc_long("x", 0, 3);
  const long y = vc_long("y", 0, 3);
  vc_assume(x >= 0 && x < s[0] && y >= 0 && y < s[1]);
  vc_split(x == 0);
  vc_split(y == 0);
  vc_split(x + 1 == s[0]);
  vc_split(y + 1 == s[1]);
  long sum = 0;
  for (long j = 0; j < K1; ++j) {
    long p[] {x, y};
    p[A1] += j - O1;
    if (p[A1] >= 0 && p[A1] < s[A1]) {
      long line = 0;
      for (long i = 0; i < K0; ++i) {
        long q[] {p[0], p[1]};
        q[A0] += i - O0;
        if (q[A0] >= 0 && q[A0] < s[A0]) {
          line += a[i] * d[q[0] + s[0] * q[1]];
        }
      }
      sum += b[j] * line;
    }
  }
  vc_assert(out[{x, y}] == sum, "zero-padded correlations one after the other");
}

VC_PROOF(composition_01_k1) { composition<0, 1, 0, 1, 1, 0>(); }
VC_PROOF(composition_01) { composition<0, 2, 0, 1, 2, 1>(); }
VC_PROOF(composition_10) { composition<1, 2, 1, 0, 2, 0>(); }
VC_PROOF(composition_11) { composition<1, 2, 0, 1, 2, 1>(); }

// The ND kernel equivalent to line kernels of any values
template <long K0, long O0, long K1, long O1>
VC_INLINE void composedKernel() {
  const long* a = vc_array_long("a", K0);
  const long* b = vc_array_long("b", K1);
  std::vector<long> va(K0), vb(K1);
  for (long j = 0; j < K0; ++j) {
    va[j] = a[j];
  }
  for (long j = 0; j < K1; ++j) {
    vb[j] = b[j];
  }
  const auto s = LineKernel<long>(va, O0).template along<0>() * LineKernel<long>(vb, O1).template along<1>();
  const auto k = s.compose();
  const Box<2> window({-O0, -O1}, {K0 - 1 - O0, K1 - 1 - O1});
  vc_assert(k.window().front()[0] == window.front()[0] && k.window().front()[1] == window.front()[1], "front of the window");
  vc_assert(k.window().back()[0] == window.back()[0] && k.window().back()[1] == window.back()[1], "back of the window");
  vc_assert(s.window().front()[0] == window.front()[0] && s.window().front()[1] == window.front()[1], "front");
  vc_assert(s.window().back()[0] == window.back()[0] && s.window().back()[1] == window.back()[1], "back");
  const auto values = k.raster();
  for (long j = 0; j < K1; ++j) {
    for (long i = 0; i < K0; ++i) {
      vc_assert(values[{i, j}] == a[i] * b[j], "value of the composed kernel");
    }
  }
}

VC_PROOF(compose_22) { composedKernel<2, 0, 2, 1>(); }
VC_PROOF(compose_32) { composedKernel<3, 1, 2, 0>(); }
VC_PROOF(compose_13) { composedKernel<1, 0, 3, 2>(); }

// Coefficients of the named kernels, for each sign
template <typename TKernel>
VC_INLINE bool coefficients(const TKernel& k, Index axis, long a, long b, long c) {
  const auto& l = k[axis];
  return l.size() == 3 && l.origin() == 1 && l.begin()[0] == a && l.begin()[1] == b && l.begin()[2] == c;
}

VC_PROOF(named_coefficients) {
  const long s = vc_long("sign", -2, 2);
  vc_assume(s > -VC_MAX && s < VC_MAX);
  using K = SeparableKernel<long, 0, 1>;
  vc_assert(coefficients(K::prewitt(), 0, 1, 0, -1) && coefficients(K::prewitt(), 1, 1, 1, 1), "Prewitt");
  vc_assert(coefficients(K::sobel(), 0, 1, 0, -1) && coefficients(K::sobel(), 1, 1, 2, 1), "Sobel");
  vc_assert(coefficients(K::scharr(), 0, 1, 0, -1) && coefficients(K::scharr(), 1, 3, 10, 3), "Scharr");
  vc_assert(coefficients(K::laplacian(), 0, 1, -2, 1) && coefficients(K::laplacian(), 1, 1, -2, 1), "Laplacian");
  vc_assert(coefficients(K::prewitt(s), 0, s, 0, -s) && coefficients(K::prewitt(s), 1, 1, 1, 1), "Prewitt, any sign");
  vc_assert(coefficients(K::sobel(s), 0, s, 0, -s) && coefficients(K::sobel(s), 1, 1, 2, 1), "Sobel, any sign");
  vc_assert(coefficients(K::scharr(s), 0, s, 0, -s) && coefficients(K::scharr(s), 1, 3, 10, 3), "Scharr, any sign");
  vc_assert(coefficients(K::laplacian(s), 0, s, -2 * s, s) && coefficients(K::laplacian(s), 1, s, -2 * s, s), "Laplacian, any sign");
}

// Both sides of the derivation axis
VC_PROOF(named_axes) {
  using K = SeparableKernel<long, 1, 0, 2>;
  const auto k = K::sobel(-1);
  vc_assert(coefficients(k, 1, -1, 0, 1) && coefficients(k, 0, 1, 2, 1) && coefficients(k, 2, 1, 2, 1), "Sobel along three axes");
}

#ifndef VC_SYMBOLIC

// Any kernel, line, step and strides, with exactly allocated data
template <typename T, typename TIn, typename TOut, bool Old>
void samples() {
  const long k = vc_long("kernel", 1, 4);
  const long origin = vc_long("origin", 0, 3);
  const long n = vc_long("length", 1, 7);
  const long front = vc_long("front", 0, 6);
  const long back = vc_long("back", 0, 6);
  const long step = vc_long("step", 1, 3);
  const long stride = vc_long("stride", 1, 2);
  const long ostep = vc_long("ostep", 1, 2);
  const long ostride = vc_long("ostride", 1, 2);
  const long ofront = vc_long("ofront", 0, 1);
  vc_assume(origin < k && front <= back && back < n);
  const long count = (back - front) / step + 1;
  const long on = ofront + (count - 1) * ostep + 1;
  const long isize = (n - 1) * stride + 1;
  const long osize = (on - 1) * ostride + 1;
  std::unique_ptr<TIn[]> in(new TIn[isize]);
  std::unique_ptr<TOut[]> out(new TOut[osize]);
  const int* d = vc_array_int("in", isize);
  for (long i = 0; i < isize; ++i) {
    in[i] = TIn(d[i]);
  }
  for (long i = 0; i < osize; ++i) {
    out[i] = TOut(1000 + i);
  }
  const int* kv = vc_array_int("values", k);
  std::vector<T> values(k);
  for (long i = 0; i < k; ++i) {
    values[i] = T(kv[i]) / (std::is_integral<T>::value ? 1 : 2);
  }
  const DataSamples<const TIn> inSamples(in.get(), n, {front, back == n - 1 && vc_bool("inf") ? Limits<Index>::inf() : back, step}, stride);
  DataSamples<TOut> outSamples(out.get(), on, {ofront, Limits<Index>::inf(), ostep}, ostride);
  if (Old) {
    Kernel1d<T>(values, origin).sparseCorrelate1dTo(inSamples, outSamples);
  } else {
    LineKernel<T>(values, origin).correlate(inSamples, outSamples);
  }
  for (long i = 0; i < osize; ++i) {
    TOut expected = TOut(1000 + i);
    if (i % ostride == 0 && i / ostride >= ofront && (i / ostride - ofront) % ostep == 0) {
      const long c = (i / ostride - ofront) / ostep;
      const long center = front + c * step;
      T sum {};
      for (long j = 0; j < k; ++j) {
        const long s = center + j - origin;
        if (s >= 0 && s < n) {
          sum += values[j] * in[s * stride];
        }
      }
      expected = TOut(sum);
    }
    vc_assert(out[i] == expected, "zero-padded correlation of the samples, and nothing else");
  }
  for (long i = 0; i < isize; ++i) {
    vc_assert(in[i] == TIn(d[i]), "unchanged input");
  }
}

VC_BOUNDED(samples_int) { samples<int, int, int, false>(); }
VC_BOUNDED(samples_double) { samples<double, int, double, false>(); }
VC_BOUNDED(samples_kernel1d_int) { samples<int, int, int, true>(); }
VC_BOUNDED(samples_kernel1d_float) { samples<float, int, double, true>(); }

// In place lines of a raster
template <Index Axis, Index N>
Raster<int, N> alongAxis(const std::vector<int>& k, long origin, const Raster<int, N>& in) {
  Raster<int, N> out(in.shape());
  for (const auto& p : in.domain()) {
    int sum = 0;
    for (long j = 0; j < long(k.size()); ++j) {
      auto q = p;
      q[Axis] += j - origin;
      if (q[Axis] >= 0 && q[Axis] < in.shape()[Axis]) {
        sum += k[j] * in[q];
      }
    }
    out[p] = sum;
  }
  return out;
}

struct Line {
  std::vector<int> k;
  long origin;
};

Line anyLine() {
  const long size = vc_long("kernel", 1, 4);
  const long origin = vc_long("origin", 0, 3);
  vc_assume(origin < size);
  const int* v = vc_array_int("values", size);
  return {std::vector<int>(v, v + size), origin};
}

template <Index N>
Raster<int, N> anyRaster(Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  const long size = product(shape, dim);
  const int* d = vc_array_int("data", size);
  return Raster<int, N>(shape, std::vector<int>(d, d + size));
}

template <Index N, Index A>
void axis(long hi) {
  const auto in = anyRaster<N>(N, hi);
  const auto l = anyLine();
  const auto expected = alongAxis<A>(l.k, l.origin, in);
  vc_assert(LineKernel<int>(l.k, l.origin).template along<A>() * in == expected, "every line along the axis");
  vc_assert(Kernel1d<int>(l.k, l.origin).template correlateAlong<A>(in) == expected, "every line, with the 1D kernel");
}

VC_BOUNDED(axis_1_0) { axis<1, 0>(7); }
VC_BOUNDED(axis_2_0) { axis<2, 0>(4); }
VC_BOUNDED(axis_2_1) { axis<2, 1>(4); }
VC_BOUNDED(axis_3_0) { axis<3, 0>(3); }
VC_BOUNDED(axis_3_1) { axis<3, 1>(3); }
VC_BOUNDED(axis_3_2) { axis<3, 2>(3); }

template <typename TSep, Index N>
void checkComposed(const TSep& s, const Raster<int, N>& in, const Raster<int, N>& expected) {
  auto k = s.compose();
  vc_assert(k.window() == s.window(), "window of the composed kernel");
  vc_assert(k * extrapolate(in, 0) == expected, "the composed kernel is equivalent");
}

// One line kernel after the other; the order of the axes does not matter
VC_BOUNDED(separable_2) {
  const auto in = anyRaster<2>(2, 4);
  const auto a = anyLine();
  const auto b = anyLine();
  const LineKernel<int> ka(a.k, a.origin);
  const LineKernel<int> kb(b.k, b.origin);
  const auto ab = ka.along<0>() * kb.along<1>();
  const auto expected = alongAxis<1>(b.k, b.origin, alongAxis<0>(a.k, a.origin, in));
  vc_assert(ab * in == expected, "along the first then second axes");
  vc_assert((kb.along<1>() * ka.along<0>()) * in == expected, "along the second then first axes");
  vc_assert(ka.along<0>() * (kb.along<1>() * in) == expected, "one after the other");
  vc_assert(
      ka.along<0, 1>() * in == alongAxis<1>(a.k, a.origin, alongAxis<0>(a.k, a.origin, in)),
      "the same line kernel along both axes");
  vc_assert(ab[0].origin() == a.origin && ab[1].origin() == b.origin, "line kernel along an axis");
  Raster<int, 2> out(in.shape());
  ab.correlateTo(in, out);
  vc_assert(out == expected, "into an existing raster");
  checkComposed(ab, in, expected);
}

VC_BOUNDED(separable_1) {
  const auto in = anyRaster<1>(1, 6);
  const auto a = anyLine();
  const auto s = LineKernel<int>(a.k, a.origin).along<0>();
  const auto expected = alongAxis<0>(a.k, a.origin, in);
  vc_assert(s * in == expected, "along the axis");
  vc_assert(s.window() == Box<1>({-a.origin}, {long(a.k.size()) - 1 - a.origin}), "window");
  checkComposed(s, in, expected);
}

VC_BOUNDED(separable_3) {
  const auto in = anyRaster<3>(3, 3);
  const auto a = anyLine();
  const auto b = anyLine();
  const LineKernel<int> ka(a.k, a.origin);
  const LineKernel<int> kb(b.k, b.origin);
  const auto s = kb.along<2, 0>() * ka.along<1>();
  const auto expected = alongAxis<1>(a.k, a.origin, alongAxis<0>(b.k, b.origin, alongAxis<2>(b.k, b.origin, in)));
  vc_assert(s * in == expected, "along the three axes");
}

// Several line kernels along the same axis
VC_BOUNDED(separable_same_axis) {
  const auto in = anyRaster<2>(2, 5);
  const auto a = anyLine();
  const auto b = anyLine();
  const auto s = LineKernel<int>(a.k, a.origin).along<1>() * LineKernel<int>(b.k, b.origin).along<1>();
  vc_assert(s * in == alongAxis<1>(b.k, b.origin, alongAxis<1>(a.k, a.origin, in)), "one after the other");
}

VC_BOUNDED(named) {
  const auto in = anyRaster<2>(2, 5);
  const int sign = vc_bool("negative") ? -1 : 1;
  const std::vector<int> d {sign, 0, -sign};
  const auto along = [&](const std::vector<int>& d0, const std::vector<int>& d1) {
    return alongAxis<1>(d1, 1, alongAxis<0>(d0, 1, in));
  };
  vc_assert(SeparableKernel<int, 0, 1>::sobel(sign) * in == along(d, {1, 2, 1}), "Sobel along the first axis");
  vc_assert(SeparableKernel<int, 1, 0>::sobel(sign) * in == along({1, 2, 1}, d), "Sobel along the second axis");
  vc_assert(SeparableKernel<int, 0, 1>::prewitt(sign) * in == along(d, {1, 1, 1}), "Prewitt");
  vc_assert(SeparableKernel<int, 0, 1>::scharr(sign) * in == along(d, {3, 10, 3}), "Scharr");
  const std::vector<int> l {sign, -2 * sign, sign};
  vc_assert(SeparableKernel<int, 0, 1>::laplacian(sign) * in == along(l, l), "Laplacian");
}

// Other ways to make line kernels, access to the line kernels of a separable one
VC_BOUNDED(made) {
  const auto in = anyRaster<1>(1, 6);
  const auto l = anyLine();
  const Sequence<int> s(l.k);
  const auto k = kernelize(s, l.origin);
  vc_assert(k.along<0>() * in == alongAxis<0>(l.k, l.origin, in), "from a sequence, with an origin");
  const auto c = kernelize(s);
  vc_assert(c.along<0>() * in == alongAxis<0>(l.k, long(l.k.size()) / 2, in), "from a sequence, with the default origin");
  vc_assert(c.origin() == long(l.k.size()) / 2, "default origin");
  const LineKernel<int> d(l.k);
  vc_assert(d.origin() == long(l.k.size()) / 2, "default origin of a vector");
  const auto sep = k.along<1>();
  bool thrown = false;
  try {
    sep[0];
  } catch (const std::exception&) {
    thrown = true;
  }
  vc_assert(thrown && sep[1].origin() == l.origin && long(sep[1].size()) == long(l.k.size()), "only the given axis");
  vc_assert(sep.end() - sep.begin() == 1 && sep.begin()->first == 1, "list of line kernels");
}

// Along the first two axes, with steps
VC_BOUNDED(correlate_2d) {
  const auto in = anyRaster<2>(2, 5);
  const auto a = anyLine();
  const Position<2> front {vc_long("front0", 0, 2), vc_long("front1", 0, 2)};
  const Position<2> step {vc_long("step0", 1, 3), vc_long("step1", 1, 2)};
  vc_assume(front[0] < in.shape()[0] && front[1] < in.shape()[1]);
  const Position<2> back = in.shape() - 1;
  const PositionSampling<2> sampling(Box<2>(front, back), step);
  Raster<int, 2> out(sampling.shape());
  Kernel1d<int>(a.k, a.origin).sparseCorrelate2dTo(in, sampling, out);
  const auto expected = alongAxis<1>(a.k, a.origin, alongAxis<0>(a.k, a.origin, in));
  for (const auto& p : out.domain()) {
    vc_assert(out[p] == expected[{p[0] * step[0] + front[0], p[1] * step[1] + front[1]}], "sampled correlation along both axes");
  }
  Raster<int, 2> full(in.shape());
  Kernel1d<int>(a.k, a.origin).correlate2dTo(in, full);
  vc_assert(full == expected, "correlation along both axes");
}

#endif
