// Contracts of the distribution of the values of a container: order statistics, quantiles, moments, histogram.
#include "common.h"

#include "LitlContainer/DataDistribution.h"
#include "LitlContainer/Sequence.h"

#include <algorithm>
#include <cmath>
#include <memory>
#include <numeric>

VC_INLINE long anySize(long lo, long hi) {
  const long n = vc_long("size", lo, hi);
  vc_assume(n >= lo && n < VC_MAX);
  return n;
}

template <typename T>
VC_INLINE T* anyValues(long n);
template <>
VC_INLINE double* anyValues<double>(long n) {
  return vc_array_double("values", n);
}
template <>
VC_INLINE long* anyValues<long>(long n) {
  return vc_array_long("values", n);
}
template <>
VC_INLINE int* anyValues<int>(long n) {
  return vc_array_int("values", n);
}

// x is the k-th value in increasing order
template <typename T>
VC_INLINE bool isNth(const T* v, long n, T x, long k) {
  long below = 0;
  long upto = 0;
  for (long j = 0; j < n; ++j) {
    below += v[j] < x;
    upto += v[j] <= x;
  }
  return (below <= k) & (upto > k);
}

// Any size
template <typename T>
VC_INLINE void moments() {
  const long n = anySize(1, 6);
  T* v = anyValues<T>(n);
  const Sequence<T, PtrHolder<T>> in(n, v);
  DataDistribution<T> d(in);
  vc_assert(long(d.size()) == n, "size");
  double sum = 0;
  for (long i = 0; i < n; ++i) {
    sum += v[i];
  }
  const double mean = d.mean();
  vc_assert(mean == sum / n, "mean");
  const long i = vc_long("i", 0, 5);
  vc_assume(i >= 0 && i < n);
  vc_assert(in[i] == v[i] && in.data() == v, "unchanged values");
}

VC_PROOF(mean_double) { moments<double>(); }
VC_PROOF(mean_long) { moments<long>(); }

VC_PROOF(variance) {
  const long n = anySize(2, 6);
  long* v = anyValues<long>(n);
  const Sequence<long, PtrHolder<long>> in(n, v);
  DataDistribution<long> d(in);
  const double mean = d.mean();
  double sum = 0;
  for (long i = 0; i < n; ++i) {
    sum += (v[i] - mean) * (v[i] - mean);
  }
  vc_assert(d.variance() == sum / (n - 1), "unbiased variance");
  vc_assert(d.variance(false) == sum / n, "biased variance");
}

VC_PROOF(sum) {
  const long n = anySize(1, 6);
  long* v = anyValues<long>(n);
  const Sequence<long, PtrHolder<long>> in(n, v);
  DataDistribution<long> d(in);
  long sum = 0;
  for (long i = 0; i < n; ++i) {
    sum += v[i];
  }
  vc_assert(d.sum() == sum, "sum");
}

// All the values, for fixed sizes
template <long K, typename T>
VC_INLINE void order() {
  T* v = anyValues<T>(K);
  T old[K];
  for (long i = 0; i < K; ++i) {
    old[i] = v[i];
  }
  const Sequence<T, PtrHolder<T>> in(K, v);
  DataDistribution<T> d(in);
  const long k = vc_long("k", 0, K - 1);
  const long l = vc_long("l", 0, K - 1);
  vc_assume(k >= 0 && k < K && l >= 0 && l < K);
  const T x = d.nth(k);
  vc_assert(isNth(old, K, x, k), "n-th smallest value");
  const T y = d.nth(l);
  vc_assert(isNth(old, K, y, l), "another one, after partial sorting");
  const T mi = d.min();
  vc_assert(isNth(old, K, mi, 0), "minimum");
  const T ma = d.max();
  vc_assert(isNth(old, K, ma, K - 1), "maximum");
  for (long i = 0; i < K; ++i) {
    vc_assert(v[i] == old[i], "unchanged values");
  }
  d.sort();
  const T z = d.nth(k);
  vc_assert(z == x, "n-th smallest value after sorting");
}

VC_PROOF(nth_1) { order<1, double>(); }
VC_PROOF(nth_2) { order<2, double>(); }
VC_PROOF(nth_3) { order<3, long>(); }

// One at a time
template <long K, long N>
VC_INLINE void nth() {
  int* v = anyValues<int>(K);
  DataDistribution<int> d(std::vector<int>(v, v + K));
  const int x = d.nth(N);
  vc_assert(isNth(v, K, x, N), "n-th smallest value");
}

VC_PROOF(nth_4_0) { nth<4, 0>(); }
VC_PROOF(nth_4_1) { nth<4, 1>(); }
VC_PROOF(nth_4_3) { nth<4, 3>(); }
VC_PROOF(nth_5_2) { nth<5, 2>(); }

template <long K>
VC_INLINE void quantiles() {
  double* v = anyValues<double>(K);
  double old[K];
  for (long i = 0; i < K; ++i) {
    old[i] = v[i];
  }
  DataDistribution<double> d(std::vector<double>(v, v + K));
  const double q = vc_double("q", 0, 1);
  vc_assume(q >= 0 && q <= 1);
  const long f = q * (K - 1); // Rank
  const double w = q * (K - 1) - f;
  const double x = d.quantile(q);
  for (long i = 0; i < K; ++i) {
    for (long j = 0; j < K; ++j) {
      const bool ends = isNth(old, K, old[i], f) & isNth(old, K, old[j], f + 1 < K ? f + 1 : K - 1);
      const double e = old[i] * (1 - w) + old[j] * w;
      vc_assert(!ends | (x == e), "linear interpolation of order statistics");
    }
  }
  const double q0 = d.quantile(0);
  vc_assert(isNth(old, K, q0, 0), "minimum at 0");
  const double q1 = d.quantile(1);
  vc_assert(isNth(old, K, q1, K - 1), "maximum at 1");
  vc_assert(d.quantile(.5) == d.median(), "median at one half");
}

VC_PROOF(quantile_1) { quantiles<1>(); }
VC_PROOF(quantile_2) { quantiles<2>(); }
VC_PROOF(quantile_3) { quantiles<3>(); }

template <long K>
VC_INLINE double medianOf(const double* v) {
  double lower = 0;
  double upper = 0;
  for (long i = 0; i < K; ++i) {
    lower = isNth(v, K, v[i], (K - 1) / 2) ? v[i] : lower;
    upper = isNth(v, K, v[i], K / 2) ? v[i] : upper;
  }
  return (lower + upper) / 2;
}

template <long K>
VC_INLINE void mad() {
  double* v = anyValues<double>(K);
  DataDistribution<double> d(std::vector<double>(v, v + K));
  const double m = medianOf<K>(v);
  double dev[K];
  for (long i = 0; i < K; ++i) {
    dev[i] = std::abs(v[i] - m);
  }
  vc_assert(d.median() == m, "median");
  vc_assert(d.mad() == medianOf<K>(dev), "median absolute deviation");
}

VC_PROOF(mad_1) { mad<1>(); }
VC_PROOF(mad_2) { mad<2>(); }
VC_PROOF(mad_3) { mad<3>(); }
VC_PROOF(mad_4) { mad<4>(); }

template <long K, long B>
VC_INLINE void histogram() {
  double* v = anyValues<double>(K);
  double bins[B];
  for (long i = 0; i < B; ++i) {
    bins[i] = vc_double("bin", -2, 2);
    vc_assume(i == 0 || bins[i - 1] <= bins[i]);
  }
  DataDistribution<double> d(std::vector<double>(v, v + K));
  const auto h = d.histogram(std::vector<double>(bins, bins + B));
  vc_assert(long(h.size()) == B - 1, "number of counts");
  for (long i = 0; i < B - 1; ++i) {
    long count = 0;
    for (long j = 0; j < K; ++j) {
      count += (v[j] >= bins[i]) & (v[j] < bins[i + 1]);
    }
    vc_assert(long(h[i]) == count, "number of values in the bin");
  }
}

VC_PROOF(histogram_1_2) { histogram<1, 2>(); }
VC_PROOF(histogram_2_2) { histogram<2, 2>(); }
VC_PROOF(histogram_2_3) { histogram<2, 3>(); }
VC_PROOF(histogram_3_3) { histogram<3, 3>(); }
VC_PROOF(histogram_2_4) { histogram<2, 4>(); }

#ifndef VC_SYMBOLIC

VC_INLINE bool near(double x, double y) {
  return std::abs(x - y) <= 1e-9 * (1 + std::abs(x) + std::abs(y));
}

double sortedQuantile(std::vector<double> v, double q) {
  std::sort(v.begin(), v.end());
  const double n = q * (v.size() - 1);
  const std::size_t f = std::floor(n);
  return f + 1 < v.size() ? v[f] * (1 - n + f) + v[f + 1] * (n - f) : v[f];
}

template <typename T>
void distribution() {
  const long n = vc_long("size", 1, 30);
  const int* a = vc_array_int("values", n);
  const bool increasing = vc_bool("sorted");
  std::vector<T> v(a, a + n);
  if (increasing) {
    std::sort(v.begin(), v.end());
  }
  const auto copy = v;
  const Sequence<T> seq(v);
  DataDistribution<T> d(seq);
  std::vector<double> s(v.begin(), v.end());
  std::sort(s.begin(), s.end());
  if (vc_bool("sort")) {
    d.sort();
  }
  for (long k = 0; k < 4; ++k) {
    const long i = vc_long("k", 0, 3) * (n - 1) / 3;
    vc_assert(d.nth(i) == s[i], "n-th smallest value");
  }
  for (double q = 0; q <= 1; q += .0625) {
    vc_assert(near(d.quantile(q), sortedQuantile(s, q)), "quantile");
  }
  vc_assert(d.min() == s[0] && d.max() == s[n - 1], "extreme values");
  const auto median = sortedQuantile(s, .5);
  vc_assert(near(d.median(), median), "median");
  double sum = 0;
  double mean = 0;
  for (auto x : s) {
    sum += x;
  }
  mean = sum / n;
  vc_assert(near(d.mean(), mean) && near(d.sum(), sum), "mean");
  double sum2 = 0;
  std::vector<double> dev;
  for (auto x : s) {
    sum2 += (x - mean) * (x - mean);
    dev.push_back(std::abs(x - median));
  }
  vc_assert(near(d.mad(), sortedQuantile(dev, .5)), "median absolute deviation");
  vc_assert(n < 2 || near(d.variance(), sum2 / (n - 1)), "unbiased variance");
  vc_assert(near(d.variance(false), sum2 / n), "biased variance");
  for (long i = 0; i < n; ++i) {
    vc_assert(seq[i] == copy[i] && v[i] == copy[i], "unchanged values");
  }
}

// Any sequence of requests on the same distribution
template <typename T>
void requests() {
  const long n = vc_long("size", 1, 7);
  const int* a = vc_array_int("values", n);
  const std::vector<T> v(a, a + n);
  const Sequence<T> seq(v);
  auto d = seq.distribution();
  std::vector<double> s(a, a + n);
  const std::vector<double> unsorted = s;
  std::sort(s.begin(), s.end());
  const std::vector<T> bins {T(-2), T(0), T(1), T(3)};
  const double mean = std::accumulate(s.begin(), s.end(), 0.) / n;
  double sum2 = 0;
  std::vector<double> dev;
  for (auto x : s) {
    sum2 += (x - mean) * (x - mean);
    dev.push_back(std::abs(x - sortedQuantile(s, .5)));
  }
  for (int k = 0; k < 3; ++k) {
    switch (vc_long("request", 0, 9)) {
      case 0:
        vc_assert(d.min() == s[0], "min");
        break;
      case 1:
        vc_assert(d.max() == s[n - 1], "max");
        break;
      case 2:
        vc_assert(d.nth(n / 2) == s[n / 2] && d.nth(n / 3) == s[n / 3], "n-th smallest value");
        break;
      case 3:
        vc_assert(near(d.median(), sortedQuantile(s, .5)), "median");
        break;
      case 4:
        vc_assert(near(d.quantile(.25), sortedQuantile(s, .25)) && near(d.quantile(.9), sortedQuantile(s, .9)), "quantile");
        break;
      case 5:
        vc_assert(near(d.mean(), mean) && near(d.sum(), mean * n) && long(d.size()) == n, "mean");
        break;
      case 6:
        vc_assert(n < 2 || near(d.variance(), sum2 / (n - 1)), "unbiased variance");
        vc_assert(near(d.variance(false), sum2 / n), "biased variance");
        break;
      case 7:
        vc_assert(near(d.mad(), sortedQuantile(dev, .5)), "median absolute deviation");
        break;
      case 8: {
        const auto h = d.histogram(bins);
        for (int i = 0; i < 3; ++i) {
          const auto c = std::count_if(s.begin(), s.end(), [&](double x) {
            return x >= bins[i] && x < bins[i + 1];
          });
          vc_assert(long(h[i]) == c, "number of values in the bin");
        }
        break;
      }
      default:
        d.sort();
    }
  }
  vc_assert(std::equal(seq.begin(), seq.end(), unsorted.begin()), "unchanged values");
}

VC_BOUNDED(requests_int) { requests<int>(); }
VC_BOUNDED(requests_double) { requests<double>(); }

VC_BOUNDED(distribution_double) { distribution<double>(); }
VC_BOUNDED(distribution_int) { distribution<int>(); }
VC_BOUNDED(distribution_long) { distribution<long>(); }

VC_BOUNDED(mean_large) {
  // The mean is not limited by the range of the elements
  const int n = vc_long("size", 1, 5);
  std::vector<short> v(n, 30000);
  DataDistribution<short> d(v);
  vc_assert(d.mean() == 30000 && d.median() == 30000 && d.variance(false) == 0 && d.mad() == 0, "large values");
  vc_assert(d.quantile(.25) == 30000, "large values");
}

VC_BOUNDED(histogram_any) {
  const long n = vc_long("size", 1, 20);
  const int* a = vc_array_int("values", n);
  const long b = vc_long("bins", 2, 6);
  std::vector<double> bins(b);
  bins[0] = vc_long("front", -6, 6);
  for (long i = 1; i < b; ++i) {
    bins[i] = bins[i - 1] + vc_long("width", 0, 3);
  }
  DataDistribution<int> d(std::vector<int>(a, a + n));
  const auto h = d.histogram(bins);
  vc_assert(long(h.size()) == b - 1, "number of counts");
  for (long i = 0; i + 1 < b; ++i) {
    const long c = std::count_if(a, a + n, [&](int x) {
      return x >= bins[i] && x < bins[i + 1];
    });
    vc_assert(long(h[i]) == c, "number of values in the bin");
  }
}

#endif
