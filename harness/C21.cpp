// Contracts of the chronometer: increments are the clock differences of their start/stop pairs, the elapsed time is the
// offset plus the increments, and the statistics are those of the increments.
#include "common.h"

#include "LitlRun/Chronometer.h"

#include <chrono>
#include <cmath>
#include <vector>

using Clock = std::chrono::steady_clock;

VC_INLINE long nanoseconds() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count();
}

VC_INLINE void wait() {
#ifndef VC_SYMBOLIC
  volatile long x = 0;
  const long n = vc_long("wait", 0, 2) * 400;
  for (long i = 0; i < n; ++i) {
    x = x + i;
  }
#endif
}

template <typename TUnit>
struct Ratio {
  static constexpr long value = std::chrono::nanoseconds(TUnit(1)).count();
};

// An increment is the difference of the clock between start and stop, truncated to the unit
template <typename TUnit>
VC_INLINE long increment(Chronometer<TUnit>& c) {
  const long before = nanoseconds();
  c.start();
  const long started = nanoseconds();
  vc_assert(c.isRunning(), "running after start");
  wait();
  const long stopping = nanoseconds();
  const long count = c.count();
  const auto old = c.elapsed();
  const auto inc = c.stop();
  const long after = nanoseconds();
  vc_assert(not c.isRunning(), "not running after stop");
  const long n = inc.count();
  constexpr long unit = Ratio<TUnit>::value;
  vc_assert(n >= 0 && n * unit <= after - before, "no more than the time from before start to after stop");
  vc_assert((n + 1) * unit > stopping - started, "no less than the time from after start to before stop");
  vc_assert(long(c.count()) == count + 1, "one more increment");
  vc_assert(c.increments()[count] == n && c.last().count() == n, "the increment is recorded");
  vc_assert((c.elapsed() - old).count() == n, "the elapsed time is incremented");
  return n;
}

template <typename TUnit, long K>
VC_INLINE void sequence() {
  const long offset = vc_long("offset", -2, 2);
  vc_assume(offset > -VC_MAX && offset < VC_MAX);
  Chronometer<TUnit> c {TUnit(offset)};
  vc_assert(c.count() == 0 && c.elapsed().count() == offset && not c.isRunning(), "initial state");
  long values[K];
  long sum = 0;
  for (long i = 0; i < K; ++i) {
    values[i] = increment(c);
    sum += values[i];
  }
  vc_assert(long(c.count()) == K && long(c.increments().size()) == K, "number of increments");
  for (long i = 0; i < K; ++i) {
    vc_assert(c.increments()[i] == values[i], "increments in order");
  }
  vc_assert(c.elapsed().count() == offset + sum, "elapsed time");
  const long other = vc_long("reset", -2, 2);
  vc_assume(other > -VC_MAX && other < VC_MAX);
  const bool running = vc_bool("running");
  if (running) {
    c.start();
  }
  c.reset(TUnit(other));
  vc_assert(c.count() == 0 && c.increments().empty() && c.elapsed().count() == other, "reset");
  vc_assert(not c.isRunning(), "not running after reset");
  const long n = increment(c);
  vc_assert(c.count() == 1 && c.elapsed().count() == other + n, "usable after reset");
  c.reset();
  vc_assert(c.count() == 0 && c.elapsed().count() == 0, "reset without offset");
}

VC_PROOF(nanoseconds_1) { sequence<std::chrono::nanoseconds, 1>(); }
VC_PROOF(nanoseconds_2) { sequence<std::chrono::nanoseconds, 2>(); }
VC_PROOF(microseconds_3) { sequence<std::chrono::microseconds, 3>(); }
VC_PROOF(milliseconds_2) { sequence<std::chrono::milliseconds, 2>(); }
VC_PROOF(seconds_1) { sequence<std::chrono::seconds, 1>(); }

// Restarting drops the former start
VC_PROOF(restart) {
  Chronometer<std::chrono::nanoseconds> c;
  vc_assert(c.elapsed().count() == 0 && c.count() == 0, "no offset by default");
  c.start();
  wait();
  const long n = increment(c);
  vc_assert(c.elapsed().count() == n && c.count() == 1, "one increment, from the last start");
}

// Statistics
template <long K>
VC_INLINE void statistics() {
  Chronometer<std::chrono::nanoseconds> c;
  double values[K];
  double sum = 0;
  for (long i = 0; i < K; ++i) {
    values[i] = increment(c);
    sum += values[i];
  }
  const double mean = sum / K;
  double sum2 = 0;
  double lo = values[0];
  double hi = values[0];
  for (long i = 0; i < K; ++i) {
    sum2 += (values[i] - mean) * (values[i] - mean);
    lo = values[i] < lo ? values[i] : lo;
    hi = values[i] > hi ? values[i] : hi;
  }
#ifdef VC_SYMBOLIC
  vc_assert(c.mean() == mean, "mean");
  vc_assert(c.stdev() == std::sqrt(sum2 / K), "standard deviation");
#else
  vc_assert(std::abs(c.mean() - mean) <= 1e-9 * (1 + mean), "mean");
  vc_assert(std::abs(c.stdev() - std::sqrt(sum2 / K)) <= 1e-6 * (1 + mean), "standard deviation");
#endif
  vc_assert(c.min() == lo, "minimum");
  vc_assert(c.max() == hi, "maximum");
}

VC_PROOF(statistics_1) { statistics<1>(); }
VC_PROOF(statistics_2) { statistics<2>(); }
VC_PROOF(statistics_3) { statistics<3>(); }

#ifndef VC_SYMBOLIC

VC_BOUNDED(statistics_any) {
  const long n = vc_long("size", 1, 12);
  const long offset = vc_long("offset", 0, 1) * 1000;
  Chronometer<std::chrono::nanoseconds> c {std::chrono::nanoseconds(offset)};
  std::vector<double> values;
  double sum = 0;
  for (long i = 0; i < n; ++i) {
    values.push_back(increment(c));
    sum += values.back();
  }
  vc_assert(c.elapsed().count() == offset + long(sum), "elapsed time");
  vc_assert(c.increments() == values, "increments in order");
  const double mean = sum / n;
  double sum2 = 0;
  for (auto v : values) {
    sum2 += (v - mean) * (v - mean);
  }
  vc_assert(std::abs(c.mean() - mean) <= 1e-9 * (1 + mean), "mean");
  vc_assert(std::abs(c.stdev() - std::sqrt(sum2 / n)) <= 1e-6 * (1 + mean), "standard deviation");
  vc_assert(c.min() == *std::min_element(values.begin(), values.end()), "minimum");
  vc_assert(c.max() == *std::max_element(values.begin(), values.end()), "maximum");
}

#endif
