// Contracts whose verdict is known, to test the VC generator itself (vc/selftest.py).
// ok_*: every obligation is discharged.
// bad_*: the assertions with a label starting with "false" do not hold for every input, and shall not be discharged
// (and all the others shall be).
#include "common.h"

#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>

VC_INLINE long anySize() {
  const long n = vc_long("n", 1, 6);
  vc_assume(n >= 1 && n < VC_MAX);
  return n;
}

VC_INLINE long anyIndex(const char* name, long n) {
  const long i = vc_long(name, 0, 5);
  vc_assume(i >= 0 && i < n);
  return i;
}

// -- straight-line code

VC_PROOF(bad_square) {
  const long x = vc_long("x", -9, 9);
  vc_assert(x * x >= 0, "square");
  vc_assert(x * x > x, "false: for 0 and 1");
}

VC_PROOF(bad_division) {
  const long x = vc_long("x", -9, 9);
  vc_assert((x / 4) * 4 + x % 4 == x, "division");
  vc_assert(x % 4 >= 0, "false: sign of the remainder");
}

VC_PROOF(bad_shift) {
  const long x = vc_long("x", -9, 9);
  vc_assert((x >> 1) == x / 2, "false: for negative values");
}

VC_PROOF(bad_narrow) {
  const long x = vc_long("x", 0, 10);
  vc_assume(x >= 0 && x < VC_MAX);
  vc_assert(long(int(x)) == x, "false: truncation");
}

VC_PROOF(bad_unsigned) {
  const long x = vc_long("x", -9, 9);
  const std::size_t u = x;
  vc_assert(u < 100, "false: wraps");
}

VC_PROOF(bad_abs) {
  const double x = vc_double("x", -9, 9);
  vc_assert(std::abs(x) >= x, "absolute value");
  vc_assert(std::abs(x) == x, "false: negative");
}

VC_PROOF(bad_floor) {
  const double x = vc_double("x", -9, 9);
  vc_assume(x > -1000 && x < 1000);
  vc_assert(std::floor(x) <= x, "floor");
  vc_assert(long(x) <= x, "false: conversion truncates");
}

VC_PROOF(bad_join) {
  const long x = vc_long("x", -9, 9);
  const long y = vc_long("y", -9, 9);
  long m = x;
  if (y > x) {
    m = y;
  }
  long s = 0;
  if (x > 3) {
    s += 1;
  }
  if (y > 3) {
    s += 2;
  }
  vc_assert(m >= x && m >= y, "maximum");
  vc_assert(m > x || m > y, "false: ties");
  vc_assert(s != 2 || m == y, "joins");
  vc_assert(s != 3 || m == x, "false: joins");
}

VC_PROOF(bad_throw) {
  const long n = anySize();
  const long i = vc_long("i", -3, 9);
  VC_THROWS_IFF(SizeError, i > n, "false: less", SizeError::mayThrow(i, n));
  vc_assert(i == n, "then equal");
}

VC_PROOF(bad_memory) {
  const long n = anySize();
  const int* a = vc_array_int("a", n);
  const long i = vc_long("i", 0, 5);
  vc_assume(i >= 0 && i <= n);
  vc_assert(a[i] == 3 || a[i] != 3, "value");
  vc_assert(a[i] != 3, "false-memory: one past the end");
}

long* keep = nullptr;

VC_PROOF(bad_leak) {
  const long before = vc_live_allocs();
  const long n = anySize();
  keep = new long[n];
  if (n != 3) {
    delete[] keep;
  }
  vc_assert(vc_live_allocs() == before, "false: one path leaks");
}

// -- aliasing

VC_PROOF(bad_alias) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  const long i = anyIndex("i", n);
  const long j = anyIndex("j", n);
  const long old = a[j];
  a[i] = 1;
  vc_assert(i == j || a[j] == old, "frame");
  vc_assert(a[j] == old, "false: same cell");
}

VC_PROOF(bad_alias_arrays) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  const long i = anyIndex("i", n);
  const long j = anyIndex("j", n);
  a[i] = 1;
  a[j] = 2;
  vc_assert(a[j] == 2, "last write");
  vc_assert(a[i] == 1, "false: overwritten");
}

VC_PROOF(bad_partial) {
  const long n = anySize();
  int* a = vc_array_int("a", n);
  const long i = anyIndex("i", n);
  a[i] = 0x01020304;
  unsigned char b[4];
  std::memcpy(b, a + i, 4);
  vc_assert(a[i] == 0x01020304, "value");
  vc_assert(b[0] == 1, "false: little endian");
}

// -- loops with one counter

VC_PROOF(bad_fill) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  for (long i = 0; i < n; ++i) {
    a[i] = i;
  }
  const long i = anyIndex("i", n);
  vc_assert(a[i] == i, "values");
  vc_assert(a[i] < n - 1, "false: last");
}

VC_PROOF(bad_fill_but_last) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  const long i = anyIndex("i", n);
  const long old = a[i];
  for (long k = 0; k + 1 < n; ++k) {
    a[k] = 7;
  }
  vc_assert(i == n - 1 ? a[i] == old : a[i] == 7, "values");
  vc_assert(a[i] == 7, "false: last");
}

VC_PROOF(bad_step) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  const long i = anyIndex("i", n);
  const long old = a[i];
  for (long k = 0; k < n; k += 2) {
    a[k] = old + 1;
  }
  vc_assert(a[i] == (i % 2 == 0 ? old + 1 : old), "values");
  vc_assert(a[i] == old + 1, "false: odd");
}

VC_PROOF(bad_sum) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long s = 0;
  for (long k = 0; k < n; ++k) {
    s += a[k];
  }
  long t = a[0];
  for (long k = 1; k < n; ++k) {
    t += a[k];
  }
  long u = 0;
  for (long k = 1; k < n; ++k) {
    u += a[k];
  }
  vc_assert(s == t, "sums");
  vc_assert(s == u, "false: first is missing");
}

VC_PROOF(bad_sum_early) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long s = 0;
  long t = 0;
  for (long k = 0; k < n; ++k) {
    s += a[k];
    if (a[k] == 0) {
      break;
    }
    t += a[k];
  }
  vc_assert(s == t, "sums up to the first zero");
  long u = 0;
  for (long k = 0; k < n; ++k) {
    u += a[k];
  }
  vc_assert(u == t, "false: after the first zero");
}

VC_PROOF(bad_search) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long p = n;
  for (long k = 0; k < n; ++k) {
    if (a[k] == 5) {
      p = k;
      break;
    }
  }
  const long i = anyIndex("i", n);
  vc_assert(p == n || a[p] == 5, "found");
  vc_assert(i >= p || a[i] != 5, "none before");
  vc_assert(i <= p || a[i] != 5, "false: none after");
}

VC_PROOF(bad_max) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long m = a[0];
  for (long k = 1; k < n; ++k) {
    if (a[k] > m) {
      m = a[k];
    }
  }
  const long i = anyIndex("i", n);
  vc_assert(m >= a[i], "upper bound");
  vc_assert(m > a[i], "false: strictly");
}

VC_PROOF(bad_max_zero) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long m = 0;
  for (long k = 0; k < n; ++k) {
    m = std::max(m, a[k]);
  }
  long p = a[0];
  for (long k = 1; k < n; ++k) {
    p = std::max(p, a[k]);
  }
  vc_assert(m >= p, "upper bound");
  vc_assert(m == p, "false: negative values");
}

VC_PROOF(bad_prefix) {
  // Each iteration reads the write of the previous one
  const long n = anySize();
  long* a = vc_array_long("a", n);
  const long first = a[0];
  for (long k = 1; k < n; ++k) {
    a[k] = a[k - 1];
  }
  const long i = anyIndex("i", n);
  vc_assert(i > 0 || a[i] == first, "first");
  vc_assert(i == 0 || a[i] == first + 1, "false: propagated");
}

VC_PROOF(bad_shifted) {
  // Each iteration reads what a later one overwrites
  const long n = anySize();
  long* a = vc_array_long("a", n + 1);
  const long i = anyIndex("i", n);
  const long next = a[i + 1];
  const long self = a[i];
  for (long k = 0; k < n; ++k) {
    a[k] = a[k + 1];
  }
  vc_assert(a[i] == next, "shifted");
  vc_assert(a[i] == self, "false: unchanged");
}

VC_PROOF(bad_shifted_back) {
  const long n = anySize();
  long* a = vc_array_long("a", n + 1);
  const long i = anyIndex("i", n);
  const long self = a[i];
  for (long k = n; k > 0; --k) {
    a[k] = a[k - 1];
  }
  vc_assert(a[i + 1] == self, "shifted");
  vc_assert(a[i] == self, "false: unchanged");
}

VC_PROOF(bad_scatter) {
  // Two iterations write the same cell: the last one wins
  const long n = anySize();
  long* a = vc_array_long("a", n);
  for (long k = 0; k < n; ++k) {
    a[k / 2] = k;
  }
  const long i = anyIndex("i", n);
  vc_assert(a[i] == 2 * i, "false: the first one does not");
}

VC_PROOF(bad_reverse) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  const long i = anyIndex("i", n);
  const long self = a[i];
  std::reverse(a, a + n);
  vc_assert(a[i] == self, "false: palindromes only");
}

VC_PROOF(bad_counter) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long c = 0;
  for (long k = 0; k < n; ++k) {
    c += a[k] > 0;
  }
  vc_assert(c >= 0, "positive");
  vc_assert(c < n, "false: all");
}

VC_PROOF(bad_alternate) {
  const long n = anySize();
  bool b = false;
  for (long k = 0; k < n; ++k) {
    b = not b;
  }
  vc_assert(b == (n % 2 == 1) || true, "parity");
  vc_assert(b, "false: even");
}

VC_PROOF(bad_two_counters) {
  const long n = anySize();
  const long m = vc_long("m", 1, 6);
  vc_assume(m >= 1 && m < VC_MAX);
  long i = 0;
  long j = 0;
  while (i < n && j < m) {
    ++i;
    ++j;
  }
  vc_assert(i == j && (i == n || j == m), "stop");
  vc_assert(i == n, "false: shorter");
}

VC_PROOF(bad_invariant) {
  const long n = anySize();
  long x = 0;
  for (long i = 0; i < n; ++i) {
    vc_invariant(x <= 3, "false: invariant");
    x += i == 5 ? 5 : 0;
  }
}

VC_PROOF(bad_post) {
  const long n = anySize();
  long* a = vc_array_long("a", n);
  long* p = a;
  for (long i = 0; i < n; ++i) {
    *p++ = i;
  }
  vc_assert(p == a + n, "pointer");
  vc_assert(p != a + 3, "false: pointer");
}

// -- nested counters

VC_PROOF(bad_nested) {
  const long n = anySize();
  const long m = vc_long("m", 1, 6);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  long* a = vc_array_long("a", n * m);
  for (long j = 0; j < m; ++j) {
    for (long i = 0; i < n; ++i) {
      a[j * n + i] = i;
    }
  }
  const long i = anyIndex("i", n);
  const long j = vc_long("j", 0, 5);
  vc_assume(j >= 0 && j < m);
  vc_assert(a[j * n + i] == i, "values");
  vc_assert(a[j * n + i] == j, "false: other axis");
}

VC_PROOF(bad_flat) {
  // One loop for two counters
  const long n = anySize();
  const long m = vc_long("m", 1, 6);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  long* a = vc_array_long("a", n * m);
  const auto box = Box<2>::fromShape({0, 0}, {n, m});
  long k = 0;
  for (const auto& p : box) {
    a[p[1] * n + p[0]] = p[0] + 2 * p[1];
    ++k;
  }
  const long i = anyIndex("i", n);
  const long j = vc_long("j", 0, 5);
  vc_assume(j >= 0 && j < m);
  vc_assert(a[j * n + i] == i + 2 * j, "values");
  vc_assert(a[j * n + i] == i + j, "false: only on the first row");
}

VC_PROOF(bad_flat_inner) {
  // All but the last row
  const long n = anySize();
  const long m = vc_long("m", 2, 6);
  vc_assume(m >= 2 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  long* a = vc_array_long("a", n * m);
  const long i = anyIndex("i", n);
  const long j = vc_long("j", 0, 5);
  vc_assume(j >= 0 && j < m);
  const long old = a[j * n + i];
  const auto box = Box<2>::fromShape({0, 0}, {n, m - 1});
  for (const auto& p : box) {
    a[p[1] * n + p[0]] = old + 1;
  }
  vc_assert(j == m - 1 || a[j * n + i] == old + 1, "values");
  vc_assert(a[j * n + i] == old + 1, "false: last row");
}

VC_PROOF(bad_flat_own_writes) {
  // Each iteration reads what an earlier one wrote
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  long* a = vc_array_long("a", (m + 1) * n);
  const long i = anyIndex("i", n);
  const long first = a[i];
  const auto box = Box<2>::fromShape({0, 0}, {n, m});
  for (const auto& p : box) {
    a[(p[1] + 1) * n + p[0]] = a[p[1] * n + p[0]];
  }
  vc_assert(a[i] == first, "frame");
  vc_assert(a[m * n + i] != first, "false: propagated");
}

VC_PROOF(bad_flat_later) {
  // Each iteration reads what a later one overwrites
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  long* a = vc_array_long("a", (m + 1) * n);
  const long i = anyIndex("i", n);
  const long j = vc_long("j", 0, 3);
  vc_assume(j >= 0 && j < m);
  const long self = a[j * n + i];
  const auto box = Box<2>::fromShape({0, 0}, {n, m});
  for (const auto& p : box) {
    a[p[1] * n + p[0]] = a[(p[1] + 1) * n + p[0]];
  }
  vc_assert(a[j * n + i] == self, "false: moved");
}

VC_PROOF(bad_flat_sum) {
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", m * n);
  long s = 0;
  for (const auto& p : Box<2>::fromShape({0, 0}, {n, m})) {
    s += a[p[1] * n + p[0]];
  }
  vc_assert(s == a[0], "false: sum");
}

VC_PROOF(bad_flat_collide) {
  // Iterations of different rows write the same cells
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  long* a = vc_array_long("a", n);
  for (const auto& p : Box<2>::fromShape({0, 0}, {n, m})) {
    a[p[0]] = p[1];
  }
  const long i = anyIndex("i", n);
  vc_assert(a[i] == 0, "false: the last row wins");
}

// -- library code

VC_PROOF(bad_raster_copy) {
  const auto s = anyShape<2>("s", 2);
  vc_assume(s[0] * s[1] > 0 && s[0] * s[1] < VC_MAX);
  const long* v = vc_array_long("v", s[0] * s[1]);
  const PtrRaster<const long, 2> in(s, v);
  VecRaster<long, 2> out(s);
  const long i = vc_long("i", 0, 15);
  vc_assume(i >= 0 && i < s[0] * s[1]);
  vc_assert(out[i] == 0, "initial value");
  std::copy(in.begin(), in.end() - 1, out.begin());
  vc_assert(i == s[0] * s[1] - 1 || out[i] == v[i], "copied");
  vc_assert(out[i] == v[i], "false: last");
}

VC_PROOF(bad_raster_index) {
  const auto s = anyShape<3>("s", 3);
  vc_assume(s[0] * s[1] > 0 && s[0] * s[1] < VC_MAX && s[0] * s[1] * s[2] > 0 && s[0] * s[1] * s[2] < VC_MAX);
  const long* v = vc_array_long("v", s[0] * s[1] * s[2]);
  const PtrRaster<const long, 3> in(s, v);
  const auto p = anyPosition<3>("p", 3, 0, 3);
  vc_assume(inside(p, s));
  vc_assert(in.index(p) == p[0] + s[0] * (p[1] + s[1] * p[2]), "index");
  vc_assert(in.index(p) == p[2] + s[2] * (p[1] + s[1] * p[0]), "false: order");
}

// -- exits of loops

VC_PROOF(bad_break_constant) {
  const long n = anySize();
  bool b = true;
  for (long k = 0; k < n; ++k) {
    if (k == 3) {
      b = false;
      break;
    }
  }
  vc_assert(b == (n <= 3), "exit");
  vc_assert(b, "false: long enough");
}

VC_PROOF(bad_break_data) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  bool b = true;
  for (long k = 0; k < n; ++k) {
    if (a[k] == 5) {
      b = false;
      break;
    }
  }
  const long i = anyIndex("i", n);
  vc_assert(not b || a[i] != 5, "none");
  vc_assert(b, "false: found");
  vc_assert(not b, "false: not found");
}

VC_PROOF(bad_break_data_first) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  bool b = false;
  for (long k = 0; k < n; ++k) {
    if (a[k] == 5) {
      b = true;
      break;
    }
  }
  const long i = anyIndex("i", n);
  vc_assert(b || a[i] != 5, "none");
  vc_assert(b, "false: found");
  vc_assert(not b, "false: not found");
}

VC_PROOF(bad_inner_search) {
  // The inner loop stops at a different place for each iteration of the outer one
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", n * m);
  long* out = vc_array_long("out", m);
  for (long j = 0; j < m; ++j) {
    long p = 0;
    while (p < n && a[j * n + p] != 5) {
      ++p;
    }
    out[j] = p;
  }
  const long i = vc_long("i", 0, 3);
  const long j = vc_long("j", 0, 3);
  vc_assume(i >= 0 && i < m && j >= 0 && j < m);
  vc_assert(out[i] == out[j], "false: different lines");
}

VC_PROOF(bad_inner_flag) {
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", n * m);
  long* out = vc_array_long("out", m);
  for (long j = 0; j < m; ++j) {
    long p = 0;
    for (long k = 0; k < n; ++k) {
      if (a[j * n + k] == 5) {
        p = 1;
        break;
      }
    }
    out[j] = p;
  }
  const long i = vc_long("i", 0, 3);
  const long j = vc_long("j", 0, 3);
  vc_assume(i >= 0 && i < m && j >= 0 && j < m);
  vc_assert(out[i] == out[j], "false: different lines");
}

VC_PROOF(bad_inner_sum) {
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", n * m);
  long* out = vc_array_long("out", m);
  for (long j = 0; j < m; ++j) {
    long p = 0;
    for (long k = 0; k < n; ++k) {
      p += a[j * n + k];
    }
    out[j] = p;
  }
  const long i = vc_long("i", 0, 3);
  const long j = vc_long("j", 0, 3);
  vc_assume(i >= 0 && i < m && j >= 0 && j < m);
  long s = 0;
  for (long k = 0; k < n; ++k) {
    s += a[i * n + k];
  }
  vc_assert(out[i] == s, "sum of the line");
  vc_assert(out[i] == out[j], "false: different lines");
}

VC_PROOF(bad_outer_accumulator) {
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", n * m);
  long c = 0;
  for (long j = 0; j < m; ++j) {
    long p = 0;
    while (p < n && a[j * n + p] != 5) {
      ++p;
    }
    c += p;
  }
  long p = 0;
  while (p < n && a[p] != 5) {
    ++p;
  }
  vc_assert(c == p * m, "false: different lines");
}

VC_PROOF(bad_inner_exit_affine) {
  const long n = anySize();
  long c = 0;
  for (long j = 0; j < n; ++j) {
    for (long k = 0; k <= j; ++k) {
      ++c;
    }
  }
  vc_assert(c == n, "false: triangle");
}

VC_PROOF(bad_inner_write) {
  // The inner loop stops at a different place for each iteration of the outer one
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", n * m);
  long* out = vc_array_long("out", n * m);
  const long i = anyIndex("i", n * m);
  const long old = out[i];
  for (long j = 0; j < m; ++j) {
    for (long k = 0; k < n && a[j * n + k] != 5; ++k) {
      out[j * n + k] = a[j * n + k];
    }
  }
  vc_assert(out[i] == old || out[i] == a[i], "written or not");
  vc_assert(out[i] == a[i], "false: after the stop");
  vc_assert(out[i] == old, "false: before the stop");
}

VC_PROOF(bad_exit_value) {
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long last = 0;
  for (long k = 0; k < n; ++k) {
    last = a[k];
    if (last == 5) {
      break;
    }
  }
  vc_assert(last == 5 || last == a[n - 1], "last value");
  vc_assert(last == a[n - 1], "false: stopped");
  vc_assert(last == 5, "false: not stopped");
}

VC_PROOF(bad_compare) {
  const long n = anySize();
  const long m = vc_long("m", 0, 6);
  vc_assume(m >= 0 && m <= n);
  const long* a = vc_array_long("a", n);
  const long* b = vc_array_long("b", n);
  const bool eq = std::equal(a, a + m, b);
  const long i = anyIndex("i", n);
  vc_assert(not eq || i >= m || a[i] == b[i], "elements");
  vc_assert(not eq || a[i] == b[i], "false: after the end");
  vc_assert(eq || a[i] != b[i], "false: another index");
  vc_assert(eq, "false: different");
  vc_assert(not eq, "false: same");
}

VC_PROOF(bad_compare_real) {
  const long n = anySize();
  const long m = vc_long("m", 0, 6);
  vc_assume(m >= 0 && m <= n);
  const double* a = vc_array_double("a", n);
  const double* b = vc_array_double("b", n);
  const bool eq = std::equal(a, a + m, b);
  const long i = anyIndex("i", n);
  vc_assert(not eq || i >= m || a[i] == b[i], "elements");
  vc_assert(not eq || a[i] == b[i], "false: after the end");
  vc_assert(eq || a[i] != b[i], "false: another index");
  vc_assert(eq, "false: different");
  vc_assert(not eq, "false: same");
}

VC_PROOF(bad_stop_twice) {
  // Two exits with different results
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long r = 0;
  for (long k = 0; k < n; ++k) {
    if (a[k] == 5) {
      r = 1;
      break;
    }
    if (a[k] == 10) {
      r = 2;
      break;
    }
  }
  const long i = anyIndex("i", n);
  vc_assert(r != 0 || (a[i] != 5 && a[i] != 10), "none");
  vc_assert(r != 1 || a[i] != 10, "false: after");
  vc_assert(r != 2 || a[i] != 5, "false: after");
  vc_assert(r != 2, "false: found");
}

VC_PROOF(bad_box_search) {
  const long n = anySize();
  const long m = vc_long("m", 1, 4);
  vc_assume(m >= 1 && m < VC_MAX && n * m > 0 && n * m < VC_MAX);
  const long* a = vc_array_long("a", n * m);
  bool b = false;
  for (const auto& p : Box<2>::fromShape({0, 0}, {n, m})) {
    if (a[p[1] * n + p[0]] == 5) {
      b = true;
      break;
    }
  }
  const long i = anyIndex("i", n);
  const long j = vc_long("j", 0, 3);
  vc_assume(j >= 0 && j < m);
  vc_assert(b || a[j * n + i] != 5, "none");
  vc_assert(not b || a[j * n + i] == 5, "false: another");
  vc_assert(b, "false: found");
  vc_assert(not b, "false: not found");
}

VC_PROOF(bad_search_twice) {
  // Two searches in a row
  const long n = anySize();
  const long* a = vc_array_long("a", n);
  long p = 0;
  while (p < n && a[p] != 5) {
    ++p;
  }
  long q = p;
  while (q < n && a[q] != 7) {
    ++q;
  }
  const long i = anyIndex("i", n);
  vc_assert(p <= q && q <= n, "order");
  vc_assert(i >= p || a[i] != 5, "before the first");
  vc_assert(i >= q || i < p || a[i] != 7, "between");
  vc_assert(i >= q || a[i] != 7, "false: before the first");
  vc_assert(p < q, "false: nothing between");
}
