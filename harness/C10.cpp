// Contracts of the pixel-wise operations. For an arbitrary index i: element i is the operation applied to the elements i
// of the operands, whatever the size; the frame is that operands keep their values and that nothing else is written.
#include "common.h"

#include "LitlContainer/Sequence.h"

constexpr long HI = 5;

VC_INLINE long anySize(long lo = 0) {
  const long n = vc_long("size", lo, HI);
  vc_assume(n >= lo && n < VC_MAX);
  return n;
}

VC_INLINE long anyIndex(long n) {
  const long i = vc_long("i", 0, HI - 1);
  vc_assume(i >= 0 && i < n);
  return i;
}

struct Case {
  long n;
  double* a;
  double* b;
  long i;
};

VC_INLINE Case anyCase() {
  Case out;
  out.n = anySize();
  out.a = vc_array_double("a", out.n);
  out.b = vc_array_double("b", out.n);
  out.i = anyIndex(out.n);
  return out;
}

// In-place and out-of-place operators of sequences and rasters
#define IN_PLACE_VECTOR(name, op) \
  VC_PROOF(name##_in_place) { \
    const auto c = anyCase(); \
    Sequence<double> x(c.n, c.a); \
    const Sequence<double> y(c.n, c.b); \
    auto& out = (x op## = y); \
    vc_assert(&out == &x && long(x.size()) == c.n, "the left operand is modified"); \
    vc_assert(x[c.i] == (c.a[c.i] op c.b[c.i]), "element-wise"); \
    vc_assert(y[c.i] == c.b[c.i], "the right operand is not modified"); \
  } \
  VC_PROOF(name##_out_of_place) { \
    const auto c = anyCase(); \
    const Sequence<double> x(c.n, c.a); \
    const Sequence<double> y(c.n, c.b); \
    const auto z = x op y; \
    vc_assert(long(z.size()) == c.n, "size"); \
    vc_assert(z[c.i] == (c.a[c.i] op c.b[c.i]), "element-wise"); \
    vc_assert(x[c.i] == c.a[c.i] && y[c.i] == c.b[c.i], "operands are not modified"); \
    vc_assert(&z[c.i] != &x[c.i] && &z[c.i] != &y[c.i], "new memory"); \
  } \
  VC_PROOF(name##_raster) { \
    const auto s = anyShape<2>("length", 2, 0, 2); \
    const long n = product(s, 2); \
    vc_assume(n < VC_MAX); \
    double* a = vc_array_double("a", n); \
    double* b = vc_array_double("b", n); \
    PtrRaster<double, 2> x(s, a); \
    const PtrRaster<double, 2> y(s, b); \
    const long i = anyIndex(n); \
    const double u = a[i]; \
    const double v = b[i]; \
    x op## = y; \
    vc_assert(a[i] == (u op v) && b[i] == v, "element-wise"); \
    vc_assert(samePosition<2>(x.shape(), s), "shape"); \
    x op## = x; \
    vc_assert(a[i] == ((u op v)op(u op v)), "operands aliasing the destination"); \
  }

#define IN_PLACE_SCALAR(name, op) \
  VC_PROOF(name##_scalar) { \
    const long n = anySize(); \
    double* a = vc_array_double("a", n); \
    const double k = vc_double("k", 1, 3); \
    const long i = anyIndex(n); \
    Sequence<double> x(n, a); \
    const Sequence<double> z = x op k; \
    vc_assert(x[i] == a[i], "operands are not modified"); \
    vc_assert(long(z.size()) == n && z[i] == (a[i] op k), "element-wise"); \
    auto& out = (x op## = k); \
    vc_assert(&out == &x && long(x.size()) == n && x[i] == (a[i] op k), "element-wise, in place"); \
  } \
  VC_PROOF(name##_scalar_alias) { \
    const long n = anySize(); \
    double* a = vc_array_double("a", n); \
    const long i = anyIndex(n); \
    const long j = vc_long("j", 0, HI - 1); \
    vc_assume(j >= 0 && j < n); \
    Sequence<double> x(n, a); \
    x op## = x[j]; \
    vc_assert(x[i] == (a[i] op a[j]), "the scalar is an element of the container"); \
  }

IN_PLACE_VECTOR(add, +)
IN_PLACE_VECTOR(subtract, -)
IN_PLACE_VECTOR(multiply, *)
IN_PLACE_SCALAR(add, +)
IN_PLACE_SCALAR(subtract, -)
IN_PLACE_SCALAR(multiply, *)

VC_PROOF(divide_scalar) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const double k = vc_double("k", 1, 3);
  vc_assume(k != 0);
  const long i = anyIndex(n);
  Sequence<double> x(n, a);
  const Sequence<double> z = x / k;
  vc_assert(x[i] == a[i] && z[i] == a[i] / k, "element-wise");
  x /= k;
  vc_assert(x[i] == a[i] / k, "element-wise, in place");
}

VC_PROOF(modulo_scalar) {
  const long n = anySize();
  int* a = vc_array_int("a", n);
  const int k = vc_long("k", 1, 3);
  vc_assume(k >= 1 && k < 1000);
  const long i = anyIndex(n);
  Sequence<int> x(n, a);
  const Sequence<int> z = x % k;
  vc_assert(x[i] == a[i] && z[i] == a[i] % k, "element-wise");
  x %= k;
  vc_assert(x[i] == a[i] % k, "element-wise, in place");
}

VC_PROOF(scalar_on_the_left) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const double k = vc_double("k", -1, 3);
  const long i = anyIndex(n);
  const Sequence<double> x(n, a);
  const Sequence<double> s = k + x;
  const Sequence<double> d = k - x;
  const Sequence<double> p = k * x;
  vc_assert(long(s.size()) == n && long(d.size()) == n && long(p.size()) == n, "size");
  vc_assert(s[i] == a[i] + k, "a + V");
  vc_assert(d[i] == k - a[i], "a - V");
  vc_assert(p[i] == a[i] * k, "a * V");
  vc_assert(x[i] == a[i], "the operand is not modified");
}

VC_PROOF(steps) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const long i = anyIndex(n);
  Sequence<double> x(n, a);
  auto& p = ++x;
  vc_assert(&p == &x && x[i] == a[i] + 1, "++V");
  auto& m = --x;
  vc_assert(&m == &x && x[i] == a[i] + 1 - 1, "--V");
}

VC_PROOF(postfix_steps) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const long i = anyIndex(n);
  Sequence<double> x(n, a);
  const Sequence<double> y = x++;
  vc_assert(y[i] == a[i] && x[i] == a[i] + 1, "V++");
  Sequence<double> u(n, a);
  const Sequence<double> v = u--;
  vc_assert(v[i] == a[i] && u[i] == a[i] - 1, "V--");
}

VC_PROOF(signs) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const long i = anyIndex(n);
  const Sequence<double> x(n, a);
  const Sequence<double> m = -x;
  const Sequence<double> p = +x;
  vc_assert(long(m.size()) == n && m[i] == -a[i], "opposite");
  vc_assert(long(p.size()) == n && p[i] == a[i] && &p[i] != &x[i], "copy");
  vc_assert(x[i] == a[i], "the operand is not modified");
}

// Vectors and positions
VC_PROOF(positions) {
  long* a = vc_array_long("a", 3);
  long* b = vc_array_long("b", 3);
  const Position<3> u {a[0], a[1], a[2]};
  const Position<3> v {b[0], b[1], b[2]};
  const long k = vc_long("k", -2, 2);
  const auto s = u + v;
  const auto d = u - v;
  const auto t = u * k;
  const auto e = u + k;
  const auto f = k - u;
  const auto m = -u;
  for (int i = 0; i < 3; ++i) {
    vc_assert(s[i] == a[i] + b[i] && d[i] == a[i] - b[i] && t[i] == a[i] * k, "element-wise");
    vc_assert(e[i] == a[i] + k && f[i] == k - a[i] && m[i] == -a[i], "element-wise");
    vc_assert(u[i] == a[i] && v[i] == b[i], "operands are not modified");
  }
}

template <Index N>
VC_INLINE void vectors() {
  const long n = 3;
  long* a = vc_array_long("a", n);
  long* b = vc_array_long("b", n);
  Position<N> u(n);
  Position<N> v(n);
  for (int i = 0; i < n; ++i) {
    u[i] = a[i];
    v[i] = b[i];
  }
  const long k = vc_long("k", -2, 3);
  const long i = vc_long("i", 0, 2);
  vc_assume(i >= 0 && i < n);
  vc_assume(a[0] > -VC_MAX && a[0] < VC_MAX && a[1] > -VC_MAX && a[1] < VC_MAX && a[2] > -VC_MAX && a[2] < VC_MAX);
  vc_assume(k > -VC_MAX && k < VC_MAX);
  auto w = +u;
  vc_assert(w[i] == a[i] && &w[i] != &u[i], "copy");
  auto& p = ++w;
  vc_assert(&p == &w && w[i] == a[i] + 1, "pre-increment");
  auto& m = --w;
  vc_assert(&m == &w && w[i] == a[i], "pre-decrement");
  const auto q = w++;
  vc_assert(q[i] == a[i] && w[i] == a[i] + 1, "post-increment");
  const auto r = w--;
  vc_assert(r[i] == a[i] + 1 && w[i] == a[i], "post-decrement");
  w += v;
  vc_assert(w[i] == a[i] + b[i], "in-place addition");
  w -= v;
  vc_assert(w[i] == a[i], "in-place subtraction");
  w += k;
  vc_assert(w[i] == a[i] + k, "in-place addition of a scalar");
  w -= k;
  vc_assert(w[i] == a[i], "in-place subtraction of a scalar");
  w *= k;
  vc_assert(w[i] == a[i] * k, "in-place multiplication by a scalar");
  const auto l = k * u;
  const auto e = k + u;
  const auto s = u - k;
  vc_assert(l[i] == a[i] * k && e[i] == k + a[i] && s[i] == a[i] - k, "scalar on any side");
  if (k > 0) {
    const auto d = u / k;
    const auto t = u % k;
    vc_assert(d[i] == a[i] / k && t[i] == a[i] % k, "division and modulo");
  }
  if (b[0] > 0 && b[1] > 0 && b[2] > 0) {
    const auto t = u % v;
    vc_assert(t[i] == a[i] % b[i], "element-wise modulo");
  }
  vc_assert(u[i] == a[i] && v[i] == b[i], "operands are not modified");
}

VC_PROOF(vectors_3) { vectors<3>(); }
VC_PROOF(vectors_var3) { vectors<-1>(); }

// Fill, range, generate, apply
VC_PROOF(fill) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const double v = vc_double("v", -2, 2);
  const long i = anyIndex(n);
  Sequence<double> x(n, a);
  auto& out = x.fill(v);
  vc_assert(&out == &x && long(x.size()) == n && x[i] == v, "filled");
}

VC_PROOF(fill_int) {
  const auto s = anyShape<2>("length", 2, 0, 3);
  const long n = product(s, 2);
  vc_assume(n < VC_MAX);
  int* d = vc_array_int("data", n + 2);
  const int v = vc_long("v", -2, 300);
  vc_assume(v > -1000 && v < 1000);
  const long i = vc_long("i", 0, 9);
  vc_assume(i >= 0 && i < n);
  const int before = d[0];
  const int after = d[n + 1];
  PtrRaster<int, 2> r(s, d + 1);
  r.fill(v);
  vc_assert(d[i + 1] == v, "filled");
  vc_assert(d[0] == before && d[n + 1] == after, "no other memory is modified");
}

VC_PROOF(fill_alias) {
  const long n = anySize(1);
  double* a = vc_array_double("a", n);
  const long i = anyIndex(n);
  Sequence<double> x(n, a);
  x.fill(x[n - 1]);
  vc_assert(x[i] == a[n - 1], "filled with an element of the container");
}

VC_PROOF(range) {
  const long n = anySize();
  const long lo = vc_long("min", -3, 3);
  const long step = vc_long("step", -3, 3);
  vc_assume(lo > -VC_MAX && lo < VC_MAX && step > -1000 && step < 1000);
  const long i = anyIndex(n);
  Sequence<long> x(n);
  auto& out = x.range(lo, step);
  vc_assert(&out == &x && long(x.size()) == n, "size");
  vc_assert(x[i] == lo + i * step, "evenly spaced");
  vc_assert(x[0] == lo, "starts from the minimum");
  Sequence<long> y(n);
  y.range();
  vc_assert(y[i] == i, "default range");
}

VC_PROOF(range_double) {
  const long n = anySize();
  const double lo = vc_double("min", -2, 2);
  const double step = vc_double("step", -2, 2);
  const long i = anyIndex(n);
  Sequence<double> x(n);
  x.range(lo, step);
  vc_assert(x[0] == lo, "starts from the minimum");
  if (i + 1 < n) {
    vc_assert(x[i + 1] == x[i] + step, "difference between adjacent values");
  }
}

VC_PROOF(range_alias) {
  const long n = anySize(1);
  long* a = vc_array_long("a", n);
  const long p = vc_long("p", 0, 4);
  const long q = vc_long("q", 0, 4);
  vc_assume(p >= 0 && p < n && q >= 0 && q < n);
  vc_assume(a[p] > -VC_MAX && a[p] < VC_MAX && a[q] > -1000 && a[q] < 1000);
  const long i = anyIndex(n);
  Sequence<long> x(n, a);
  x.range(x[p], x[q]);
  vc_assert(x[i] == a[p] + i * a[q], "bounds are elements of the container");
}

VC_PROOF(linspace_double) {
  const long n = anySize(1);
  const double lo = vc_double("min", -2, 2);
  const double hi = vc_double("max", -2, 2);
  const long i = anyIndex(n);
  Sequence<double> x(n);
  auto& out = x.linspace(lo, hi);
  vc_assert(&out == &x && long(x.size()) == n, "size");
  vc_assert(x[n - 1] == hi, "the last value is the maximum");
  if (n > 1) {
    vc_assert(x[0] == lo, "the first value is the minimum");
  }
  if (i < n - 1) {
    vc_assert(x[i] == lo + (hi - lo) / (n - 1) * i, "linearly spaced");
  }
}

VC_PROOF(linspace_int) {
  const long n = anySize(1);
  const long lo = vc_long("min", -5, 5);
  const long hi = vc_long("max", -5, 5);
  vc_assume(lo > -VC_MAX && lo < VC_MAX && hi > -VC_MAX && hi < VC_MAX);
  const long i = anyIndex(n);
  Sequence<long> x(n);
  x.linspace(lo, hi);
  vc_assert(x[n - 1] == hi, "the last value is the maximum");
  if (i < n - 1) {
    vc_assert(x[i] == lo + (hi - lo) / (n - 1) * i, "linearly spaced");
  }
}

VC_PROOF(empty) {
  const double v = vc_double("v", -1, 1);
  Sequence<double> x(0);
  x.fill(v);
  x.range(v, v);
  x.linspace(v, v);
  x.generate([&]() {
    return v;
  });
  x.apply([&](double e) {
    return e + v;
  });
  x += x;
  x *= v;
  ++x;
  vc_assert(x.size() == 0 && x.begin() == x.end(), "still empty");
  const auto y = x + x;
  const auto z = -x;
  vc_assert(y.size() == 0 && z.size() == 0, "still empty");
}

VC_PROOF(generate_0) {
  const long n = anySize();
  const long i = anyIndex(n);
  Sequence<long> x(n);
  long count = 0;
  auto& out = x.generate([&]() {
    return 3 * count++;
  });
  vc_assert(&out == &x && count == n, "one call per element");
  vc_assert(x[i] == 3 * i, "in increasing order");
}

VC_PROOF(generate_1) {
  const auto c = anyCase();
  Sequence<double> x(c.n, c.a);
  const Sequence<double> y(c.n, c.b);
  long count = 0;
  x.generate(
      [&](double e) {
        return 2 * e + count++;
      },
      y);
  vc_assert(count == c.n, "one call per element");
  vc_assert(x[c.i] == 2 * c.b[c.i] + c.i && y[c.i] == c.b[c.i], "element-wise in increasing order");
}

VC_PROOF(generate_2) {
  const auto c = anyCase();
  Sequence<double> x(c.n);
  const Sequence<double> y(c.n, c.a);
  const Sequence<double> z(c.n, c.b);
  x.generate(
      [](double e, double f) {
        return 2 * e - f;
      },
      y,
      z);
  vc_assert(x[c.i] == 2 * c.a[c.i] - c.b[c.i], "element-wise");
  vc_assert(y[c.i] == c.a[c.i] && z[c.i] == c.b[c.i], "arguments are not modified");
}

VC_PROOF(generate_alias) {
  const auto c = anyCase();
  Sequence<double> x(c.n, c.a);
  const Sequence<double> y(c.n, c.b);
  x.generate(
      [](double e, double f) {
        return 2 * e - f;
      },
      x,
      y);
  vc_assert(x[c.i] == 2 * c.a[c.i] - c.b[c.i], "argument aliasing the destination");
}

VC_PROOF(apply_0) {
  const long n = anySize();
  double* a = vc_array_double("a", n);
  const long i = anyIndex(n);
  Sequence<double> x(n, a);
  long count = 0;
  auto& out = x.apply([&](double e) {
    return 2 * e + count++;
  });
  vc_assert(&out == &x && count == n && x[i] == 2 * a[i] + i, "element-wise in increasing order");
}

VC_PROOF(apply_1) {
  const auto c = anyCase();
  Sequence<double> x(c.n, c.a);
  const Sequence<double> y(c.n, c.b);
  x.apply(
      [](double e, double f) {
        return 2 * e - f;
      },
      y);
  vc_assert(x[c.i] == 2 * c.a[c.i] - c.b[c.i] && y[c.i] == c.b[c.i], "element-wise");
}

VC_PROOF(apply_2) {
  const auto c = anyCase();
  Sequence<double> x(c.n, c.a);
  const Sequence<double> y(c.n, c.b);
  x.apply(
      [](double e, double f, double g) {
        return e - 2 * f + 4 * g;
      },
      y,
      x);
  vc_assert(x[c.i] == c.a[c.i] - 2 * c.b[c.i] + 4 * c.a[c.i] && y[c.i] == c.b[c.i], "element-wise");
}

VC_PROOF(frame) {
  const long n = anySize();
  double* d = vc_array_double("data", n + 2);
  const double before = d[0];
  const double after = d[n + 1];
  PtrRaster<double, 1> r({n}, d + 1);
  r.apply([](double e) {
    return e + 1;
  });
  r += 2.;
  r += r;
  r.range(1., 2.);
  ++r;
  r.generate([]() {
    return 3.;
  });
  vc_assert(d[0] == before && d[n + 1] == after, "no other memory is modified");
}

// Extrema
template <typename TFunc>
VC_INLINE void extremum(TFunc&& func, bool sign) {
  const long n = anySize(1);
  long* a = vc_array_long("a", n);
  const Sequence<long> x(n, a);
  const long& m = func(x);
  const long i = anyIndex(n);
  vc_assert(sign ? m >= a[i] : m <= a[i], "extreme");
  vc_assert(&m >= x.data() && &m < x.data() + n, "an element of the container");
}

VC_PROOF(min) {
  extremum(
      [](const auto& x) -> const long& {
        return x.min();
      },
      false);
}

VC_PROOF(max) {
  extremum(
      [](const auto& x) -> const long& {
        return x.max();
      },
      true);
}

// Mathematical functions
#define MATH(name, expr) \
  VC_PROOF(math_##name) { \
    const long n = anySize(); \
    double* a = vc_array_double("a", n); \
    const long i = anyIndex(n); \
    Sequence<double> x(n, a); \
    const Sequence<double> y = Litl::name(x); \
    vc_assert(x[i] == a[i], "the operand is not modified"); \
    x.name(); \
    const double e = a[i]; \
    vc_assert(x[i] == (expr) && y[i] == (expr), "element-wise"); \
  }

MATH(abs, e >= 0 ? e : -e)
MATH(floor, std::floor(e))
MATH(ceil, std::ceil(e))
MATH(round, std::round(e))
MATH(trunc, std::trunc(e))
#ifdef VC_SYMBOLIC
MATH(cos, std::cos(e))
MATH(sin, std::sin(e))
MATH(exp, std::exp(e))
#endif

#ifndef VC_SYMBOLIC
#define SAME(name) \
  x = Sequence<double>(v); \
  y = Litl::name(x); \
  vc_assert(x == Sequence<double>(v), "the operand is not modified"); \
  x.name(); \
  for (long i = 0; i < n; ++i) { \
    const double e = std::name(v[i]); \
    vc_assert((x[i] == e && y[i] == e) || (std::isnan(e) && std::isnan(x[i]) && std::isnan(y[i])), #name); \
  }

VC_BOUNDED(math_functions) {
  const long n = vc_long("n", 0, 3);
  std::vector<double> v;
  for (long i = 0; i < n; ++i) {
    v.push_back(vc_double("v", -2, 2));
  }
  Sequence<double> x;
  Sequence<double> y;
  SAME(abs)
  SAME(ceil)
  SAME(floor)
  SAME(trunc)
  SAME(round)
  SAME(cos)
  SAME(sin)
  SAME(tan)
  SAME(acos)
  SAME(asin)
  SAME(atan)
  SAME(cosh)
  SAME(sinh)
  SAME(tanh)
  SAME(acosh)
  SAME(asinh)
  SAME(atanh)
  SAME(exp)
  SAME(exp2)
  SAME(expm1)
  SAME(log)
  SAME(log2)
  SAME(log10)
  SAME(log1p)
  SAME(sqrt)
  SAME(cbrt)
  SAME(erf)
  SAME(erfc)
  SAME(tgamma)
  SAME(lgamma)
}

#define SAME2(name) \
  x = Sequence<double>(v); \
  y = Litl::name(x, w); \
  z = Litl::name(x, k); \
  vc_assert(x == Sequence<double>(v), "the operand is not modified"); \
  x.name(w); \
  for (long i = 0; i < n; ++i) { \
    const double e = std::name(v[i], w[i]); \
    const double f = std::name(v[i], k); \
    vc_assert((x[i] == e && y[i] == e) || (std::isnan(e) && std::isnan(x[i]) && std::isnan(y[i])), #name); \
    vc_assert(z[i] == f || (std::isnan(f) && std::isnan(z[i])), #name); \
  }

VC_BOUNDED(binary_math_functions) {
  const long n = vc_long("n", 0, 3);
  std::vector<double> v;
  std::vector<double> w;
  for (long i = 0; i < n; ++i) {
    v.push_back(vc_double("v", -2, 2));
    w.push_back(vc_double("w", -2, 2));
  }
  const double k = vc_double("k", -2, 2);
  Sequence<double> x;
  Sequence<double> y;
  Sequence<double> z;
  SAME2(fdim)
  SAME2(fmod)
  SAME2(atan2)
  SAME2(pow)
  SAME2(hypot)
}

// Integers, with division and modulo
VC_BOUNDED(integers) {
  const long n = vc_long("n", 0, 4);
  std::vector<int> a;
  std::vector<int> b;
  for (long i = 0; i < n; ++i) {
    a.push_back(vc_long("a", -9, 9));
    b.push_back(vc_bool("negative") ? vc_long("b", -4, -1) : vc_long("b", 1, 4));
  }
  const int k = vc_long("k", 1, 5);
  const Sequence<int> x(a);
  const Sequence<int> y(b);
  const auto sum = x + y;
  const auto difference = x - y;
  const auto productxy = x * y;
  const auto quotient = x / y;
  const auto remainder = x % y;
  const auto sumk = x + k;
  const auto ksum = k + x;
  const auto differencek = x - k;
  const auto kdifference = k - x;
  const auto productk = x * k;
  const auto quotientk = x / k;
  const auto remainderk = x % k;
  for (long i = 0; i < n; ++i) {
    vc_assert(sum[i] == a[i] + b[i] && difference[i] == a[i] - b[i] && productxy[i] == a[i] * b[i], "+ - *");
    vc_assert(quotient[i] == a[i] / b[i] && remainder[i] == a[i] % b[i], "/ %");
    vc_assert(sumk[i] == a[i] + k && ksum[i] == a[i] + k && differencek[i] == a[i] - k && kdifference[i] == k - a[i], "+ -");
    vc_assert(productk[i] == a[i] * k && quotientk[i] == a[i] / k && remainderk[i] == a[i] % k, "* / %");
    vc_assert(x[i] == a[i] && y[i] == b[i], "operands are not modified");
  }
}

VC_BOUNDED(extrema) {
  const long n = vc_long("n", 1, 5);
  std::vector<int> a;
  for (long i = 0; i < n; ++i) {
    a.push_back(vc_long("a", -3, 3));
  }
  const Sequence<int> x(a);
  const int lo = *std::min_element(a.begin(), a.end());
  const int hi = *std::max_element(a.begin(), a.end());
  vc_assert(x.min() == lo && x.max() == hi, "extrema");
  const auto p = x.minmax();
  vc_assert(p.first == lo && p.second == hi, "both extrema");
  vc_assert(&p.first >= x.begin() && &p.first < x.end() && &p.second >= x.begin() && &p.second < x.end(), "elements");
  vc_assert(std::equal(x.begin(), x.end(), a.begin()), "the container is not modified");
}

// A functor with state, arguments of different types, variable dimension, other holders
VC_BOUNDED(other_containers) {
  const auto s = anyShape<-1>("length", 2, 0, 3);
  const long n = product(s, 2);
  int* d = vc_array_int("data", n);
  Raster<int, -1> r(s);
  std::copy_n(d, n, r.begin());
  Raster<double, 2> q({s[0], s[1]});
  q.range(1., .5);
  std::vector<long> v(n, 7);
  std::vector<long> order;
  r.apply(
      [&](int e, double f, long g) {
        order.push_back(long(order.size()));
        return int(e + 2 * f + g);
      },
      q,
      v);
  vc_assert(long(order.size()) == n, "one call per element");
  for (long i = 0; i < n; ++i) {
    vc_assert(q[i] == 1 + .5 * i, "range");
    vc_assert(r[i] == int(d[i] + 2 * q[i] + 7), "element-wise");
  }
  ValRaster<int, 2> u({s[0], s[1]});
  vc_assume(n > 0);
  u.fill(1);
  u += 3;
  u -= u;
  for (long i = 0; i < n; ++i) {
    vc_assert(u[i] == 0, "valarray");
  }
}
#endif
