// Contracts of balls: geometry, and iteration over exactly the positions within the radius.
#include "common.h"

#include "LitlRaster/Ball.h"

#include <cmath>
#include <vector>

template <Index N>
struct Case {
  double radius;
  Position<N> center;
};

template <Index N>
VC_INLINE Case<N> anyCase(double hi) {
  Case<N> out {vc_double("radius", 0, hi), anyPosition<N>("center", N, -1, 1)};
  vc_assume(out.radius >= 0 && out.radius < 1e9);
  for (Index i = 0; i < N; ++i) {
    vc_assume(out.center[i] > -VC_MAX && out.center[i] < VC_MAX);
  }
  return out;
}

template <Index N, Index P>
VC_INLINE void geometry() {
  const auto c = anyCase<N>(3);
  const Ball<N, P> b(c.radius, c.center);
  vc_assert(b.radius() == c.radius && samePosition(b.center(), c.center), "radius and center");
  vc_assert(b.dimension() == N, "dimension");
  const auto box = b.box();
  const auto shape = b.shape();
  for (Index i = 0; i < N; ++i) {
    const double lower = c.center[i] - c.radius;
    const double upper = c.center[i] + c.radius;
    vc_assert(box.front()[i] >= lower && box.front()[i] - 1 < lower, "front of the bounding box");
    vc_assert(box.back()[i] <= upper && box.back()[i] + 1 > upper, "back of the bounding box");
    vc_assert(b.length(i) == box.length(i) && shape[i] == box.length(i), "lengths of the bounding box");
  }
  vc_assert(b.template length<0>() == box.template length<0>(), "length at compile time");
}

VC_PROOF(geometry_1_2) { geometry<1, 2>(); }
VC_PROOF(geometry_2_1) { geometry<2, 1>(); }
VC_PROOF(geometry_2_2) { geometry<2, 2>(); }
VC_PROOF(geometry_3_2) { geometry<3, 2>(); }

VC_PROOF(default_center) {
  const double r = vc_double("radius", 0, 3);
  const Ball<3, 1> b(r);
  vc_assert(b.radius() == r && b.center().isZero(), "centered at the origin");
}

VC_PROOF(equality) {
  const auto c = anyCase<2>(1);
  const auto d = anyCase<2>(1);
  const Ball<2, 2> a(c.radius, c.center);
  const Ball<2, 2> b(d.radius, d.center);
  const bool same = c.radius == d.radius && c.center[0] == d.center[0] && c.center[1] == d.center[1];
  vc_assert((a == b) == same && (a != b) == not same, "equality");
}

VC_PROOF(shift) {
  const auto c = anyCase<2>(1);
  const auto v = anyPosition<2>("vector", 2, -2, 2);
  const long s = vc_long("scalar", -2, 2);
  const auto is = [&](const Ball<2, 1>& b, long x, long y) {
    return b.radius() == c.radius && b.center()[0] == x && b.center()[1] == y;
  };
  const long x = c.center[0];
  const long y = c.center[1];
  Ball<2, 1> b(c.radius, c.center);
  vc_assert(is(b + v, x + v[0], y + v[1]) && is(b - v, x - v[0], y - v[1]), "shift by a vector");
  vc_assert(is(b + s, x + s, y + s) && is(b - s, x - s, y - s), "shift by a scalar");
  vc_assert(is(-b, -x, -y) && is(+b, x, y), "opposite and copy");
  vc_assert(is(b, x, y), "operands are not modified");
  b += v;
  vc_assert(is(b, x + v[0], y + v[1]), "+= vector");
  b -= v;
  vc_assert(is(b, x, y), "-= undoes +=");
  b += s;
  vc_assert(is(b, x + s, y + s), "+= scalar");
  b -= s;
  vc_assert(is(b, x, y), "-= undoes +=");
  ++b;
  vc_assert(is(b, x + 1, y + 1), "++");
  --b;
  vc_assert(is(b, x, y), "--");
}

// Distance to the center, to the power P
template <Index N, Index P>
VC_INLINE double distance(const Position<N>& p, const Position<N>& c) {
  double out = 0;
  for (Index i = 0; i < N; ++i) {
    const double d = double(p[i]) - double(c[i]);
    out += P == 1 ? std::abs(d) : d * d;
  }
  return out;
}

// Row-major order
template <Index N>
VC_INLINE bool before(const Position<N>& p, const Position<N>& q) {
  bool out = false;
  for (Index i = 0; i < N; ++i) {
    out = (p[i] < q[i]) | ((p[i] == q[i]) & out);
  }
  return out;
}

// Use what the iterator tested when it was at the position before q
template <Index N>
VC_INLINE void steppedTo(const Position<N>& q, const Box<N>& box) {
  Position<N> d = q;
  bool carry = true;
  for (Index i = 0; i < N; ++i) {
    const bool c = carry;
    carry = carry & (q[i] == box.front()[i]);
    d[i] = c ? (carry ? box.back()[i] : d[i] - 1) : d[i];
  }
  if (N == 2) {
    vc_iteration_2(d[0], d[1]);
  } else if (N == 3) {
    vc_iteration_3(d[0], d[1], d[2]);
  }
}

template <Index N, Index P>
VC_INLINE double power(double radius) {
  return P == 1 ? radius : radius * radius;
}

// The iterator after that at any position of the ball is at the next position of the ball, or at the end
template <Index N, Index P>
VC_INLINE void next() {
  const auto c = anyCase<N>(3);
  const auto p = anyPosition<N>("p", N, -2, 2);
  const Ball<N, P> b(c.radius, c.center);
  const auto box = b.box();
  const double rp = power<N, P>(c.radius);
  vc_assume(insideBox<N>(p, box.front(), box.back()));
  vc_assume(distance<N, P>(p, c.center) <= rp);
  typename Ball<N, P>::Iterator it(b, p);
  vc_assert(samePosition<N>(*it, p), "starts at a position of the ball");
  ++it;
  const auto q = anyPosition<N>("q", N, -2, 2);
  vc_assume(insideBox<N>(q, box.front(), box.back()));
  vc_assume(before<N>(p, q));
  if (it != end(b)) {
    vc_assert(insideBox<N>(*it, box.front(), box.back()), "in the bounding box");
    vc_assert(distance<N, P>(*it, c.center) <= rp, "in the ball");
    vc_assert(before<N>(p, *it), "after the previous position");
    vc_assume(before<N>(q, *it));
  }
  steppedTo<N>(q, box);
  vc_assert(distance<N, P>(q, c.center) > rp, "skipped positions are out of the ball");
}

VC_PROOF(next_1_1) { next<1, 1>(); }
VC_PROOF(next_1_2) { next<1, 2>(); }
VC_PROOF(next_2_1) { next<2, 1>(); }
VC_PROOF(next_2_2) { next<2, 2>(); }
VC_PROOF(next_3_1) { next<3, 1>(); }
VC_PROOF(next_3_2) { next<3, 2>(); }

VC_PROOF(post_increment) {
  const auto c = anyCase<2>(3);
  const auto p = anyPosition<2>("p", 2, -4, 4);
  const Ball<2, 1> b(c.radius, c.center);
  const auto box = b.box();
  vc_assume(insideBox<2>(p, box.front(), box.back()));
  vc_assume(distance<2, 1>(p, c.center) <= c.radius);
  typename Ball<2, 1>::Iterator it(b, p);
  const auto copy = it;
  const auto previous = it++;
  vc_assert(samePosition<2>(*previous, p) && previous == copy, "post-increment gives the previous iterator");
  vc_assert(samePosition<2>(*copy, p), "copies do not step");
  vc_assert(it != previous, "post-increment steps");
}

// Iteration starts at the first position of the ball
template <Index N, Index P>
VC_INLINE void first() {
  const auto c = anyCase<N>(3);
  const auto q = anyPosition<N>("q", N, -4, 4);
  const Ball<N, P> b(c.radius, c.center);
  const auto box = b.box();
  const double rp = power<N, P>(c.radius);
  vc_assume(insideBox<N>(q, box.front(), box.back()));
  const auto it = begin(b);
  if (N == 2) {
    vc_iteration_2(c.center[0], c.center[1]);
  } else if (N == 3) {
    vc_iteration_3(c.center[0], c.center[1], c.center[2]);
  }
  vc_assert(it != end(b), "a ball is not empty");
  vc_assert(insideBox<N>(*it, box.front(), box.back()), "in the bounding box");
  vc_assert(distance<N, P>(*it, c.center) <= rp, "in the ball");
  vc_assume(before<N>(q, *it));
  if (N == 2) {
    vc_iteration_2(q[0], q[1]);
  } else if (N == 3) {
    vc_iteration_3(q[0], q[1], q[2]);
  }
  vc_assert(distance<N, P>(q, c.center) > rp, "previous positions are out of the ball");
}

VC_PROOF(first_1_1) { first<1, 1>(); }
VC_PROOF(first_1_2) { first<1, 2>(); }
VC_PROOF(first_2_1) { first<2, 1>(); }
VC_PROOF(first_2_2) { first<2, 2>(); }
VC_PROOF(first_3_1) { first<3, 1>(); }
VC_PROOF(first_3_2) { first<3, 2>(); }

#ifndef VC_SYMBOLIC

template <Index N, Index P>
void iteration(double hi) {
  auto c = anyCase<N>(hi);
  c.center += 1000000 * vc_long("far", 0, 1);
  const Ball<N, P> b(c.radius, c.center);
  std::vector<Position<N>> expected;
  const long r = c.radius + 1;
  const double rp = std::pow(c.radius, P);
  for (const auto& p : Box<N>(c.center - r, c.center + r)) {
    double d = 0;
    for (Index i = 0; i < N; ++i) {
      d += std::pow(std::abs(p[i] - c.center[i]), P);
    }
    if (d <= rp) {
      expected.push_back(p);
    }
  }
  std::size_t i = 0;
  for (const auto& p : b) {
    vc_assert(i < expected.size(), "no more positions than those of the ball");
    vc_assert(p == expected[i], "position of the ball, in row-major order");
    ++i;
  }
  vc_assert(i == expected.size(), "all the positions of the ball");
  vc_assert(b.size() == long(expected.size()), "number of positions");
  const std::vector<Position<N>> list(begin(b), end(b));
  vc_assert(list == expected, "positions by iterators");
  // Iterators are copyable
  auto it = begin(b);
  for (i = 0; it != end(b); ++i) {
    auto same = it;
    vc_assert(*same++ == expected[i], "post-increment gives the previous position");
    auto copy = it;
    vc_assert(copy == it && *copy == *it && copy->size() == it->size(), "copy of an iterator");
    ++it;
    vc_assert(*copy == expected[i], "the copy is not incremented");
    ++copy;
    vc_assert(copy == it, "the copy refers to the same ball");
    vc_assert(same == it, "post-increment steps likewise");
  }
  vc_assert(it == end(b), "end");
}

VC_BOUNDED(iteration_1_1) { iteration<1, 1>(5); }
VC_BOUNDED(iteration_1_2) { iteration<1, 2>(5); }
VC_BOUNDED(iteration_2_1) { iteration<2, 1>(6); }
VC_BOUNDED(iteration_2_2) { iteration<2, 2>(6); }
VC_BOUNDED(iteration_3_1) { iteration<3, 1>(4); }
VC_BOUNDED(iteration_3_2) { iteration<3, 2>(4); }
VC_BOUNDED(iteration_4_2) { iteration<4, 2>(2); }

#endif
