// Contracts of the Box geometry: every operation acts on each axis as the interval operation.
#include "common.h"

template <Index N>
VC_INLINE Position<N> pos(const char* name, Index dim, long lo = -2, long hi = 2) {
  auto p = anyPosition<N>(name, dim, lo, hi);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(p[i] > -VC_MAX && p[i] < VC_MAX);
  }
  return p;
}

template <Index N>
VC_INLINE bool isBox(const Box<N>& box, const Position<N>& f, const Position<N>& b) {
  return samePosition<N>(box.front(), f) && samePosition<N>(box.back(), b);
}

template <Index N>
VC_INLINE void construction(Index dim) {
  const auto f = pos<N>("front", dim);
  const auto b = pos<N>("back", dim);
  const Box<N> box(f, b);
  vc_assert(isBox<N>(box, f, b), "front and back are those given");
  vc_assert(box.dimension() == dim, "dimension");
  bool ok = true;
  bool none = false;
  long s = 1;
  const auto shape = box.shape();
  vc_assert(long(shape.size()) == dim, "dimension of the shape");
  for (Index i = 0; i < dim; ++i) {
    const long l = b[i] - f[i] + 1;
    ok = ok && shape[i] == l && box.length(i) == l;
    none = none || l <= 0;
    s *= l;
  }
  vc_assert(ok, "shape and lengths are back-front+1");
  vc_assert(box.template length<0>() == b[0] - f[0] + 1, "static length");
  vc_assert(box.size() == (none ? 0 : s), "size is the number of positions");
  const auto g = Box<N>::fromShape(f, shape);
  vc_assert(isBox<N>(g, f, b), "fromShape has the given front and shape");
  const long r = vc_long("radius", 0, 2);
  vc_assume(r > -VC_MAX && r < VC_MAX);
  const auto c = Box<N>::fromCenter(r, f);
  ok = true;
  for (Index i = 0; i < dim; ++i) {
    ok = ok && c.front()[i] == f[i] - r && c.back()[i] == f[i] + r;
  }
  vc_assert(ok, "fromCenter spans center-radius to center+radius");
}

VC_PROOF(construction_1) { construction<1>(1); }
VC_PROOF(construction_2) { construction<2>(2); }
VC_PROOF(construction_3) { construction<3>(3); }
VC_PROOF(construction_4) { construction<4>(4); }
VC_PROOF(construction_var3) { construction<-1>(3); }

VC_PROOF(defaults) {
  const auto b = Box<3>::fromCenter();
  vc_assert(isBox<3>(b, Position<3> {-1, -1, -1}, Position<3> {1, 1, 1}), "unit ball by default");
  const auto w = Box<3>::whole();
  const auto p = pos<3>("pos", 3);
  vc_assert(samePosition<3>(w.front(), Position<3>::zero()) && w.back().isInf(), "the whole box starts from zero");
  vc_assert(insideBox<3>(p, w.front(), w.back()) == (p[0] >= 0 && p[1] >= 0 && p[2] >= 0), "the whole box is unlimited");
}

template <Index N>
VC_INLINE void equality(Index dim) {
  const Box<N> a(pos<N>("f", dim, 0, 1), pos<N>("b", dim, 0, 1));
  const Box<N> b(pos<N>("g", dim, 0, 1), pos<N>("c", dim, 0, 1));
  bool same = true;
  for (Index i = 0; i < dim; ++i) {
    same = same && a.front()[i] == b.front()[i] && a.back()[i] == b.back()[i];
  }
  vc_assert((a == b) == same, "equality");
  vc_assert((a != b) == !same, "difference");
}

VC_PROOF(equality_1) { equality<1>(1); }
VC_PROOF(equality_2) { equality<2>(2); }
VC_PROOF(equality_3) { equality<3>(3); }
VC_PROOF(equality_var2) { equality<-1>(2); }

template <Index N>
VC_INLINE void projection(Index dim) {
  const Box<N> a(pos<N>("f", dim, -1, 1), pos<N>("b", dim, -1, 1));
  for (Index axis = 0; axis < dim; ++axis) {
    const auto p = project(a, axis);
    Box<N> q = a;
    auto& r = q.project(axis);
    vc_assert(&r == &q, "in-place projection returns the box");
    bool ok = true;
    for (Index i = 0; i < dim; ++i) {
      ok = ok && p.front()[i] == a.front()[i] && p.back()[i] == (i == axis ? a.front()[i] : a.back()[i]);
    }
    vc_assert(ok, "only the projected axis is flattened to the front");
    vc_assert(p == q, "same projection in place");
  }
  vc_assert(project(a) == project(a, 0), "projection along the first axis by default");
}

VC_PROOF(projection_1) { projection<1>(1); }
VC_PROOF(projection_2) { projection<2>(2); }
VC_PROOF(projection_3) { projection<3>(3); }
VC_PROOF(projection_var2) { projection<-1>(2); }

template <Index N>
VC_INLINE bool added(const Box<N>& out, const Box<N>& in, const Position<N>& f, const Position<N>& b, long sign) {
  bool ok = long(out.front().size()) == long(in.front().size()) && long(out.back().size()) == long(in.back().size());
  for (std::size_t i = 0; i < in.front().size(); ++i) {
    ok = ok && out.front()[i] == in.front()[i] + sign * f[i] && out.back()[i] == in.back()[i] + sign * b[i];
  }
  return ok;
}

template <Index N>
VC_INLINE void shifts(Index dim) {
  const Box<N> a(pos<N>("f", dim, -1, 1), pos<N>("b", dim, -1, 1));
  const auto v = pos<N>("shift", dim, -1, 1);
  const Position<N> keep = v;
  Box<N> c = a;
  auto& r = (c += v);
  vc_assert(&r == &c && added<N>(c, a, v, v, 1), "in-place shift");
  c -= v;
  vc_assert(c == a, "shift back");
  c -= v;
  vc_assert(added<N>(c, a, v, v, -1), "in-place backward shift");
  vc_assert(added<N>(a + v, a, v, v, 1), "shift");
  vc_assert(added<N>(a - v, a, v, v, -1), "backward shift");
  vc_assert((a + v) - v == a, "shift then back");
  vc_assert(samePosition<N>(v, keep), "the operand is unchanged");
}

// Shifts by the bounds of the box itself
template <Index N>
VC_INLINE void ownShifts(Index dim) {
  const Box<N> a(pos<N>("f", dim, -1, 1), pos<N>("b", dim, -1, 1));
  Box<N> c = a;
  c += c.front();
  vc_assert(added<N>(c, a, a.front(), a.front(), 1), "in-place shift by the front");
  c = a;
  c -= c.front();
  vc_assert(added<N>(c, a, a.front(), a.front(), -1), "in-place backward shift by the front");
  c = a;
  c += c.back();
  vc_assert(added<N>(c, a, a.back(), a.back(), 1), "in-place shift by the back");
  c = a;
  c -= c.back();
  vc_assert(added<N>(c, a, a.back(), a.back(), -1), "in-place backward shift by the back");
  vc_assert(added<N>(a - a.front(), a, a.front(), a.front(), -1), "shift to the origin");
  c = a;
  c += c;
  vc_assert(added<N>(c, a, a.front(), a.back(), 1), "grown by itself");
}

VC_PROOF(own_shift_1) { ownShifts<1>(1); }
VC_PROOF(own_shift_2) { ownShifts<2>(2); }
VC_PROOF(own_shift_3) { ownShifts<3>(3); }
VC_PROOF(own_shift_var2) { ownShifts<-1>(2); }

VC_PROOF(shift_1) { shifts<1>(1); }
VC_PROOF(shift_2) { shifts<2>(2); }
VC_PROOF(shift_3) { shifts<3>(3); }
VC_PROOF(shift_var2) { shifts<-1>(2); }

template <Index N>
VC_INLINE void scalars(Index dim) {
  const Box<N> a(pos<N>("f", dim), pos<N>("b", dim));
  const long s = vc_long("scalar", -2, 2);
  vc_assume(s > -VC_MAX && s < VC_MAX);
  Position<N> v(dim);
  Position<N> one(dim);
  for (Index i = 0; i < dim; ++i) {
    v[i] = s;
    one[i] = 1;
  }
  Box<N> c = a;
  auto& r = (c += s);
  vc_assert(&r == &c && added<N>(c, a, v, v, 1), "in-place scalar addition");
  c -= s;
  vc_assert(c == a, "and back");
  c -= s;
  vc_assert(added<N>(c, a, v, v, -1), "in-place scalar subtraction");
  vc_assert(added<N>(a + s, a, v, v, 1), "scalar addition");
  vc_assert(added<N>(a - s, a, v, v, -1), "scalar subtraction");
  Box<N> d = a;
  ++d;
  vc_assert(added<N>(d, a, one, one, 1), "increment");
  --d;
  --d;
  vc_assert(added<N>(d, a, one, one, -1), "decrement");
  Box<N> e = a;
  vc_assert(+e == a, "copy");
  const auto n = -e;
  bool ok = true;
  for (Index i = 0; i < dim; ++i) {
    ok = ok && n.front()[i] == -a.front()[i] && n.back()[i] == -a.back()[i];
  }
  vc_assert(ok && e == a, "opposite");
}

VC_PROOF(scalar_1) { scalars<1>(1); }
VC_PROOF(scalar_2) { scalars<2>(2); }
VC_PROOF(scalar_3) { scalars<3>(3); }
VC_PROOF(scalar_var2) { scalars<-1>(2); }

template <Index N>
VC_INLINE void margins(Index dim, long lo = -1, long hi = 1) {
  const Box<N> a(pos<N>("f", dim, lo, hi), pos<N>("b", dim, lo, hi));
  const Box<N> m(pos<N>("mf", dim, lo, hi), pos<N>("mb", dim, lo, hi));
  const Box<N> keep = m;
  Box<N> c = a;
  auto& r = (c += m);
  vc_assert(&r == &c && added<N>(c, a, m.front(), m.back(), 1), "in-place growth");
  c -= m;
  vc_assert(c == a, "grow then shrink");
  c -= m;
  vc_assert(added<N>(c, a, m.front(), m.back(), -1), "in-place shrinkage");
  vc_assert(added<N>(a + m, a, m.front(), m.back(), 1), "growth");
  vc_assert(added<N>(a - m, a, m.front(), m.back(), -1), "shrinkage");
  vc_assert(m == keep, "the margin is unchanged");
}

VC_PROOF(margin_1) { margins<1>(1); }
VC_PROOF(margin_2) { margins<2>(2, 0, 1); }
VC_PROOF(margin_3) { margins<3>(3, 0, 1); }
VC_PROOF(margin_var2) { margins<-1>(2, 0, 1); }

VC_PROOF(margin_self) {
  Box<2> a(pos<2>("f", 2), pos<2>("b", 2));
  const Box<2> k = a;
  a += a;
  vc_assert(added<2>(a, k, k.front(), k.back(), 1), "growth by itself");
  Box<2> c = k;
  c += c.front();
  vc_assert(added<2>(c, k, k.front(), k.front(), 1) || k.front()[0] != 0 || k.front()[1] != 0, "no-op shift");
}

// Clamping
template <typename T>
VC_INLINE T clampRef(T x, long lo, long hi) {
  return x < lo ? T(lo) : x > hi ? T(hi) : x;
}

template <Index N>
VC_INLINE void clamps(Index dim, long lo = -2, long hi = 4) {
  const auto p = pos<N>("pos", dim, lo, hi);
  const auto s = anyShape<N>("length", dim, 1, 3);
  const auto q = clamp(p, s);
  bool ok = long(q.size()) == dim;
  bool in = true;
  for (Index i = 0; i < dim; ++i) {
    ok = ok && q[i] == clampRef(p[i], 0, s[i] - 1);
    in = in && p[i] >= 0 && p[i] < s[i];
  }
  vc_assert(ok, "closest position inside the shape");
  vc_assert(inside<N>(q, s), "inside the shape");
  vc_assert(!in || samePosition<N>(p, q), "positions inside are unchanged");
  const auto f = pos<N>("front", dim, -1, 1);
  const Box<N> box(f, f + s - 1);
  const auto r = clamp(p, box);
  ok = long(r.size()) == dim;
  for (Index i = 0; i < dim; ++i) {
    ok = ok && r[i] == clampRef(p[i], box.front()[i], box.back()[i]);
  }
  vc_assert(ok, "closest position inside the box");
}

VC_PROOF(clamp_1) { clamps<1>(1); }
VC_PROOF(clamp_2) { clamps<2>(2); }
VC_PROOF(clamp_3) { clamps<3>(3, -1, 3); }
VC_PROOF(clamp_var2) { clamps<-1>(2); }

VC_PROOF(clamp_real) {
  Vector<double, 2> p;
  p[0] = vc_double("x", -2, 4);
  p[1] = vc_double("y", -2, 4);
  const auto s = anyShape<2>("length", 2, 1, 3);
  const auto q = clamp(p, s);
  bool ok = true;
  for (Index i = 0; i < 2; ++i) {
    ok = ok && q[i] == (p[i] < 0 ? 0. : p[i] > double(s[i] - 1) ? double(s[i] - 1) : p[i]);
  }
  vc_assert(ok, "closest real position inside the shape");
}

VC_PROOF(clamp_scalar) {
  const long x = vc_long("x", -3, 3);
  const long lo = vc_long("lo", -2, 2);
  const long hi = vc_long("hi", -2, 2);
  vc_assume(lo <= hi);
  vc_assert(clamp(x, lo, hi) == clampRef(x, lo, hi), "clamped value");
}
