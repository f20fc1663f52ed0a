// Contracts of subrasters: with rank(p) the row-major rank of position p in the region, begin() designates the front,
// ++ moves from the pixel of rank r to the pixel of rank r+1 and from the back to end(), end() is no pixel of the region.
#include "common.h"

#include "LitlRaster/Subraster.h"

#include <memory>

template <Index N>
struct Case {
  Position<N> shape;
  int* data;
  Position<N> front;
  Position<N> back;
};

template <Index N>
VC_INLINE Case<N> anyCase(Index dim, long hi) {
  Case<N> out {anyShape<N>("length", dim, 1, hi), nullptr, Position<N>(dim), Position<N>(dim)};
  const long size = product(out.shape, dim);
  vc_assume(size > 0 && size < VC_MAX);
  out.data = vc_array_int("data", size);
  out.front = anyPosition<N>("front", dim, 0, hi - 1);
  for (Index i = 0; i < dim; ++i) {
    const long extent = vc_long("extent", 1, hi);
    vc_assume(0 <= out.front[i] && extent >= 1 && extent < VC_MAX && out.front[i] + extent <= out.shape[i]);
    out.back[i] = out.front[i] + extent - 1;
  }
  return out;
}

template <Index N>
VC_INLINE void properties(Index dim, long hi) {
  auto c = anyCase<N>(dim, hi);
  PtrRaster<int, N> r(c.shape, c.data);
  const auto& cr = r;
  const Box<N> region(c.front, c.back);
  auto sub = r.subraster(region);
  const auto csub = cr.subraster(region);
  vc_assert(&csub.raster() == &cr && &sub.raster() == &r, "parent");
  vc_assert(sub.region() == region && csub.region() == region, "region");
  bool ok = long(csub.shape().size()) == dim;
  long size = 1;
  for (Index i = 0; i < dim; ++i) {
    ok = ok && csub.shape()[i] == c.back[i] - c.front[i] + 1;
    size *= c.back[i] - c.front[i] + 1;
  }
  vc_assert(ok, "shape");
  vc_assert(long(csub.size()) == size && long(sub.size()) == size, "size");
  const auto q = anyPosition<N>("pos", dim, 0, hi - 1);
  Position<N> p = q;
  for (Index i = 0; i < dim; ++i) {
    p[i] += c.front[i];
  }
  vc_assume(insideBox(p, c.front, c.back));
  vc_assume(inside(q, c.shape));
  const long o = rowMajor(p, c.shape);
  vc_assert(&csub[q] == c.data + o && &sub[q] == c.data + o, "pixel at a position relative to the front");
  sub[q] = 9;
  vc_assert(c.data[o] == 9, "written through");
}

VC_PROOF(properties_1) { properties<1>(1, 4); }
VC_PROOF(properties_2) { properties<2>(2, 3); }
VC_PROOF(properties_3) { properties<3>(3, 2); }
VC_PROOF(properties_var2) { properties<-1>(2, 3); }

// begin, end
template <Index N>
VC_INLINE void beginEnd(Index dim, long hi) {
  auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const Box<N> region(c.front, c.back);
  const auto sub = r.subraster(region);
  const auto it = begin(sub);
  const auto e = end(sub);
  vc_assert(it != e, "begin is not end");
  vc_assert(&*it == c.data + rowMajor(c.front, c.shape), "begin designates the front");
  vc_assert(it.operator->() == &*it, "arrow operator");
  vc_assert(*it == c.data[rowMajor(c.front, c.shape)], "value");
}

VC_PROOF(begin_end_1) { beginEnd<1>(1, 4); }
VC_PROOF(begin_end_2) { beginEnd<2>(2, 3); }
VC_PROOF(begin_end_3) { beginEnd<3>(3, 2); }
VC_PROOF(begin_end_var2) { beginEnd<-1>(2, 3); }

// Successor: two increments from the beginning of the row or of its last pixel cannot be distinguished by the
// interface from the constructor, which starts a row at the given position: rows start from front[0].
template <Index N>
VC_INLINE void rowStart(Index dim, long hi) {
  auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const Box<N> region(c.front, c.back);
  const auto sub = r.subraster(region);
  auto p = anyPosition<N>("pos", dim, 0, hi - 1);
  p[0] = c.front[0];
  vc_assume(insideBox(p, c.front, c.back));
  using It = typename std::decay_t<decltype(sub)>::Iterator;
  It it(sub, p);
  const auto e = end(sub);
  const long o = rowMajor(p, c.shape);
  const long w = c.back[0] - c.front[0] + 1;
  vc_assert(&*it == c.data + o, "row start");
  long x = 0;
  // along the row
  for (long i = 1; i < w; ++i) {
    vc_invariant(x == i - 1, "index in the row");
    vc_invariant(it.operator->() == c.data + o + x, "pixel of the row");
    vc_invariant(it != e, "not the end before the back");
    ++it;
    ++x;
  }
  vc_assert(it.operator->() == c.data + o + w - 1, "end of the row");
  vc_assert(it != e, "not the end");
  ++it;
  bool carry = true;
  bool last = true;
  Position<N> q = p;
  for (Index i = 1; i < dim; ++i) {
    const bool l = p[i] == c.back[i];
    q[i] = carry ? (l ? c.front[i] : p[i] + 1) : p[i];
    carry = carry && l;
    last = last && l;
  }
  if (last) {
    vc_assert(it == e, "end follows the back");
  } else {
    vc_assert(it != e, "not the end before the back");
    vc_assert(it.operator->() == c.data + rowMajor(q, c.shape), "the next row follows");
  }
}

#ifndef VC_SYMBOLIC
VC_BOUNDED(row_1) { rowStart<1>(1, 4); }
VC_BOUNDED(row_2) { rowStart<2>(2, 3); }
VC_BOUNDED(row_3) { rowStart<3>(3, 2); }
VC_BOUNDED(row_var2) { rowStart<-1>(2, 3); }
#endif

// Copies of iterators are independent of the original
template <Index N>
VC_INLINE void copies(Index dim, long hi) {
  auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const Box<N> region(c.front, c.back);
  vc_assume(c.front[0] == c.back[0] && c.front[dim - 1] < c.back[dim - 1]);
  const auto sub = r.subraster(region);
  using It = typename std::decay_t<decltype(sub)>::Iterator;
  It* first = new It(begin(sub));
  It copy(*first);
  vc_assert(copy == *first, "the copy designates the same pixel");
  delete first;
  ++copy;
  Position<N> q = c.front;
  bool carry = true;
  for (Index i = 1; i < dim; ++i) {
    if (carry) {
      carry = q[i] == c.back[i];
      q[i] = carry ? c.front[i] : q[i] + 1;
    }
  }
  vc_assert(&*copy == c.data + rowMajor(q, c.shape), "and moves to the next row");
}

VC_PROOF(copies_2) { copies<2>(2, 3); }
VC_PROOF(copies_3) { copies<3>(3, 2); }
VC_PROOF(copies_var2) { copies<-1>(2, 3); }

// Whole loops, for any parent and region: ++ from begin to end visits each pixel of the region in row-major order, and
// nothing else
template <Index N>
VC_INLINE void visit(Index dim, long hi, bool post) {
  auto c = anyCase<N>(dim, hi);
  const auto p = anyPosition<N>("pos", dim, 0, hi - 1);
  vc_assume(inside(p, c.shape));
  const long o = rowMajor(p, c.shape);
  const int old = c.data[o];
  PtrRaster<int, N> r(c.shape, c.data);
  auto sub = r.subraster(Box<N>(c.front, c.back));
  long rank = 0;
  long stride = 1;
  for (Index i = 0; i < dim; ++i) {
    rank += stride * (p[i] - c.front[i]);
    stride *= c.back[i] - c.front[i] + 1;
  }
  vc_assume(stride < VC_MAX);
  int n = 0;
  if (post) {
    const auto e = end(sub);
    for (auto it = begin(sub); it != e;) {
      *it++ = n;
      ++n;
    }
  } else {
    for (auto& v : sub) {
      v = n;
      ++n;
    }
  }
  vc_assert(n == stride, "as many values as pixels");
  for (Index i = 0; i < dim; ++i) {
    vc_split(p[i] < c.front[i]);
    vc_split(p[i] > c.back[i]);
  }
  vc_assert(c.data[o] == (insideBox(p, c.front, c.back) ? rank : old), "the pixels of the region in order, and only them");
}
VC_PROOF(visit_1) { visit<1>(1, 4, false); }
VC_PROOF(visit_2) { visit<2>(2, 3, false); }
VC_PROOF(visit_3) { visit<3>(3, 2, false); }
VC_PROOF(visit_4) { visit<4>(4, 2, false); }
VC_PROOF(visit_var1) { visit<-1>(1, 4, false); }
VC_PROOF(visit_var2) { visit<-1>(2, 3, false); }
VC_PROOF(visit_var3) { visit<-1>(3, 2, true); }
VC_PROOF(visit_post_1) { visit<1>(1, 4, true); }
VC_PROOF(visit_post_2) { visit<2>(2, 3, true); }
VC_PROOF(visit_post_3) { visit<3>(3, 2, true); }

// Reading loops, through constant parents
template <Index N>
VC_INLINE void copyOut(Index dim, long hi) {
  auto c = anyCase<N>(dim, hi);
  const auto p = anyPosition<N>("pos", dim, 0, hi - 1);
  vc_assume(insideBox(p, c.front, c.back));
  const PtrRaster<const int, N> r(c.shape, c.data);
  const auto sub = r.subraster(Box<N>(c.front, c.back));
  long rank = 0;
  long stride = 1;
  for (Index i = 0; i < dim; ++i) {
    rank += stride * (p[i] - c.front[i]);
    stride *= c.back[i] - c.front[i] + 1;
  }
  int* out = vc_array_int("out", stride);
  long n = 0;
  for (const auto& v : sub) {
    out[n] = v;
    ++n;
  }
  vc_assert(n == stride, "as many values as pixels");
  vc_assert(out[rank] == c.data[rowMajor(p, c.shape)], "the values of the region in order");
}
VC_PROOF(read_1) { copyOut<1>(1, 4); }
VC_PROOF(read_2) { copyOut<2>(2, 3); }
VC_PROOF(read_3) { copyOut<3>(3, 2); }
VC_PROOF(read_var2) { copyOut<-1>(2, 3); }
VC_PROOF(read_4) { copyOut<4>(4, 2); }

#ifndef VC_SYMBOLIC
// Whole loops, with parents allocated exactly
template <Index N>
void loop(Index dim, long hi) {
  auto c = anyCase<N>(dim, hi);
  const PtrRaster<int, N> r(c.shape, c.data);
  const Box<N> region(c.front, c.back);
  const auto sub = r.subraster(region);
  std::vector<const int*> expected;
  for (const auto& p : region) {
    expected.push_back(&r[p]);
  }
  std::size_t n = 0;
  for (const auto& v : sub) {
    vc_assert(n < expected.size() && &v == expected[n], "pixels of the region in order");
    ++n;
  }
  vc_assert(n == expected.size(), "each pixel once");
  n = 0;
  auto it = begin(sub);
  while (it != end(sub)) {
    vc_assert(n < expected.size() && &*it++ == expected[n], "post-increment");
    ++n;
  }
  vc_assert(n == expected.size(), "each pixel once");
  Raster<int, N> owner(c.shape);
  for (std::size_t i = 0; i < owner.size(); ++i) {
    owner[i] = i;
  }
  auto msub = owner.subraster(region);
  for (auto& v : msub) {
    v = -1 - v;
  }
  for (const auto& p : owner.domain()) {
    const bool in = insideBox<N>(p, region.front(), region.back());
    const long o = owner.index(p);
    vc_assert(owner[p] == (in ? -1 - o : o), "the pixels of the region, and only them, are visited");
  }
}

VC_BOUNDED(loop_1) { loop<1>(1, 5); }
VC_BOUNDED(loop_2) { loop<2>(2, 4); }
VC_BOUNDED(loop_3) { loop<3>(3, 3); }
VC_BOUNDED(loop_4) { loop<4>(4, 2); }
VC_BOUNDED(loop_var2) { loop<-1>(2, 4); }
VC_BOUNDED(loop_var3) { loop<-1>(3, 3); }
#endif
