// Contracts of Box iteration: with rank(p) the row-major rank of p in the box,
// begin() has rank 0 (or is end() if the box is empty), ++ maps rank r to r+1 and the back to end(), end() is outside
// of the box. By induction on the rank, the loop visits the ranks 0 to size-1 in order and stops. The loops themselves
// are also verified as wholes.
#include "common.h"

template <Index N>
VC_INLINE Box<N> anyBox(Index dim, bool nonempty, long lo = -2, long hi = 2) {
  auto f = anyPosition<N>("front", dim, lo, hi);
  auto b = anyPosition<N>("back", dim, lo, hi);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(f[i] > -VC_MAX && f[i] < VC_MAX && b[i] > -VC_MAX && b[i] < VC_MAX);
    if (nonempty) {
      vc_assume(f[i] <= b[i]);
    }
  }
  return Box<N>(f, b);
}

template <Index N>
VC_INLINE long rankOf(const Position<N>& p, const Box<N>& box) {
  long out = 0;
  for (Index i = long(p.size()) - 1; i >= 0; --i) {
    out = out * (box.back()[i] - box.front()[i] + 1) + p[i] - box.front()[i];
  }
  return out;
}

template <Index N>
VC_INLINE bool hasEmptyAxis(const Box<N>& box) {
  bool out = false;
  for (std::size_t i = 0; i < box.front().size(); ++i) {
    out = out || box.back()[i] < box.front()[i];
  }
  return out;
}

// begin, end and size
template <Index N>
VC_INLINE void beginEnd(Index dim) {
  const auto box = anyBox<N>(dim, false);
  auto it = begin(box);
  const auto e = end(box);
  const bool none = hasEmptyAxis(box);
  vc_assert((it == e) == none, "begin is end for empty boxes only");
  vc_assert((it != e) == !none, "inequality is the negation of equality");
  if (none) {
    vc_assert(box.size() == 0, "size of an empty box");
  } else {
    vc_assert(samePosition<N>(*it, box.front()), "the front comes first");
    long s = 1;
    for (Index i = 0; i < dim; ++i) {
      s *= box.back()[i] - box.front()[i] + 1;
    }
    vc_assert(box.size() == s, "size is the product of the lengths");
    vc_assert(rankOf<N>(box.back(), box) == s - 1, "the back has rank size-1");
    vc_assert(!insideBox<N>(*e, box.front(), box.back()), "end is not in the box");
  }
}

VC_PROOF(begin_end_1) { beginEnd<1>(1); }
VC_PROOF(begin_end_2) { beginEnd<2>(2); }
VC_PROOF(begin_end_3) { beginEnd<3>(3); }
VC_PROOF(begin_end_4) { beginEnd<4>(4); }
VC_PROOF(begin_end_var2) { beginEnd<-1>(2); }
VC_PROOF(begin_end_var3) { beginEnd<-1>(3); }

// Successor
template <Index N>
VC_INLINE void successor(Index dim, long lo = -1, long hi = 2) {
  const auto box = anyBox<N>(dim, true, lo, hi);
  const auto p = anyPosition<N>("pos", dim, lo, hi);
  vc_assume(insideBox(p, box.front(), box.back()));
  typename Box<N>::Iterator it(box, p);
  vc_assert(samePosition<N>(*it, p), "dereferencing gives the current position");
  vc_assert(it->data() == (*it).data(), "arrow designates the current position");
  const auto e = end(box);
  vc_assert(it != e, "no position of the box is end");
  const auto& q = ++it;
  vc_assert(&q == &*it, "increment returns the new current position");
  if (samePosition<N>(p, box.back())) {
    vc_assert(it == e, "end follows the back");
  } else {
    vc_assert(it != e, "not the end before the back");
    vc_assert(insideBox<N>(*it, box.front(), box.back()), "the next position is in the box");
    // the successor in row-major order: first axis i not at its back is incremented, previous ones are reset
    bool carry = true;
    bool ok = true;
    for (Index i = 0; i < dim; ++i) {
      const bool last = p[i] == box.back()[i];
      ok = ok && (*it)[i] == (carry ? (last ? box.front()[i] : p[i] + 1) : p[i]);
      carry = carry && last;
    }
    vc_assert(ok, "the next position is the row-major successor");
    vc_assert(rankOf<N>(*it, box) == rankOf<N>(p, box) + 1, "the next rank");
  }
  typename Box<N>::Iterator it2(box, p);
  const Position<N> here = *it2++;
  vc_assert(it2 == it, "post-increment steps likewise");
  vc_assert(samePosition<N>(here, p), "and gives the previous position");
  it2.reset();
  vc_assert(samePosition<N>(*it2, box.front()), "reset goes back to the front");
}

VC_PROOF(successor_1) { successor<1>(1, -2, 3); }
VC_PROOF(successor_2) { successor<2>(2); }
VC_PROOF(successor_3) { successor<3>(3, 0, 1); }
VC_PROOF(successor_4) { successor<4>(4, 0, 1); }
VC_PROOF(successor_var2) { successor<-1>(2); }
VC_PROOF(successor_var3) { successor<-1>(3, 0, 1); }

// Whole loops
template <Index N>
VC_INLINE void wholeLoop(Index dim, long lo = -1, long hi = 2) {
  const auto box = anyBox<N>(dim, false, lo, hi);
  const bool none = hasEmptyAxis(box);
  long count = 0;
  for (const auto& p : box) {
    vc_invariant(insideBox<N>(p, box.front(), box.back()), "positions are in the box");
    vc_invariant(rankOf<N>(p, box) == count, "positions come in row-major order");
    ++count;
  }
  long s = none ? 0 : 1;
  for (Index i = 0; i < dim; ++i) {
    s *= box.back()[i] - box.front()[i] + 1;
  }
  vc_assert(count == s, "number of positions");
  vc_assert(box.size() == s, "size");
}

VC_PROOF(loop_1) { wholeLoop<1>(1, -2, 3); }
VC_PROOF(loop_2) { wholeLoop<2>(2); }
VC_PROOF(loop_3) { wholeLoop<3>(3, 0, 2); }
VC_PROOF(loop_var2) { wholeLoop<-1>(2); }

VC_PROOF(loop_4) { wholeLoop<4>(4, 0, 2); }
VC_PROOF(loop_var3) { wholeLoop<-1>(3, 0, 1); }

#ifndef VC_SYMBOLIC
VC_BOUNDED(loop_5) { wholeLoop<5>(5, -1, 1); }
VC_BOUNDED(loop_var4) { wholeLoop<-1>(4, 0, 1); }
#endif

// The domain of a raster, in the order of the data
template <Index N>
VC_INLINE void domainLoop(Index dim) {
  const auto s = anyShape<N>("length", dim, 0, 3);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(s[i] < VC_MAX);
  }
  vc_assume(product<N>(s, dim) <= VC_MAX);
  Raster<long, N> r(s);
  long count = 0;
  for (const auto& p : r.domain()) {
    vc_invariant(r.index(p) == count, "domain is screened in storage order");
    vc_invariant(insideBox<N>(p, r.domain().front(), r.domain().back()), "positions are in the domain");
    r[p] = count;
    ++count;
  }
  vc_assert(count == long(r.size()), "the domain covers the raster");
  const auto i = vc_long("i", 0, 26);
  if (i >= 0 && i < long(r.size())) {
    vc_assert(r[i] == i, "element written through its position");
  }
}

VC_PROOF(domain_1) { domainLoop<1>(1); }
VC_PROOF(domain_2) { domainLoop<2>(2); }
VC_PROOF(domain_3) { domainLoop<3>(3); }
VC_PROOF(domain_var2) { domainLoop<-1>(2); }
VC_PROOF(domain_var3) { domainLoop<-1>(3); }
