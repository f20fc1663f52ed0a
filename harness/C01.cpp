#include "common.h"

// Index and strides are the row-major ones, and element access designates that very pixel.
template <Index N>
VC_INLINE void indexContract(Index dim) {
  const auto s = anyShape<N>("length", dim);
  const long size = product(s, dim);
  vc_assume(size > 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  PtrRaster<int, N> r(s, data);
  vc_assert(shapeSize(s) == size, "shapeSize is the product of the lengths");
  vc_assert(long(r.size()) == size, "raster size is the product of the lengths");
  vc_assert(r.dimension() == dim, "dimension");
  for (Index i = 0; i <= dim; ++i) {
    vc_assert(shapeStride(s, i) == product(s, i), "stride is the product of the previous lengths");
  }
  for (Index i = 0; i < dim; ++i) {
    vc_assert(r.length(i) == s[i], "length");
    vc_assert(r.shape()[i] == s[i], "shape");
  }
  const auto p = anyPosition<N>("pos", dim, 0, 3);
  vc_assume(inside(p, s));
  const long o = rowMajor(p, s);
  vc_assert(r.index(p) == o, "index is row-major");
  vc_assert(o >= 0 && o < size, "index is in bounds");
  vc_assert(&r[p] == data + o, "element at position is the pixel at the offset");
  vc_assert(&r.at(p) == data + o, "checked element at position is the pixel at the offset");
  vc_assert(&r[o] == data + o, "element at index is the pixel at the offset");
  const auto& c = r;
  vc_assert(&c[p] == data + o, "const element at position is the pixel at the offset");
  vc_assert(c.contains(p), "in-bounds positions are contained");
  const int before = data[o];
  vc_assert(c[p] == before, "read value");
  r[p] = before + 1;
  vc_assert(data[o] == before + 1, "written value");
}

VC_PROOF(index_1) { indexContract<1>(1); }
VC_PROOF(index_2) { indexContract<2>(2); }
VC_PROOF(index_3) { indexContract<3>(3); }
VC_PROOF(index_4) { indexContract<4>(4); }
VC_PROOF(index_var2) { indexContract<-1>(2); }
VC_PROOF(index_var3) { indexContract<-1>(3); }

// index() is the row-major form for any position, even out of bounds
VC_PROOF(index_any_3) {
  const auto s = anyShape<3>("length", 3);
  const auto p = anyPosition<3>("pos", 3, -2, 5);
  PtrRaster<int, 3> r(s, nullptr);
  vc_assert(r.index(p) == p[0] + s[0] * (p[1] + s[1] * p[2]), "index is row-major");
}

// Distinct positions own distinct pixels
template <Index N>
VC_INLINE void injective(Index dim) {
  const auto s = anyShape<N>("length", dim);
  const auto p = anyPosition<N>("p", dim, 0, 2);
  const auto q = anyPosition<N>("q", dim, 0, 2);
  vc_assume(inside(p, s) && inside(q, s));
  PtrRaster<int, N> r(s, nullptr);
  // remainders by the strides are unique: one axis after the other
  long ip = r.index(p), iq = r.index(q);
  vc_assume(ip == iq);
  long hp[4], hq[4];
  hp[dim - 1] = p[dim - 1];
  hq[dim - 1] = q[dim - 1];
  for (Index i = dim - 2; i >= 0; --i) {
    hp[i] = p[i] + s[i] * hp[i + 1];
    hq[i] = q[i] + s[i] * hq[i + 1];
  }
  vc_assert(hp[0] == hq[0], "same row-major value");
  for (Index i = 0; i + 1 < dim; ++i) {
    const long d = hp[i + 1] - hq[i + 1]; // p[i] - q[i] == -s[i] * d, and |p[i] - q[i]| < s[i]
    vc_assert(d <= 0 || s[i] * d >= s[i], "lemma: positive multiple");
    vc_assert(d >= 0 || s[i] * d <= -s[i], "lemma: negative multiple");
    vc_assert(d == 0, "quotients are equal");
    vc_assert(p[i] == q[i], "coordinates are equal");
  }
  vc_assert(samePosition(p, q), "distinct positions have distinct indices");
}

VC_PROOF(injective_1) { injective<1>(1); }
VC_PROOF(injective_2) { injective<2>(2); }
VC_PROOF(injective_3) { injective<3>(3); }
VC_PROOF(injective_4) { injective<4>(4); }
VC_PROOF(injective_var3) { injective<-1>(3); }

// Every offset is reached by an in-bounds position
template <Index N>
VC_INLINE void surjective(Index dim) {
  const auto s = anyShape<N>("length", dim, 1, 3);
  const long size = product(s, dim);
  const long o = vc_long("offset", 0, 26);
  vc_assume(o >= 0 && o < size);
  Position<N> p(dim);
  long rest = o;
  for (Index i = 0; i < dim; ++i) {
    long sup = 1; // product of the next lengths
    for (Index j = i + 1; j < dim; ++j) {
      sup *= s[j];
    }
    vc_assert(rest >= 0 && rest < s[i] * sup, "lemma: remaining range");
    const long q = rest / s[i];
    const long m = rest % s[i];
    vc_assert(m >= 0 && m < s[i] && q >= 0 && q * s[i] + m == rest, "lemma: Euclidean division");
    vc_assert(q < sup || q * s[i] >= sup * s[i], "lemma: monotonicity");
    vc_assert(q < sup, "lemma: quotient range");
    p[i] = m;
    rest = q;
  }
  vc_assert(rest == 0, "lemma: nothing remains");
  vc_assert(inside(p, s), "position is in bounds");
  PtrRaster<int, N> r(s, nullptr);
  vc_assert(r.index(p) == o, "every offset is reached");
}

VC_PROOF(surjective_1) { surjective<1>(1); }
VC_PROOF(surjective_2) { surjective<2>(2); }
VC_PROOF(surjective_3) { surjective<3>(3); }
VC_PROOF(surjective_var2) { surjective<-1>(2); }

// Dimension 0, empty rasters
VC_PROOF(dimension_0) {
  Position<0> s;
  vc_assert(shapeSize(s) == 0, "size is 0 in dimension 0");
  Position<-1> v(0);
  vc_assert(shapeSize(v) == 0, "size is 0 in variable dimension 0");
}

// Shapes of any size, without data
template <Index N>
VC_INLINE void strides(Index dim) {
  const auto s = anyShape<N>("length", dim);
  const long size = product(s, dim);
  vc_assume(size > 0 && size < VC_MAX);
  vc_assert(shapeSize(s) == size, "shapeSize is the product of the lengths");
  for (Index i = 0; i <= dim; ++i) {
    vc_assert(shapeStride(s, i) == product(s, i), "stride is the product of the previous lengths");
  }
  PtrRaster<int, N> r(s, nullptr);
  vc_assert(long(r.size()) == size && r.shape() == s, "shape and size");
  const auto p = anyPosition<N>("pos", dim, 0, 3);
  vc_assume(inside(p, s));
  vc_assert(r.index(p) == rowMajor(p, s), "index is row-major");
}

VC_PROOF(strides_1) { strides<1>(1); }
VC_PROOF(strides_2) { strides<2>(2); }
VC_PROOF(strides_3) { strides<3>(3); }
VC_PROOF(strides_4) { strides<4>(4); }
VC_PROOF(strides_var3) { strides<-1>(3); }

VC_PROOF(empty) {
  const auto s = anyShape<3>("length", 3, 0, 2);
  vc_assume(s[0] * s[1] < VC_MAX && s[0] * s[1] * s[2] < VC_MAX);
  PtrRaster<int, 3> r(s, nullptr);
  vc_assert(long(r.size()) == s[0] * s[1] * s[2], "size is the product of the lengths");
  const auto p = anyPosition<3>("pos", 3, -1, 2);
  vc_assert(r.contains(p) == inside(p, s), "contains is the interval test");
}
