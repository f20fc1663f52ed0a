// Contracts of the constructors, copies and equality of containers.
#include "common.h"

#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Sequence.h"

template <Index N>
VC_INLINE Position<N> lengths(Index dim, long hi = 3, const char* name = "length") {
  const auto s = anyShape<N>(name, dim, 0, hi);
  const long size = product(s, dim);
  vc_assume(size >= 0 && size < VC_MAX);
  return s;
}

// From a shape
template <typename TRaster, Index N>
VC_INLINE void fromShape(Index dim) {
  const auto s = lengths<N>(dim);
  const TRaster r(s);
  vc_assert(samePosition<N>(r.shape(), s), "shape");
  vc_assert(r.dimension() == dim, "dimension");
  vc_assert(long(r.size()) == product(s, dim), "size is the product of the lengths");
  vc_assert(r.end() - r.begin() == long(r.size()), "iterators span the elements");
  vc_assert(r.emtpy() == (r.size() == 0), "empty");
  bool ok = true;
  for (Index i = 0; i < dim; ++i) {
    ok = ok && r.length(i) == s[i];
  }
  vc_assert(ok, "lengths");
  vc_assert(r.template length<0>() == s[0], "static length");
}

VC_PROOF(shape_1) { fromShape<Raster<int, 1>, 1>(1); }
VC_PROOF(shape_2) { fromShape<Raster<int, 2>, 2>(2); }
VC_PROOF(shape_3) { fromShape<Raster<double, 3>, 3>(3); }
VC_PROOF(shape_4) { fromShape<Raster<int, 4>, 4>(4); }
VC_PROOF(shape_aligned) { fromShape<AlignedRaster<int, 2>, 2>(2); }

VC_PROOF(shape_var2) {
  const auto s = lengths<-1>(2);
  const Raster<int, -1> r(s);
  vc_assert(r.dimension() == 2 && samePosition<-1>(r.shape(), s), "shape");
  vc_assert(long(r.size()) == s[0] * s[1], "size is the product of the lengths");
}

VC_PROOF(default_raster) {
  const Raster<int, 3> r;
  vc_assert(r.size() == 0 && r.shape().isZero() && r.emtpy(), "empty by default");
  const Sequence<int> s;
  vc_assert(s.size() == 0 && s.emtpy(), "empty by default");
}

// Pointer holders refer to the given memory
VC_PROOF(pointer) {
  const auto s = lengths<2>(2);
  const long size = product(s, 2);
  int* data = vc_array_int("data", size);
  PtrRaster<int, 2> r(s, data);
  vc_assert(r.data() == data && r.begin() == data && r.end() == data + size, "the given memory");
  vc_assert(long(r.size()) == size, "size");
  const long i = vc_long("i", 0, 8);
  vc_assume(i >= 0 && i < size);
  r[i] = 77;
  vc_assert(data[i] == 77, "written through");
  PtrRaster<int, 2> c(r);
  vc_assert(c.data() == data && samePosition<2>(c.shape(), s) && long(c.size()) == size, "copies refer to the same memory");
}

// Data-copying constructor
template <typename TSeq>
VC_INLINE void copiesData() {
  const long size = vc_long("size", 0, 5);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  const TSeq r(size, data);
  vc_assert(long(r.size()) == size, "size");
  const long i = vc_long("i", 0, 4);
  vc_assume(i >= 0 && i < size);
  vc_assert(r[i] == data[i], "same values in the same order");
  vc_assert(&r[i] != data + i, "independent memory");
  const int v = data[i];
  data[i] = v + 1;
  vc_assert(r[i] == v, "independent content");
  vc_assert(r.front() == r[0] && r.back() == r[size - 1], "front and back");
}

VC_PROOF(data_sequence) { copiesData<Sequence<int>>(); }

VC_PROOF(data_raster) {
  const auto s = lengths<2>(2);
  const long size = product(s, 2);
  int* data = vc_array_int("data", size);
  const Raster<int, 2> r(s, data);
  const long i = vc_long("i", 0, 8);
  vc_assume(i >= 0 && i < size);
  vc_assert(r[i] == data[i] && &r[i] != data + i, "copied values");
}

// From an iterable
VC_PROOF(iterable_sequence) {
  const long size = vc_long("size", 0, 5);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  const std::vector<int> in(data, data + size);
  const Sequence<int> r(in);
  vc_assert(long(r.size()) == size, "size");
  const long i = vc_long("i", 0, 4);
  vc_assume(i >= 0 && i < size);
  vc_assert(r[i] == data[i], "same values in the same order");
  vc_assert(&r[i] != &in[i], "independent memory");
}

template <Index N>
VC_INLINE void fromIterable(Index dim) {
  const auto s = lengths<N>(dim);
  const long size = vc_long("size", 0, 9);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  const std::vector<int> in(data, data + size);
  const long i = vc_long("i", 0, 8);
  VC_THROWS_IFF(SizeError, size != product(s, dim), "number of values different from the size", {
    Raster<int, N> r(s, in);
    vc_assert(samePosition<N>(r.shape(), s), "shape");
    vc_assert(long(r.size()) == size, "size");
    if (i >= 0 && i < size) {
      vc_assert(r[i] == data[i], "same values in the same order");
      vc_assert(&r[i] != &in[i], "independent memory");
    }
  });
}

VC_PROOF(iterable_raster_1) { fromIterable<1>(1); }
VC_PROOF(iterable_raster_2) { fromIterable<2>(2); }
VC_PROOF(iterable_raster_var2) { fromIterable<-1>(2); }

// From a list
VC_PROOF(list) {
  int* d = vc_array_int("data", 4);
  const Sequence<int> q {d[0], d[1], d[2], d[3]};
  vc_assert(q.size() == 4 && q[0] == d[0] && q[1] == d[1] && q[2] == d[2] && q[3] == d[3], "sequence from a list");
  const auto s = lengths<2>(2, 4);
  VC_THROWS_IFF(SizeError, s[0] * s[1] != 4, "number of values different from the size", {
    const Raster<int, 2> r(s, {d[0], d[1], d[2], d[3]});
    vc_assert(r.size() == 4 && samePosition<2>(r.shape(), s), "size and shape");
    vc_assert(r[0] == d[0] && r[1] == d[1] && r[2] == d[2] && r[3] == d[3], "raster from a list");
  });
}

VC_PROOF(list_var) {
  int* d = vc_array_int("data", 4);
  const auto s = lengths<-1>(2, 4);
  VC_THROWS_IFF(SizeError, s[0] * s[1] != 4, "number of values different from the size", {
    const Raster<int, -1> r(s, {d[0], d[1], d[2], d[3]});
    vc_assert(r.size() == 4 && samePosition<-1>(r.shape(), s), "size and shape");
    vc_assert(r[0] == d[0] && r[1] == d[1] && r[2] == d[2] && r[3] == d[3], "raster from a list");
  });
}

VC_PROOF(list_vector) {
  long* d = vc_array_long("data", 3);
  const Vector<Index, 3> v {d[0], d[1], d[2]};
  vc_assert(v.size() == 3 && v[0] == d[0] && v[1] == d[1] && v[2] == d[2], "vector from a list");
  const Vector<Index, -1> w {d[0], d[1], d[2]};
  vc_assert(w.size() == 3 && w[0] == d[0] && w[1] == d[1] && w[2] == d[2], "variable dimension vector from a list");
}

// From a moved container
VC_PROOF(moved_container) {
  const auto s = lengths<2>(2);
  const long size = vc_long("size", 0, 9);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  std::vector<int> in(data, data + size);
  const int* p = in.data();
  const long i = vc_long("i", 0, 8);
  VC_THROWS_IFF(SizeError, size != s[0] * s[1], "number of values different from the size", {
    VecRaster<int, 2> r(s, std::move(in));
    vc_assert(long(r.size()) == size && samePosition<2>(r.shape(), s), "size and shape");
    vc_assert(r.data() == p, "the memory is taken, not copied");
    if (i >= 0 && i < size) {
      vc_assert(r[i] == data[i], "same values");
    }
  });
}

// Copies
VC_PROOF(copy_raster) {
  const auto s = lengths<2>(2);
  const long size = product(s, 2);
  int* data = vc_array_int("data", size);
  Raster<int, 2> r(s, data);
  Raster<int, 2> c(r);
  vc_assert(samePosition<2>(c.shape(), s) && long(c.size()) == size, "same shape and size");
  const long i = vc_long("i", 0, 8);
  vc_assume(i >= 0 && i < size);
  vc_assert(c[i] == data[i] && r[i] == data[i], "equal content");
  c[i] = data[i] + 1;
  vc_assert(r[i] == data[i], "the copied raster does not change");
  r[i] = data[i] + 2;
  vc_assert(c[i] == data[i] + 1, "the copy does not change");
}

VC_PROOF(copy_assignment) {
  const auto s = lengths<2>(2, 2);
  const auto t = lengths<2>(2, 2, "other");
  const long size = product(s, 2);
  int* data = vc_array_int("data", size);
  Raster<int, 2> r(s, data);
  Raster<int, 2> c(t);
  c = r;
  vc_assert(samePosition<2>(c.shape(), s) && long(c.size()) == size, "same shape and size");
  const long i = vc_long("i", 0, 8);
  vc_assume(i >= 0 && i < size);
  vc_assert(c[i] == data[i] && r[i] == data[i] && &c[i] != &r[i], "equal content");
}

VC_PROOF(move_raster) {
  const auto s = lengths<2>(2);
  const long size = product(s, 2);
  int* data = vc_array_int("data", size);
  Raster<int, 2> r(s, data);
  const int* p = r.data();
  Raster<int, 2> c(std::move(r));
  vc_assert(samePosition<2>(c.shape(), s) && long(c.size()) == size, "same shape and size");
  const long i = vc_long("i", 0, 8);
  vc_assume(i >= 0 && i < size);
  vc_assert(c.data() == p && c[i] == data[i], "moved content");
}

// Equality
template <typename T, typename U>
VC_INLINE bool sameElements(const T* a, const U* b, long n) {
  for (long i = 0; i < n; ++i) {
    if (!(a[i] == b[i])) {
      return false;
    }
  }
  return true;
}

template <long N, typename TRaster, typename URaster, typename T, typename U>
VC_INLINE void equalityOf(T* (*first)(const char*, long), U* (*second)(const char*, long)) {
  Position<N> s(2), t(2);
  for (int i = 0; i < 2; ++i) {
    s[i] = vc_long("length", 0, 2);
    t[i] = vc_long("other", 0, 2);
    vc_assume(s[i] >= 0 && s[i] < VC_MAX && t[i] >= 0 && t[i] < VC_MAX);
  }
  const long n = s[0] * s[1];
  const long m = t[0] * t[1];
  vc_assume(n < VC_MAX && m < VC_MAX);
  T* a = first("a", n);
  U* b = second("b", m);
  const TRaster r(s, a);
  const URaster q(t, b);
  const bool eq = r == q;
  vc_assert((r != q) == !eq, "difference is the opposite of equality");
  const bool same = s[0] == t[0] && s[1] == t[1];
  vc_assert(!eq || same, "equal rasters have equal shapes");
  if (same) {
    vc_assert(eq == sameElements(a, b, n), "equal means the same elements");
  }
}

VC_PROOF(equality_int) { equalityOf<2, PtrRaster<int, 2>, PtrRaster<int, 2>>(vc_array_int, vc_array_int); }
VC_PROOF(equality_double) { equalityOf<2, PtrRaster<double, 2>, PtrRaster<double, 2>>(vc_array_double, vc_array_double); }
VC_PROOF(equality_mixed) { equalityOf<2, PtrRaster<int, 2>, PtrRaster<double, 2>>(vc_array_int, vc_array_double); }
VC_PROOF(equality_var) { equalityOf<-1, PtrRaster<long, -1>, PtrRaster<long, -1>>(vc_array_long, vc_array_long); }
VC_PROOF(equality_long_vec) { equalityOf<2, Raster<long, 2>, PtrRaster<long, 2>>(vc_array_long, vc_array_long); }

template <typename T>
VC_INLINE void sequences(T* (*array)(const char*, long)) {
  const long n = vc_long("n", 0, 3);
  const long m = vc_long("m", 0, 3);
  vc_assume(n >= 0 && n < VC_MAX && m >= 0 && m < VC_MAX);
  T* a = array("a", n);
  T* b = array("b", m);
  const Sequence<T, PtrHolder<T>> r(n, a);
  const Sequence<T, PtrHolder<T>> q(m, b);
  const bool eq = r == q;
  vc_assert((r != q) == !eq, "difference is the opposite of equality");
  vc_assert(n == m ? eq == sameElements(a, b, n) : !eq, "equal means the same size and elements");
}

VC_PROOF(equality_ints) { sequences(vc_array_int); }
VC_PROOF(equality_doubles) { sequences(vc_array_double); }

// Positions of variable dimension
VC_PROOF(equality_vector_var) {
  const long n = vc_long("n", 0, 3);
  const long m = vc_long("m", 0, 3);
  vc_assume(n >= 0 && n < VC_MAX && m >= 0 && m < VC_MAX);
  long* a = vc_array_long("a", n);
  long* b = vc_array_long("b", m);
  Vector<long, -1> u(n);
  Vector<long, -1> v(m);
  std::copy(a, a + n, u.begin());
  std::copy(b, b + m, v.begin());
  const bool eq = u == v;
  vc_assert((u != v) == !eq, "difference is the opposite of equality");
  vc_assert(n == m ? eq == sameElements(a, b, n) : !eq, "equal means the same size and elements");
}

template <typename TRaster>
VC_INLINE void equality2() {
  const auto s = lengths<2>(2, 2);
  const auto t = lengths<2>(2, 2, "other");
  const long n = product(s, 2);
  const long m = product(t, 2);
  int* a = vc_array_int("a", n);
  int* b = vc_array_int("b", m);
  const TRaster r(s, a);
  const TRaster q(t, b);
  const bool eq = r == q;
  vc_assert((r != q) == !eq, "difference is the opposite of equality");
  const long i = vc_long("i", 0, 3);
  vc_assume(i >= 0 && i < n);
  if (eq) {
    vc_assert(samePosition<2>(s, t), "equal rasters have equal shapes");
    vc_assert(a[i] == b[i], "equal rasters have equal elements");
  }
  if (samePosition<2>(s, t)) {
    vc_assert(!eq || a[i] == b[i], "different elements make different rasters");
  }
}

VC_PROOF(equality_ptr) { equality2<PtrRaster<int, 2>>(); }
VC_PROOF(equality_vec) { equality2<Raster<int, 2>>(); }

VC_PROOF(equality_copy) {
  const auto s = lengths<2>(2, 3);
  const long n = product(s, 2);
  int* a = vc_array_int("a", n);
  Raster<int, 2> r(s, a);
  const Raster<int, 2> q(s, a);
  vc_assert(r == q && q == r && !(r != q) && r == r, "equal shapes and elements make equal rasters");
  const long i = vc_long("i", 0, 8);
  vc_assume(i >= 0 && i < n);
  r[i] += 1;
  vc_assert(r != q && !(r == q), "one different element makes different rasters");
}

VC_PROOF(equality_shape) {
  const auto s = lengths<2>(2, 3);
  const auto t = lengths<2>(2, 3, "other");
  const long n = product(s, 2);
  vc_assume(product(t, 2) == n);
  int* a = vc_array_int("a", n);
  const PtrRaster<int, 2> r(s, a);
  const PtrRaster<int, 2> q(t, a);
  vc_assert((r == q) == samePosition<2>(s, t), "same elements with another shape");
}

VC_PROOF(equality_sequence) {
  const long n = vc_long("n", 0, 3);
  const long m = vc_long("m", 0, 3);
  vc_assume(n >= 0 && n < VC_MAX && m >= 0 && m < VC_MAX);
  int* a = vc_array_int("a", n);
  int* b = vc_array_int("b", m);
  const Sequence<int> r(n, a);
  const Sequence<int> q(m, b);
  const bool eq = r == q;
  vc_assert((r != q) == !eq, "difference is the opposite of equality");
  if (eq) {
    vc_assert(n == m, "equal sequences have equal sizes");
    const long i = vc_long("i", 0, 2);
    vc_assume(i >= 0 && i < n);
    vc_assert(a[i] == b[i], "equal sequences have equal elements");
  }
}

VC_PROOF(equality_vector) {
  long* a = vc_array_long("a", 3);
  long* b = vc_array_long("b", 3);
  const Vector<Index, 3> u {a[0], a[1], a[2]};
  const Vector<Index, 3> v {b[0], b[1], b[2]};
  const bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
  vc_assert((u == v) == eq, "equality of vectors");
  vc_assert((u != v) == !eq, "difference of vectors");
}

VC_PROOF(rasterize_pointer) {
  const auto s = lengths<3>(3, 2);
  const long n = product(s, 3);
  int* a = vc_array_int("a", n);
  const auto r = rasterize(a, s[0], s[1], s[2]);
  vc_assert(samePosition<3>(r.shape(), s) && r.data() == a && long(r.size()) == n, "raster around a pointer");
}

#ifndef VC_SYMBOLIC
#include <array>
#include <list>
#include <valarray>

// Array holders have their own size
VC_BOUNDED(array_holder) {
  const auto s = lengths<2>(2, 6);
  const long n = product(s, 2);
  vc_assume(n > 0);
  int* d = vc_array_int("data", n);
  bool thrown = false;
  try {
    const ArrRaster<int, 6, 2> r(s, d);
    vc_assert(r.size() == 6 && n == 6, "only the right size is accepted");
    for (int i = 0; i < 6; ++i) {
      vc_assert(r[i] == d[i], "copied values");
    }
  } catch (const std::exception&) {
    thrown = true;
  }
  vc_assert(thrown == (n != 6), "other sizes are refused");
  std::vector<int> v(d, d + n);
  thrown = false;
  try {
    const ArrRaster<int, 6, 2> r(s, v);
    vc_assert(r == (ArrRaster<int, 6, 2>(s, d)), "copied values");
  } catch (const std::exception&) {
    thrown = true;
  }
  vc_assert(thrown == (n != 6), "other sizes are refused");
}

template <typename TRaster>
void holder(bool owner) {
  const auto s = lengths<2>(2, 3);
  const long n = product(s, 2);
  int* d = vc_array_int("data", n);
  TRaster r(s, d);
  vc_assert(long(r.size()) == n && r.shape() == s, "size");
  for (long i = 0; i < n; ++i) {
    vc_assert(r[i] == d[i], "values");
  }
  TRaster c(r);
  vc_assert(c == r && long(c.size()) == n, "copies are equal");
  if (n) {
    c[0] = d[0] + 1;
    vc_assert((c == r) == !owner, "owning copies are independent, others are not");
  }
  TRaster m(std::move(c));
  vc_assert(long(m.size()) == n && m.shape() == s, "moved");
  r = m;
  vc_assert(r == m, "assigned");
}

VC_BOUNDED(vector_holder) { holder<VecRaster<int, 2>>(true); }
VC_BOUNDED(pointer_holder) { holder<PtrRaster<int, 2>>(false); }
VC_BOUNDED(aligned_holder_shared) { holder<AlignedRaster<int, 2>>(false); }

VC_BOUNDED(valarray_holder) {
  const auto s = lengths<2>(2, 3);
  const long n = product(s, 2);
  vc_assume(n > 0);
  int* d = vc_array_int("data", n);
  std::vector<int> v(d, d + n);
  ValRaster<int, 2> r(s, v);
  ValRaster<int, 2> c(r);
  vc_assert(c == r && long(c.size()) == n, "copies are equal");
  c[0] = d[0] + 1;
  vc_assert(c != r, "copies are independent");
}

VC_BOUNDED(aligned_holder_owner) {
  const auto s = lengths<2>(2, 3);
  const long n = product(s, 2);
  int* d = vc_array_int("data", n);
  std::vector<int> v(d, d + n);
  AlignedRaster<int, 2> r(s, v);
  vc_assert(r.owns() && long(r.size()) == n && std::equal(v.begin(), v.end(), r.begin()), "values");
  AlignedRaster<int, 2> c(r);
  vc_assert(c == r && c.owns(), "copies are equal");
  if (n) {
    c[0] = d[0] + 1;
    vc_assert(c != r, "copies are independent");
  }
  c = r;
  vc_assert(c == r && c.owns() && c.data() != r.data(), "assigned");
}

VC_BOUNDED(other_iterables) {
  const long n = vc_long("n", 0, 5);
  const long m = vc_long("m", 0, 5);
  int* d = vc_array_int("data", n);
  std::list<int> l(d, d + n);
  Sequence<int> s(l);
  vc_assert(long(s.size()) == n && std::equal(s.begin(), s.end(), d), "from a list container");
  Raster<int, 1> r({n}, s);
  vc_assert(r.shape()[0] == n && std::equal(r.begin(), r.end(), d), "from a sequence");
  bool thrown = false;
  try {
    Raster<int, 1> q({m}, l);
  } catch (const SizeError&) {
    thrown = true;
  }
  vc_assert(thrown == (m != n), "wrong number of values");
  Raster<double, 1> c({n}, l);
  vc_assert(std::equal(c.begin(), c.end(), d), "values are converted");
}

VC_BOUNDED(equality_loops) {
  const long n = vc_long("n", 0, 4);
  const long m = vc_long("m", 0, 4);
  std::vector<int> a(n);
  std::vector<int> b(m);
  for (auto& e : a) {
    e = vc_long("a", 0, 1);
  }
  for (auto& e : b) {
    e = vc_long("b", 0, 1);
  }
  vc_assert((Sequence<int>(a) == Sequence<int>(b)) == (a == b), "sequences");
  const Raster<int, 1> r({n}, a);
  const Raster<int, 1> q({m}, b);
  vc_assert((r == q) == (a == b) && (r != q) == (a != b), "rasters");
  const Raster<double, 1> f({m}, b);
  vc_assert((r == f) == (a == b), "rasters of different types");
  Vector<int, -1> u(a);
  Vector<int, -1> v(b);
  vc_assert((u == v) == (a == b) && (u != v) == (a != b), "vectors");
}

VC_BOUNDED(move_to) {
  const long n = vc_long("n", 0, 4);
  int* d = vc_array_int("data", n);
  std::vector<int> v(d, d + n);
  auto r = rasterize(std::move(v), n);
  vc_assert(long(r.size()) == n && r.shape()[0] == n && std::equal(r.begin(), r.end(), d), "rasterized vector");
  vc_assert(r.container() == std::vector<int>(d, d + n), "underlying container");
  std::vector<int> out;
  auto& o = r.moveTo(out);
  vc_assert(&o == &out && long(out.size()) == n && std::equal(out.begin(), out.end(), d), "moved to a vector");
  const long m = vc_long("m", 0, 5);
  bool thrown = false;
  try {
    const Raster<int, 1> q({m}, std::move(out));
    vc_assert(long(q.size()) == n && std::equal(q.begin(), q.end(), d), "moved from a vector");
  } catch (const SizeError&) {
    thrown = true;
  }
  vc_assert(thrown == (m != n), "other sizes are refused");
}

VC_BOUNDED(move_array) {
  int* d = vc_array_int("data", 4);
  std::array<int, 4> a {d[0], d[1], d[2], d[3]};
  const auto s = lengths<2>(2, 4);
  bool thrown = false;
  try {
    ArrRaster<int, 4, 2> r(s, std::move(a));
    vc_assert(r.size() == 4 && std::equal(r.begin(), r.end(), d), "moved from an array");
    vc_assert(r.container()[3] == d[3], "underlying container");
    std::array<int, 4> out;
    auto& o = r.moveTo(out);
    vc_assert(&o == &out && std::equal(out.begin(), out.end(), d), "moved to an array");
  } catch (const SizeError&) {
    thrown = true;
  }
  vc_assert(thrown == (product(s, 2) != 4), "other sizes are refused");
}

VC_BOUNDED(access) {
  const long n = vc_long("n", 1, 5);
  int* d = vc_array_int("data", n);
  const std::vector<int> v(d, d + n);
  Sequence<int> s(v);
  const Sequence<int> c(s);
  vc_assert(&s.front() == s.data() && &s.back() == s.data() + n - 1, "first and last elements");
  vc_assert(&c.front() == c.data() && &c.back() == c.data() + n - 1, "first and last constant elements");
  vc_assert(s.cbegin() == s.data() && s.cend() == s.data() + n, "constant iterators");
  vc_assert(s.begin() == s.data() && s.end() == s.data() + n, "iterators");
  vc_assert(c.begin() == c.data() && c.end() == c.data() + n && !c.emtpy(), "iterators of constant containers");
  s.front() = 7;
  vc_assert(s[0] == 7 && c[0] == d[0], "mutable element");
  s.back() = 8;
  vc_assert(s[n - 1] == 8 && c[n - 1] == d[n - 1], "mutable element");
}
#endif
