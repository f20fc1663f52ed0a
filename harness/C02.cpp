#include "common.h"

#include "LitlContainer/Sequence.h"

// at(i) for 1D indices, pointer-based, vector-based and array-based containers
template <typename TContainer>
VC_INLINE void atContract(TContainer& c, const int* data, long size) {
  const long i = vc_long("index", -6, 6);
  const bool valid = i >= -size && i <= size - 1;
  long offset = -1;
  VC_THROWS_IFF(OutOfBoundsError, !valid, "index out of [-size, size-1]", offset = &c.at(i) - c.data());
  vc_assert(offset == (i < 0 ? i + size : i), "forward and backward indices");
  const auto& cc = c;
  vc_assert(&cc.at(i) == &c[offset], "const access designates the same element");
  vc_assert(cc.at(i) == data[offset], "value");
  c.at(i) = 5;
  vc_assert(c[offset] == 5, "written element");
}

VC_PROOF(at_index_ptr) {
  const long size = vc_long("size", 0, 5);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  PtrRaster<int, 1> r(Position<1> {size}, data);
  atContract(r, data, size);
}

VC_PROOF(at_index_raster2) {
  const auto s = anyShape<2>("length", 2, 0, 3);
  const long size = product(s, 2);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  PtrRaster<int, 2> r(s, data);
  atContract(r, data, size);
}

VC_PROOF(at_index_sequence) {
  const long size = vc_long("size", 0, 5);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  Sequence<int> r(size, data);
  atContract(r, data, size);
}

VC_PROOF(at_index_vector) {
  int* data = vc_array_int("data", 3);
  Vector<int, 3> r {data[0], data[1], data[2]};
  atContract(r, data, 3);
}

// at(position)
template <Index N>
VC_INLINE void atPosition(Index dim) {
  const auto s = anyShape<N>("length", dim, 0, 3);
  const long size = product(s, dim);
  vc_assume(size >= 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  PtrRaster<int, N> r(s, data);
  const auto p = anyPosition<N>("pos", dim, -4, 3);
  bool valid = true;
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) {
    valid = valid && p[i] >= -s[i] && p[i] <= s[i] - 1;
    q[i] = p[i] < 0 ? p[i] + s[i] : p[i];
  }
  int* e = nullptr;
  VC_THROWS_IFF(OutOfBoundsError, !valid, "coordinate out of [-length, length-1]", e = &r.at(p));
  const long o = rowMajor(q, s);
  vc_assert(e == data + o, "forward and backward coordinates");
  const auto& c = r;
  vc_assert(&c.at(p) == data + o, "const access");
  vc_assert(c.at(p) == data[o], "value");
  r.at(p) = 3;
  vc_assert(data[o] == 3, "written element");
}

VC_PROOF(at_position_1) { atPosition<1>(1); }
VC_PROOF(at_position_2) { atPosition<2>(2); }
VC_PROOF(at_position_3) { atPosition<3>(3); }
VC_PROOF(at_position_4) { atPosition<4>(4); }
VC_PROOF(at_position_var2) { atPosition<-1>(2); }

VC_PROOF(at_position_var3) { atPosition<-1>(3); }
VC_PROOF(at_position_5) { atPosition<5>(5); }
VC_PROOF(at_position_var5) { atPosition<-1>(5); }

// Positions of another dimension than that of the raster
template <Index Dim>
VC_INLINE void otherDimension(Index dim) {
  const auto s = anyShape<-1>("length", Dim, 1, 2);
  const long size = product(s, Dim);
  vc_assume(size > 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  PtrRaster<int, -1> r(s, data);
  const auto p = anyPosition<-1>("pos", dim, -2, 1);
  const auto& c = r;
  const long access = vc_long("access", 0, 2);
  if (access == 0) {
    VC_THROWS_IFF(SizeError, true, "checked access at a position of another dimension", r.at(p));
  } else if (access == 1) {
    VC_THROWS_IFF(SizeError, true, "constant checked access at a position of another dimension", c.at(p));
  } else {
    VC_THROWS_IFF(SizeError, true, "access at a position of another dimension", r[p]);
  }
}

VC_PROOF(other_dimension_1_2) { otherDimension<1>(2); }
VC_PROOF(other_dimension_2_1) { otherDimension<2>(1); }
VC_PROOF(other_dimension_2_3) { otherDimension<2>(3); }
VC_PROOF(other_dimension_3_2) { otherDimension<3>(2); }
VC_PROOF(other_dimension_3_1) { otherDimension<3>(1); }

VC_PROOF(at_position_vec) {
  const auto s = anyShape<2>("length", 2, 1, 3);
  const long size = product(s, 2);
  vc_assume(size > 0 && size < VC_MAX);
  int* data = vc_array_int("data", size);
  VecRaster<int, 2> r(s, data);
  const auto p = anyPosition<2>("pos", 2, -4, 3);
  const bool valid = p[0] >= -s[0] && p[0] < s[0] && p[1] >= -s[1] && p[1] < s[1];
  int v = 0;
  VC_THROWS_IFF(OutOfBoundsError, !valid, "coordinate out of [-length, length-1]", v = r.at(p));
  const long x = p[0] < 0 ? p[0] + s[0] : p[0];
  const long y = p[1] < 0 ? p[1] + s[1] : p[1];
  vc_assert(v == data[x + s[0] * y], "value");
}
