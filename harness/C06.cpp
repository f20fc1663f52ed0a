// Contracts of slices and sections: which regions are accepted, and which pixel of the parent each pixel is.
#include "common.h"

template <Index N>
VC_INLINE Position<N> anyLengths(Index dim, long hi) {
  const auto s = anyShape<N>("length", dim, 1, hi);
  const long size = product(s, dim);
  vc_assume(size > 0 && size < VC_MAX);
  return s;
}

// Contiguous: full axes before M-1, flat axes from M
template <Index N>
VC_INLINE bool contiguous(const Position<N>& s, const Position<N>& f, const Position<N>& b, Index m) {
  bool ok = true;
  for (Index i = 0; i < long(s.size()); ++i) {
    ok = ok && (i >= m - 1 || (f[i] == 0 && b[i] == s[i] - 1)) && (i < m || f[i] == b[i]);
  }
  return ok;
}

template <Index M, Index N, typename TRaster>
VC_INLINE void sliceContract(TRaster& r, int* data, Index dim, long hi) {
  const auto& s = r.shape();
  const auto f = anyPosition<N>("front", dim, 0, hi - 1);
  const auto b = anyPosition<N>("back", dim, 0, hi - 1);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(0 <= f[i] && f[i] <= b[i] && b[i] < s[i]);
  }
  const Box<N> region(f, b);
  const bool ok = contiguous<N>(s, f, b, M);
  vc_assert(r.template isContiguous<M>(region) == ok, "contiguity");
  const TRaster& c = r;
  const auto q = anyPosition<M>("pos", M, 0, hi - 1);
  VC_THROWS_IFF(Exception, !ok, "non contiguous regions are refused", {
    auto view = r.template slice<M>(region);
    Position<N> p = f;
    bool in = true;
    bool lengths = long(view.shape().size()) == M;
    long size = 1;
    for (Index i = 0; i < M; ++i) {
      lengths = lengths && view.shape()[i] == b[i] - f[i] + 1;
      in = in && q[i] >= 0 && q[i] <= b[i] - f[i];
      p[i] += q[i];
      size *= b[i] - f[i] + 1;
    }
    vc_assert(lengths, "lengths of the region along the kept axes");
    vc_assert(long(view.size()) == size, "size of the slice");
    if (in) {
      vc_assert(&view[q] == data + rowMajor(p, s), "the pixel is the one of the parent");
      view[q] = 123;
      vc_assert(r[p] == 123, "written through");
      r[p] = 124;
      vc_assert(view[q] == 124, "read through");
    }
  });
  VC_THROWS_IFF(Exception, !ok, "non contiguous regions are refused (const)", {
    const auto view = c.template slice<M>(region);
    bool in = true;
    bool lengths = long(view.shape().size()) == M;
    Position<N> p = f;
    for (Index i = 0; i < M; ++i) {
      lengths = lengths && view.shape()[i] == b[i] - f[i] + 1;
      in = in && q[i] >= 0 && q[i] <= b[i] - f[i];
      p[i] += q[i];
    }
    vc_assert(lengths, "lengths of the region along the kept axes (const)");
    if (in) {
      vc_assert(&view[q] == data + rowMajor(p, s), "the pixel is the one of the parent (const)");
    }
  });
}

template <Index M, Index N>
VC_INLINE void slices(Index dim, long hi) {
  const auto s = anyLengths<N>(dim, hi);
  int* data = vc_array_int("data", product(s, dim));
  PtrRaster<int, N> r(s, data);
  sliceContract<M, N>(r, data, dim, hi);
}

VC_PROOF(slice_1_of_1) { slices<1, 1>(1, 4); }
VC_PROOF(slice_1_of_2) { slices<1, 2>(2, 3); }
VC_PROOF(slice_2_of_2) { slices<2, 2>(2, 3); }
VC_PROOF(slice_1_of_3) { slices<1, 3>(3, 2); }
VC_PROOF(slice_2_of_3) { slices<2, 3>(3, 2); }
VC_PROOF(slice_3_of_3) { slices<3, 3>(3, 2); }
VC_PROOF(slice_2_of_4) { slices<2, 4>(4, 2); }
VC_PROOF(slice_3_of_4) { slices<3, 4>(4, 2); }
VC_PROOF(slice_1_of_var2) { slices<1, -1>(2, 3); }
VC_PROOF(slice_2_of_var3) { slices<2, -1>(3, 2); }

VC_PROOF(slice_of_owner) {
  const auto s = anyLengths<2>(2, 3);
  int* data = vc_array_int("data", product(s, 2));
  Raster<int, 2> r(s, data);
  sliceContract<1, 2>(r, r.data(), 2, 3);
}

// Sections between two indices
template <Index N>
VC_INLINE void sections(Index dim, long hi) {
  const auto s = anyLengths<N>(dim, hi);
  int* data = vc_array_int("data", product(s, dim));
  PtrRaster<int, N> r(s, data);
  const auto& c = r;
  const long f = vc_long("front", 0, hi - 1);
  const long b = vc_long("back", 0, hi - 1);
  vc_assume(0 <= f && f <= b && b < s[dim - 1]);
  auto view = r.section(f, b);
  const auto cview = c.section(f, b);
  bool ok = long(view.shape().size()) == dim && long(cview.shape().size()) == dim;
  for (Index i = 0; i < dim; ++i) {
    const long l = i == dim - 1 ? b - f + 1 : s[i];
    ok = ok && view.shape()[i] == l && cview.shape()[i] == l;
  }
  vc_assert(ok, "lengths of the section");
  vc_assert(long(view.size()) * s[dim - 1] == long(r.size()) * (b - f + 1), "size of the section");
  const auto q = anyPosition<N>("pos", dim, 0, hi - 1);
  vc_assume(inside<N>(q, view.shape()));
  Position<N> p = q;
  p[dim - 1] += f;
  vc_assert(&view[q] == data + rowMajor(p, s), "the pixel is the one of the parent");
  vc_assert(&cview[q] == data + rowMajor(p, s), "the pixel is the one of the parent (const)");
  view[q] = 17;
  vc_assert(r[p] == 17 && cview[q] == 17, "written through");
}

VC_PROOF(section_1) { sections<1>(1, 4); }
VC_PROOF(section_2) { sections<2>(2, 3); }
VC_PROOF(section_3) { sections<3>(3, 3); }
VC_PROOF(section_4) { sections<4>(4, 2); }
VC_PROOF(section_var2) { sections<-1>(2, 3); }
VC_PROOF(section_var3) { sections<-1>(3, 2); }

// Sections at an index, of lower dimension
template <Index N>
VC_INLINE void flatSections(Index dim, long hi) {
  constexpr Index M = N < 0 ? -1 : N - 1;
  const auto s = anyLengths<N>(dim, hi);
  int* data = vc_array_int("data", product(s, dim));
  PtrRaster<int, N> r(s, data);
  const auto& c = r;
  const long f = vc_long("index", 0, hi - 1);
  vc_assume(0 <= f && f < s[dim - 1]);
  auto view = r.section(f);
  const auto cview = c.section(f);
  bool ok = long(view.shape().size()) == dim - 1 && long(cview.shape().size()) == dim - 1;
  for (Index i = 0; i < dim - 1; ++i) {
    ok = ok && view.shape()[i] == s[i] && cview.shape()[i] == s[i];
  }
  vc_assert(ok, "lengths of the section");
  const auto q = anyPosition<M>("pos", dim - 1, 0, hi - 1);
  vc_assume(inside<M>(q, view.shape()));
  Position<N> p(dim);
  for (Index i = 0; i < dim - 1; ++i) {
    p[i] = q[i];
  }
  p[dim - 1] = f;
  vc_assert(&view[q] == data + rowMajor(p, s), "the pixel is the one of the parent");
  vc_assert(&cview[q] == data + rowMajor(p, s), "the pixel is the one of the parent (const)");
  view[q] = 17;
  vc_assert(r[p] == 17 && cview[q] == 17, "written through");
}

VC_PROOF(flat_2) { flatSections<2>(2, 3); }
VC_PROOF(flat_3) { flatSections<3>(3, 3); }
VC_PROOF(flat_4) { flatSections<4>(4, 2); }
VC_PROOF(flat_var2) { flatSections<-1>(2, 3); }
VC_PROOF(flat_var3) { flatSections<-1>(3, 2); }

VC_PROOF(recursive) {
  const auto s = anyLengths<3>(3, 3);
  int* data = vc_array_int("data", product(s, 3));
  PtrRaster<int, 3> r(s, data);
  const auto p = anyPosition<3>("pos", 3, 0, 2);
  vc_assume(inside<3>(p, s));
  auto plane = r.section(p[2]);
  auto line = plane.section(p[1]);
  vc_assert(line.shape()[0] == s[0], "length of the line");
  vc_assert(&line[p[0]] == data + rowMajor(p, s), "section of a section");
}
