// Contracts of FITS files: a raster which is written reads back with the same shape and content.
// The contract of CFITSIO is assumed: an image of a type which holds the values exactly reads back as it was written.
// LIBS: -lcfitsio
#include "common.h"

#include "LitlIo/Fits.h"

#include <cstdint>
#include <limits>
#include <string>

#ifdef VC_SYMBOLIC
struct Scratch {
  std::string file() const {
    return "image.fits";
  }
};
#else
#include <cstdlib>
#include <unistd.h>
// A new folder with at most one file, removed in the end
struct Scratch {
  Scratch() {
    const char* tmp = std::getenv("TMPDIR");
    folder = std::string(tmp && *tmp ? tmp : "/tmp") + "/vc_fits_XXXXXX";
    vc_assert(mkdtemp(&folder[0]) != nullptr, "the harness makes a scratch folder");
  }
  ~Scratch() {
    unlink(file().c_str());
    rmdir(folder.c_str());
  }
  std::string file() const {
    return folder + "/image.fits";
  }
  std::string folder;
};
#endif

template <Index N>
VC_INLINE Position<N> anyImage(Index dim, long hi) {
  const auto shape = anyShape<N>("length", dim, 1, hi);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(shape[i] > 0);
  }
  vc_assume(product(shape, dim) < VC_MAX);
  return shape;
}

template <typename T>
struct Content {
  static VC_INLINE T* any(long size) {
    return static_cast<T*>(vc_array_long("values", size));
  }
};
template <>
struct Content<int> {
  static VC_INLINE int* any(long size) {
    return vc_array_int("values", size);
  }
};
template <>
struct Content<float> {
  static VC_INLINE float* any(long size) {
    return vc_array_float("values", size);
  }
};
template <>
struct Content<double> {
  static VC_INLINE double* any(long size) {
    return vc_array_double("values", size);
  }
};

template <Index N, typename TRaster, typename T>
VC_INLINE void same(const TRaster& out, const Position<N>& shape, const T* values, long size, long hi) {
  const long i = vc_long("i", 0, hi);
  vc_assume(i >= 0 && i < size);
  vc_assert(out.dimension() == shape.size(), "dimension");
  for (Index k = 0; k < Index(shape.size()); ++k) {
    vc_assert(out.shape()[k] == shape[k], "shape");
  }
  vc_assert(out.data()[i] == values[i], "content");
}

// Write values at an address, read a raster of dimension M
template <typename T, Index N, Index M>
VC_INLINE void file(Index dim, long hi) {
  const Scratch scratch;
  const auto shape = anyImage<N>(dim, hi);
  const long size = product(shape, dim);
  T* values = Content<T>::any(size);
  const long live = vc_live_allocs();
  Fits(scratch.file()).write(PtrRaster<T, N>(shape, values));
  vc_assert(vc_live_allocs() == live, "the file is closed after it was written");
  {
    Fits io(scratch.file());
    const auto out = io.template read<Raster<T, M>>();
    same<N>(out, shape, values, size, hi * hi);
    const auto again = io.template read<Raster<T, M>>();
    same<N>(again, shape, values, size, hi * hi);
  }
  vc_assert(vc_live_allocs() == live, "the file is closed after it was read");
}

VC_PROOF(int_1) { file<int, 1, 1>(1, 9); }
VC_PROOF(int_2) { file<int, 2, 2>(2, 4); }
VC_PROOF(int_3) { file<int, 3, 3>(3, 3); }
VC_PROOF(int_4) { file<int, 4, 4>(4, 2); }
VC_PROOF(int_2_as_var) { file<int, 2, -1>(2, 4); }
VC_PROOF(int_3_as_var) { file<int, 3, -1>(3, 3); }
VC_PROOF(int_var_as_3) { file<int, -1, 3>(3, 3); }
VC_PROOF(int_var) { file<int, -1, -1>(2, 3); }
VC_PROOF(long_2) { file<long, 2, 2>(2, 4); }
VC_PROOF(long_3_as_var) { file<long, 3, -1>(3, 3); }
VC_PROOF(float_2) { file<float, 2, 2>(2, 4); }
VC_PROOF(float_3) { file<float, 3, 3>(3, 3); }
VC_PROOF(double_1) { file<double, 1, 1>(1, 9); }
VC_PROOF(double_2) { file<double, 2, 2>(2, 4); }
VC_PROOF(double_3) { file<double, 3, 3>(3, 3); }
VC_PROOF(double_2_as_var) { file<double, 2, -1>(2, 4); }

// Values of any type, held by a raster, through a single object
template <typename T>
VC_INLINE void owned() {
  const Scratch scratch;
  const auto shape = anyImage<2>(2, 4);
  const long size = product(shape, 2);
  const int* values = vc_array_int("values", size);
  Raster<T, 2> in(shape);
  for (long i = 0; i < size; ++i) {
    in.data()[i] = static_cast<T>(values[i]);
  }
  Fits io(scratch.file());
  io.write(in);
  const auto out = io.template read<Raster<T, 2>>();
  const long i = vc_long("i", 0, 16);
  vc_assume(i >= 0 && i < size);
  vc_assert(samePosition<2>(out.shape(), shape), "shape");
  vc_assert(out.data()[i] == static_cast<T>(values[i]), "content");
  vc_assert(in.data()[i] == static_cast<T>(values[i]), "the written raster is left unchanged");
}

VC_PROOF(owned_char) { owned<char>(); }
VC_PROOF(owned_signed_char) { owned<signed char>(); }
VC_PROOF(owned_unsigned_char) { owned<unsigned char>(); }
VC_PROOF(owned_short) { owned<short>(); }
VC_PROOF(owned_unsigned_short) { owned<unsigned short>(); }
VC_PROOF(owned_int) { owned<int>(); }
VC_PROOF(owned_unsigned_int) { owned<unsigned int>(); }
VC_PROOF(owned_long) { owned<long>(); }
VC_PROOF(owned_unsigned_long) { owned<unsigned long>(); }
VC_PROOF(owned_long_long) { owned<long long>(); }
VC_PROOF(owned_unsigned_long_long) { owned<unsigned long long>(); }
VC_PROOF(owned_float) { owned<float>(); }
VC_PROOF(owned_double) { owned<double>(); }

// Rasters of other holders
VC_PROOF(aligned) {
  const Scratch scratch;
  const auto shape = anyImage<2>(2, 4);
  const long size = product(shape, 2);
  double* values = vc_array_double("values", size);
  AlignedRaster<double, 2> in(shape);
  for (long i = 0; i < size; ++i) {
    in.data()[i] = values[i];
  }
  Fits(scratch.file()).write(in);
  const auto out = Fits(scratch.file()).template read<AlignedRaster<double, 2>>();
  same<2>(out, shape, values, size, 16);
}

VC_PROOF(section) {
  const Scratch scratch;
  const auto shape = anyImage<3>(3, 3);
  const long size = product(shape, 3);
  int* values = vc_array_int("values", size);
  PtrRaster<int, 3> in(shape, values);
  const long z = vc_long("z", 0, 2);
  vc_assume(z >= 0 && z < shape[2]);
  Fits(scratch.file()).write(in.section(z));
  const auto out = Fits(scratch.file()).template read<Raster<int, 2>>();
  same<2>(out, Position<2> {shape[0], shape[1]}, values + z * shape[0] * shape[1], shape[0] * shape[1], 9);
}

#ifndef VC_SYMBOLIC

// The real library: any dimension, and the extreme values of every type
template <typename T>
T anyPixel() {
  switch (vc_long("kind", 0, 3)) {
    case 0:
      return std::numeric_limits<T>::lowest();
    case 1:
      return std::numeric_limits<T>::max();
    case 2:
      return std::numeric_limits<T>::min();
    default:
      return T(vc_long("pixel", -100000, 100000)) / T(3);
  }
}

template <typename T, Index N>
void library(Index dim) {
  const Scratch scratch;
  const auto shape = anyShape<N>("length", dim, 1, 4);
  Raster<T, N> in(shape);
  for (auto& e : in) {
    e = anyPixel<T>();
  }
  Fits io(scratch.file());
  io.write(in);
  vc_assert(io.template read<Raster<T, N>>() == in, "read by the same object");
  Fits other(scratch.file());
  const auto out = other.template read<Raster<T, -1>>();
  vc_assert(out.dimension() == dim, "dimension");
  for (Index i = 0; i < dim; ++i) {
    vc_assert(out.shape()[i] == shape[i], "shape");
  }
  vc_assert(std::equal(out.begin(), out.end(), in.begin()), "content");
}

template <typename T>
void libraryDimensions() {
  library<T, 1>(1);
  library<T, 2>(2);
  library<T, 3>(3);
  library<T, -1>(vc_long("dimension", 1, 5));
}

VC_BOUNDED(types_8) {
  libraryDimensions<char>();
  libraryDimensions<signed char>();
  libraryDimensions<unsigned char>();
}
VC_BOUNDED(types_16) {
  libraryDimensions<short>();
  libraryDimensions<unsigned short>();
}
VC_BOUNDED(types_32) {
  libraryDimensions<int>();
  libraryDimensions<unsigned int>();
  libraryDimensions<float>();
}
VC_BOUNDED(types_64) {
  libraryDimensions<long>();
  libraryDimensions<unsigned long>();
  libraryDimensions<long long>();
  libraryDimensions<unsigned long long>();
  libraryDimensions<double>();
}

// Sizes around those of the blocks and buffers of libraries
VC_BOUNDED(blocks) {
  const long log = vc_long("log", 5, 17);
  const long shift = vc_long("shift", -1, 1);
  const Scratch scratch;
  Raster<int, 2> in({(1L << log) + shift, 2});
  for (long i = 0; i < long(in.size()); ++i) {
    in.data()[i] = int(i * 7919);
  }
  Fits io(scratch.file());
  io.write(in);
  vc_assert(io.template read<Raster<int, 2>>() == in, "content");
}

#endif
