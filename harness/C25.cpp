// Contracts of the inverse transforms: transforming, inverse-transforming and normalizing is the identity.
// The contract of FFTW is assumed: the inverse transform of the transform of values is these values times their number.
// LIBS: -lfftw3
#include "common.h"

#include "LitlTransforms/Dft.h"

#include <complex>

using Complex = std::complex<double>;

constexpr long MAX_LENGTH = 1 << 15; // Lengths are of type int in FFTW

template <Index N>
VC_INLINE Position<N> anyLogicalShape(Index dim, long hi) {
  const auto s = anyShape<N>("length", dim, 1, hi);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(s[i] <= MAX_LENGTH);
  }
  return s;
}

// Equality up to rounding errors, which do not exist in the proofs
VC_INLINE bool alike(double x, double y) {
#ifdef VC_SYMBOLIC
  return x == y;
#else
  return std::abs(x - y) <= 1e-9 * (1 + std::abs(y));
#endif
}

// values are the parts of the elements
template <typename T>
struct Parts;
template <>
struct Parts<double> {
  static constexpr long Count = 1;
};
template <>
struct Parts<Complex> {
  static constexpr long Count = 2;
};

// Plans: any of the two can be the direct one for the complex transform
template <typename TPlan, Index N>
VC_INLINE void plans(Index dim, long hi) {
  using T = typename TPlan::InValue;
  const auto shape = anyLogicalShape<N>(dim, hi);
  const long size = Parts<T>::Count * product(shape, dim);
  const double* values = vc_array_double("values", size);
  TPlan plan(shape);
  auto inverse = plan.inverse();
  double* in = reinterpret_cast<double*>(plan.in().data());
  for (long i = 0; i < size; ++i) {
    in[i] = values[i];
  }
  plan.transform();
  inverse.transform().normalize();
  const double* out = reinterpret_cast<const double*>(inverse.out().data());
  const long i = vc_long("i", 0, 2 * hi * hi);
  vc_assume(i >= 0 && i < size);
  vc_assert(samePosition<N>(inverse.out().shape(), shape), "shape");
  vc_assert(alike(out[i], values[i]), "the values");
}

VC_PROOF(plans_real_1) { plans<RealDft<1>, 1>(1, 9); }
VC_PROOF(plans_real_2) { plans<RealDft<2>, 2>(2, 4); }
VC_PROOF(plans_real_3) { plans<RealDft<3>, 3>(3, 3); }
VC_PROOF(plans_complex_1) { plans<ComplexDft<1>, 1>(1, 9); }
VC_PROOF(plans_complex_2) { plans<ComplexDft<2>, 2>(2, 4); }
VC_PROOF(plans_complex_3) { plans<ComplexDft<3>, 3>(3, 3); }
VC_PROOF(plans_inverse_complex_2) { plans<ComplexDft<2>::Inverse, 2>(2, 4); }

// Functions
template <Index N>
VC_INLINE void realFunctions(Index dim, long hi) {
  const auto shape = anyLogicalShape<N>(dim, hi);
  const long size = product(shape, dim);
  double* values = vc_array_double("values", size);
  const PtrRaster<double, N> in(shape, values);
  const auto out = inverseRealDft(realDft(in), shape);
  const long i = vc_long("i", 0, hi * hi);
  vc_assume(i >= 0 && i < size);
  vc_assert(samePosition<N>(out.shape(), shape), "shape");
  vc_assert(alike(out.data()[i], values[i]), "the values");
}

VC_PROOF(functions_real_1) { realFunctions<1>(1, 9); }
VC_PROOF(functions_real_2) { realFunctions<2>(2, 4); }
VC_PROOF(functions_real_3) { realFunctions<3>(3, 3); }

template <Index N>
VC_INLINE void complexFunctions(Index dim, long hi) {
  const auto shape = anyLogicalShape<N>(dim, hi);
  const long size = product(shape, dim);
  double* values = vc_array_double("values", 2 * size);
  const PtrRaster<Complex, N> in(shape, reinterpret_cast<Complex*>(values));
  const auto out = inverseComplexDft(complexDft(in));
  const long i = vc_long("i", 0, 2 * hi * hi);
  vc_assume(i >= 0 && i < 2 * size);
  vc_assert(samePosition<N>(out.shape(), shape), "shape");
  vc_assert(alike(reinterpret_cast<const double*>(out.data())[i], values[i]), "the values");
}

VC_PROOF(functions_complex_1) { complexFunctions<1>(1, 9); }
VC_PROOF(functions_complex_2) { complexFunctions<2>(2, 4); }
VC_PROOF(functions_complex_3) { complexFunctions<3>(3, 3); }

// The same plans again, with other values, after they were moved
VC_PROOF(again) {
  const auto shape = anyLogicalShape<2>(2, 4);
  const long size = product(shape, 2);
  const double* first = vc_array_double("first", size);
  const double* second = vc_array_double("second", size);
  RealDft<2> plan(shape);
  auto inverse = plan.inverse();
  for (long i = 0; i < size; ++i) {
    plan.in().data()[i] = first[i];
  }
  plan.transform();
  inverse.transform().normalize();
  const long j = vc_long("j", 0, 15);
  vc_assume(j >= 0 && j < size);
  vc_assert(alike(inverse.out().data()[j], first[j]), "the values of the first transform");
  RealDft<2> moved(std::move(plan));
  for (long i = 0; i < size; ++i) {
    moved.in().data()[i] = second[i];
  }
  moved.transform();
  inverse.transform().normalize();
  const long i = vc_long("i", 0, 15);
  vc_assume(i >= 0 && i < size);
  vc_assert(alike(inverse.out().data()[i], second[i]), "the values of the last transform");
}

// The direct transform of an inverse plan
VC_PROOF(inverse_of_inverse) {
  const auto shape = anyLogicalShape<2>(2, 4);
  const long size = product(shape, 2);
  const double* values = vc_array_double("values", size);
  RealDft<2> plan(shape);
  auto inverse = plan.inverse();
  auto direct = inverse.inverse();
  for (long i = 0; i < size; ++i) {
    direct.in().data()[i] = values[i];
  }
  direct.transform();
  inverse.transform().normalize();
  const long i = vc_long("i", 0, 15);
  vc_assume(i >= 0 && i < size);
  vc_assert(alike(plan.in().data()[i], values[i]), "the values");
}

#ifndef VC_SYMBOLIC

// Longer lines, of any factors
VC_BOUNDED(lengths) {
  const long n = vc_long("length", 1, 200);
  const long m = vc_long("length", 1, 5);
  const double* values = vc_array_double("values", n * m);
  const PtrRaster<const double, 2> in({n, m}, values);
  const auto real = inverseRealDft(realDft(in), {n, m});
  const auto complex = inverseComplexDft(complexDft(in));
  for (long i = 0; i < n * m; ++i) {
    vc_assert(alike(real.data()[i], values[i]), "the values, through real transforms");
    vc_assert(alike(complex.data()[i].real(), values[i]) && alike(complex.data()[i].imag(), 0), "the values, through complex transforms");
  }
}

#endif
