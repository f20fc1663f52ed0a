// Contracts of the plans of Fourier transforms: shapes, buffers, normalization, sharing.
// The contracts of FFTW are assumed: its plan functions require buffers large enough for the transform.
// LIBS: -lfftw3
#include "common.h"

#include "LitlTransforms/Dft.h"

#include <complex>

using Complex = std::complex<double>;

constexpr long MAX_LENGTH = 1 << 15; // Lengths are of type int in FFTW

template <Index N>
VC_INLINE Position<N> anyLogicalShape(Index dim, long hi) {
  const auto s = anyShape<N>("length", dim, 1, hi);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(s[i] <= MAX_LENGTH);
  }
  return s;
}

template <Index N>
VC_INLINE Position<N> halved(Position<N> s) {
  s[0] = s[0] / 2 + 1;
  return s;
}

template <Index N, typename TPlan>
VC_INLINE void checkPlan(const TPlan& plan, const Position<N>& shape, const Position<N>& in, const Position<N>& out) {
  vc_assert(samePosition(plan.logicalShape(), shape), "logical shape");
  vc_assert(samePosition(plan.inShape(), in) && samePosition(plan.in().shape(), in), "shape of the input buffer");
  vc_assert(samePosition(plan.outShape(), out) && samePosition(plan.out().shape(), out), "shape of the output buffer");
  vc_assert(long(plan.in().size()) == product(in, in.size()), "size of the input buffer");
  vc_assert(long(plan.out().size()) == product(out, out.size()), "size of the output buffer");
  vc_assert(plan.normalizationFactor() == product(shape, shape.size()), "normalization factor");
}

template <typename TPlan, Index N>
VC_INLINE void shapes(Index dim, long hi, bool halfIn, bool halfOut) {
  const auto shape = anyLogicalShape<N>(dim, hi);
  TPlan plan(shape);
  checkPlan<N>(plan, shape, halfIn ? halved(shape) : shape, halfOut ? halved(shape) : shape);
  vc_assert(static_cast<void*>(plan.in().data()) != static_cast<void*>(plan.out().data()), "distinct buffers");
}

VC_PROOF(shapes_real_1) { shapes<RealDft<1>, 1>(1, 9, false, true); }
VC_PROOF(shapes_real_2) { shapes<RealDft<2>, 2>(2, 5, false, true); }
VC_PROOF(shapes_real_3) { shapes<RealDft<3>, 3>(3, 3, false, true); }
VC_PROOF(shapes_inverse_real_1) { shapes<RealDft<1>::Inverse, 1>(1, 9, true, false); }
VC_PROOF(shapes_inverse_real_2) { shapes<RealDft<2>::Inverse, 2>(2, 5, true, false); }
VC_PROOF(shapes_complex_2) { shapes<ComplexDft<2>, 2>(2, 5, false, false); }
VC_PROOF(shapes_complex_3) { shapes<ComplexDft<3>, 3>(3, 3, false, false); }
VC_PROOF(shapes_inverse_complex_2) { shapes<ComplexDft<2>::Inverse, 2>(2, 5, false, false); }
VC_PROOF(shapes_inverse_complex_3) { shapes<ComplexDft<3>::Inverse, 3>(3, 3, false, false); }

// The inverse plan shares the buffers in reverse order
template <typename TPlan, Index N>
VC_INLINE void inverse(Index dim, long hi, bool half) {
  const auto shape = anyLogicalShape<N>(dim, hi);
  TPlan plan(shape);
  auto inv = plan.inverse();
  checkPlan<N>(inv, shape, half ? halved(shape) : shape, shape);
  vc_assert(inv.in().data() == plan.out().data(), "the input is the output of the direct plan");
  vc_assert(inv.out().data() == plan.in().data(), "the output is the input of the direct plan");
  auto direct = inv.inverse();
  checkPlan<N>(direct, shape, shape, half ? halved(shape) : shape);
  vc_assert(direct.in().data() == plan.in().data() && direct.out().data() == plan.out().data(), "twice inverse");
}

VC_PROOF(inverse_real_2) { inverse<RealDft<2>, 2>(2, 4, true); }
VC_PROOF(inverse_real_3) { inverse<RealDft<3>, 3>(3, 3, true); }
VC_PROOF(inverse_complex_2) { inverse<ComplexDft<2>, 2>(2, 4, false); }

VC_PROOF(compose) {
  const auto shape = anyLogicalShape<2>(2, 4);
  RealDft<2> a(shape);
  const auto half = halved(shape);
  auto b = a.compose<ComplexDft<2>>(half);
  checkPlan<2>(b, half, half, half);
  vc_assert(b.in().data() == a.out().data(), "the input is the output of the first plan");
  vc_assert(static_cast<void*>(b.out().data()) != static_cast<void*>(a.in().data()), "new output");
  vc_assert(b.out().data() != a.out().data(), "new output");
  auto c = b.compose<RealDft<2>::Inverse>(shape);
  checkPlan<2>(c, shape, half, shape);
  vc_assert(c.in().data() == b.out().data(), "the input is the output of the second plan");
}

// Given buffers are used
VC_PROOF(given_buffers) {
  const auto shape = anyLogicalShape<2>(2, 4);
  RealDft<2> a(shape);
  RealDft<2> b(shape, a.in().data(), a.out().data());
  vc_assert(b.in().data() == a.in().data() && b.out().data() == a.out().data(), "given buffers");
  RealDft<2> c(shape, a.in().data());
  vc_assert(c.in().data() == a.in().data() && c.out().data() != a.out().data(), "given input buffer");
  checkPlan<2>(b, shape, shape, halved(shape));
  checkPlan<2>(c, shape, shape, halved(shape));
}

// Normalization
template <typename TPlan>
VC_INLINE void normalizeComplex() {
  const auto shape = anyLogicalShape<2>(2, 4);
  TPlan plan(shape);
  const long i = vc_long("i", 0, 15);
  vc_assume(i >= 0 && i < long(plan.out().size()));
  const double re = vc_double("re", -2, 2);
  const double im = vc_double("im", -2, 2);
  plan.out().data()[i] = Complex(re, im);
  auto& r = plan.normalize();
  vc_assert(&r == &plan, "the plan itself");
  const double f = 1. / (shape[0] * shape[1]);
  const auto v = plan.out().data()[i];
  vc_assert(v.real() == re * f && v.imag() == im * f, "division by the number of elements");
}

VC_PROOF(normalize_complex) { normalizeComplex<ComplexDft<2>>(); }
VC_PROOF(normalize_inverse_complex) { normalizeComplex<ComplexDft<2>::Inverse>(); }
VC_PROOF(normalize_real) { normalizeComplex<RealDft<2>>(); }

VC_PROOF(normalize_inverse_real) {
  const auto shape = anyLogicalShape<2>(2, 4);
  RealDft<2>::Inverse plan(shape);
  const long i = vc_long("i", 0, 15);
  vc_assume(i >= 0 && i < long(plan.out().size()));
  const double v = vc_double("value", -2, 2);
  plan.out().data()[i] = v;
  const Complex* in = plan.in().data();
  const long j = vc_long("j", 0, 15);
  vc_assume(j >= 0 && j < long(plan.in().size()));
  plan.in().data()[j] = Complex(3, 5);
  plan.normalize();
  vc_assert(plan.out().data()[i] == v * (1. / (shape[0] * shape[1])), "division by the number of elements");
  vc_assert(in == plan.in().data() && in[j].real() == 3 && in[j].imag() == 5, "the input is not modified");
}

// Plans are executed on their own buffers, and released once
VC_PROOF(lifetime) {
  const long live = vc_live_allocs();
  {
    const auto shape = anyLogicalShape<2>(2, 4);
    RealDft<2> a(shape);
    auto b = a.inverse();
    auto& ra = a.transform();
    vc_assert(&ra == &a, "the plan itself");
    b.transform().normalize();
    RealDft<2> c(std::move(a));
    vc_assert(c.out().data() == b.in().data() && c.in().data() == b.out().data(), "moved buffers");
    c.transform();
  }
#ifdef VC_SYMBOLIC
  vc_assert(vc_live_allocs() == live, "everything is released");
#else
  (void)live;
#endif
}

#ifndef VC_SYMBOLIC

bool near(const Complex& x, const Complex& y) {
  return std::abs(x - y) <= 1e-8 * (1 + std::abs(y));
}

// Definition of the transform
template <typename TRaster>
Complex definition(const TRaster& in, const Position<2>& k, double sign) {
  Complex out = 0;
  for (const auto& p : in.domain()) {
    const double phase = double(p[0] * k[0]) / in.shape()[0] + double(p[1] * k[1]) / in.shape()[1];
    out += Complex(in[p]) * std::polar(1., sign * 2 * M_PI * phase);
  }
  return out;
}

// The plans are those of the transforms, with their axes in the right order
VC_BOUNDED(transforms) {
  const auto shape = anyShape<2>("length", 2, 1, 5);
  const long size = product(shape, 2);
  const double* values = vc_array_double("values", size);
  Raster<double, 2> in(shape, std::vector<double>(values, values + size));
  const auto half = halved(shape);
  RealDft<2> plan(shape);
  std::copy(in.begin(), in.end(), plan.in().begin());
  plan.transform();
  auto inv = plan.inverse();
  std::copy(in.begin(), in.end(), plan.in().begin());
  plan.transform();
  for (const auto& p : Box<2>({0, 0}, half - 1)) {
    vc_assert(near(plan.out()[p], definition(in, p, -1)), "real transform");
  }
  inv.transform().normalize();
  for (const auto& p : in.domain()) {
    vc_assert(near(inv.out()[p], in[p]), "inverse real transform");
  }
  const auto coefs = realDft(in);
  vc_assert(coefs.shape() == half, "shape of the real transform");
  const auto full = complexDft(in);
  for (const auto& p : in.domain()) {
    vc_assert(near(full[p], definition(in, p, -1)), "complex transform");
    vc_assert(p[0] >= half[0] || near(coefs[p], full[p]), "real transform by function");
  }
  const auto back = inverseRealDft(coefs, shape);
  const auto cback = inverseComplexDft(full);
  vc_assert(back.shape() == shape && cback.shape() == shape, "shapes of the inverse transforms");
  for (const auto& p : in.domain()) {
    vc_assert(near(back[p], in[p]) && near(cback[p], in[p]), "inverse transforms by functions");
    vc_assert(near(cback[p], definition(full, p, 1) / double(size)), "definition of the inverse");
  }
}

#endif
