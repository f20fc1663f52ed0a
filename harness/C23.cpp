// Contracts of the noise generators: draws of the standard distributions, reproducible from the seed.
// The contracts of the standard are assumed: a draw is a function of the states and of the parameters.
#include "common.h"

#include "LitlContainer/Random.h"

#include <complex>
#include <map>
#include <random>

using Complex = std::complex<double>;

// Any seed but -1, which stands for the current time
VC_INLINE std::size_t anySeed() {
  const long seed = vc_long("seed", 0, 6);
  vc_assume(seed >= 0);
  return std::size_t(seed);
}

template <typename T>
VC_INLINE T anyNumber(const char* name, long lo, long hi);
template <>
VC_INLINE double anyNumber<double>(const char* name, long lo, long hi) {
  return vc_double(name, lo, hi);
}
template <>
VC_INLINE long anyNumber<long>(const char* name, long lo, long hi) {
  const long out = vc_long(name, lo, hi);
  vc_assume(out > -VC_MAX && out < VC_MAX);
  return out;
}
template <>
VC_INLINE int anyNumber<int>(const char* name, long lo, long hi) {
  const long out = vc_long(name, lo, hi);
  vc_assume(out >= -100000 && out <= 100000);
  return int(out);
}
template <>
VC_INLINE Complex anyNumber<Complex>(const char* name, long lo, long hi) {
  const double re = vc_double(name, lo, hi);
  const double im = vc_double(name, lo, hi);
  return {re, im};
}

// Generated and added values, in any order
template <typename T, typename TNoise, typename TDraw>
VC_INLINE void additive(TNoise& noise, TDraw&& draw) {
  vc_assert(noise() == draw(), "first value");
  vc_assert(noise() == draw(), "second value");
  const T in = anyNumber<T>("in", -2, 2);
  vc_assert(noise(in) == in + draw(), "value added to the input");
  TNoise copy(noise);
  const T third = draw();
  vc_assert(noise() == third, "value after an input");
  vc_assert(copy() == third, "copies go on alike");
}

// Uniform noise
template <typename T, typename TDistribution>
VC_INLINE void uniform() {
  const T min = anyNumber<T>("min", -3, 3);
  const T max = anyNumber<T>("max", -3, 3);
  vc_assume(std::is_integral<T>::value ? min <= max : min < max);
  const auto seed = anySeed();
  UniformNoise<T> noise(min, max, seed);
  std::mt19937 engine(seed);
  TDistribution distribution(min, max);
  additive<T>(noise, [&]() { return distribution(engine); });
  const T v = noise();
  vc_assert(v >= min && v <= max, "in the given range");
}

VC_PROOF(uniform_double) { uniform<double, std::uniform_real_distribution<double>>(); }
VC_PROOF(uniform_long) { uniform<long, std::uniform_int_distribution<long>>(); }
VC_PROOF(uniform_int) { uniform<int, std::uniform_int_distribution<int>>(); }

VC_PROOF(uniform_complex) {
  const Complex min = anyNumber<Complex>("min", -3, 0);
  const Complex max = anyNumber<Complex>("max", 1, 3);
  const auto seed = anySeed();
  UniformNoise<Complex> noise(min, max, seed);
  std::mt19937 engine(seed);
  std::uniform_real_distribution<double> real(min.real(), max.real());
  std::uniform_real_distribution<double> imag(min.imag(), max.imag());
  additive<Complex>(noise, [&]() {
    const double re = real(engine);
    const double im = imag(engine);
    return Complex(re, im);
  });
}

// Gaussian noise
template <typename T>
VC_INLINE void gaussian() {
  const T mean = anyNumber<T>("mean", -3, 3);
  const T stdev = anyNumber<T>("stdev", 1, 3);
  vc_assume(stdev > 0);
  const auto seed = anySeed();
  GaussianNoise<T> noise(mean, stdev, seed);
  std::mt19937 engine(seed);
  std::normal_distribution<double> distribution(mean, stdev);
  additive<T>(noise, [&]() { return T(distribution(engine)); });
}

VC_PROOF(gaussian_double) { gaussian<double>(); }

VC_PROOF(gaussian_complex) {
  const Complex mean = anyNumber<Complex>("mean", -3, 3);
  const Complex stdev = anyNumber<Complex>("stdev", 1, 3);
  vc_assume(stdev.real() > 0 && stdev.imag() > 0);
  const auto seed = anySeed();
  GaussianNoise<Complex> noise(mean, stdev, seed);
  std::mt19937 engine(seed);
  std::normal_distribution<double> real(mean.real(), stdev.real());
  std::normal_distribution<double> imag(mean.imag(), stdev.imag());
  additive<Complex>(noise, [&]() {
    const double re = real(engine);
    const double im = imag(engine);
    return Complex(re, im);
  });
}

// Poisson noise: generated with the mean, applied with the input as the mean
template <typename T, typename TInt>
VC_INLINE void poisson() {
  const T mean = anyNumber<T>("mean", 1, 20);
  const T in = anyNumber<T>("in", 0, 20);
  vc_assume(mean > 0 && in >= 0);
  const auto seed = anySeed();
  PoissonNoise<T> noise(mean, seed);
  std::mt19937 engine(seed);
  std::poisson_distribution<TInt> distribution(mean);
  vc_assert(noise() == T(distribution(engine)), "first value");
  std::poisson_distribution<TInt> shot(in);
  vc_assert(noise(in) == T(shot(engine)), "shot noise");
  PoissonNoise<T> copy(noise);
  const T third = T(distribution(engine));
  vc_assert(noise() == third, "value after an input");
  vc_assert(copy() == third, "copies go on alike");
}

VC_PROOF(poisson_long) { poisson<long, long>(); }
VC_PROOF(poisson_int) { poisson<int, int>(); }
VC_PROOF(poisson_double) { poisson<double, long>(); }

// Stable Poisson noise: the i-th applied noise does not depend on the previous inputs
template <typename T, typename TInt>
VC_INLINE void stable() {
  const T mean = anyNumber<T>("mean", 1, 20);
  const T a = anyNumber<T>("a", 0, 20);
  const T b = anyNumber<T>("b", 0, 20);
  const T in = anyNumber<T>("in", 0, 20);
  vc_assume(mean > 0 && a >= 0 && b >= 0 && in >= 0);
  const auto seed = anySeed();
  StablePoissonNoise<T> x(mean, seed);
  StablePoissonNoise<T> y(mean, seed);
  PoissonNoise<T> z(mean, seed);
  vc_assert(x() == z(), "generated like a Poisson noise");
  std::minstd_rand seeder(seed);
  PoissonNoise<T> first(a, seeder());
  vc_assert(x(a) == first(), "Poisson of mean the input");
  y(b);
  PoissonNoise<T> second(in, seeder());
  const T v = x(in);
  vc_assert(v == y(in), "the noise does not depend on the previous inputs");
  vc_assert(v == second(), "Poisson of mean the second input");
  vc_assert(x() == z(), "inputs do not change the generated values");
}

VC_PROOF(stable_long) { stable<long, long>(); }
VC_PROOF(stable_double) { stable<double, long>(); }

// The default seed of the stable noise is fixed
VC_PROOF(stable_default) {
  const long mean = vc_long("mean", 1, 20);
  const long in = vc_long("in", 1, 20);
  vc_assume(mean > 0 && in > 0 && mean < VC_MAX && in < VC_MAX);
  StablePoissonNoise<long> x(mean);
  StablePoissonNoise<long> y(mean);
  vc_assert(x() == y() && x(in) == y(in), "reproducible by default");
}

// Impulse noise: each value with its probability, the input otherwise; probabilities are normalized if they exceed 1
VC_INLINE double probability(const char* name) {
  const double p = vc_double(name, 0, 1);
  vc_assume(p >= 0.001 && p <= 1);
  return p;
}

VC_PROOF(impulse_1) {
  const long value = anyNumber<long>("value", -3, 3);
  const double p = probability("probability");
  const auto seed = anySeed();
  ImpulseNoise<long> noise(value, p, seed);
  std::mt19937 engine(seed);
  const long in = anyNumber<long>("in", -3, 3);
  for (long k = 0; k < 2; ++k) {
    const double u = std::generate_canonical<double, 53>(engine);
    const long v = noise(in);
    if (p < 0.999) {
      vc_assert(v == (u <= p ? value : in) || u == p, "the value with its probability");
    }
    vc_assert(v == value || v == in, "the value or the input");
  }
}

// The law is the one of the standard for the probabilities, and the index of the null hypothesis is the last one
template <typename TNoise>
VC_INLINE void impulse(TNoise& noise, std::size_t seed, long x, double px, long y, double py) {
  const double rest = 1 - px - py;
  vc_assume(rest > 0.001 || rest < -0.001);
  const long lower = x < y ? x : y;
  const long upper = x < y ? y : x;
  const double pl = x < y ? px : py;
  const double pu = x < y ? py : px;
  const double sum = rest > 0 ? 1 : px + py;
  std::mt19937 engine(seed);
  const long in = anyNumber<long>("in", -3, 3);
  for (long k = 0; k < 2; ++k) {
    const double u = std::generate_canonical<double, 53>(engine);
    const double margin = 1e-9;
    const long v = noise(in);
    vc_assert(!(u < pl / sum - margin) || v == lower, "the lower value with its probability");
    vc_assert(!(u > pl / sum + margin && u < (pl + pu) / sum - margin) || v == upper, "the upper value with its probability");
    vc_assert(!(rest > 0 && u > pl + pu + margin) || v == in, "else the input");
    vc_assert(v == lower || v == upper || v == in, "one of the values or the input");
  }
}

VC_PROOF(impulse_2) {
  const long x = anyNumber<long>("x", -3, 3);
  const long y = anyNumber<long>("y", -3, 3);
  vc_assume(x != y);
  const double px = probability("px");
  const double py = probability("py");
  const auto seed = anySeed();
  ImpulseNoise<long> noise(std::map<long, double> {{x, px}, {y, py}}, seed);
  impulse(noise, seed, x, px, y, py);
}

VC_PROOF(salt_and_pepper) {
  const long x = anyNumber<long>("x", -3, 3);
  const long y = anyNumber<long>("y", -3, 3);
  vc_assume(x != y);
  const double px = probability("px");
  const double py = probability("py");
  const auto seed = anySeed();
  auto noise = ImpulseNoise<long>::saltAndPepper(px, py, x, y, seed);
  impulse(noise, seed, x, px, y, py);
}

VC_PROOF(salt_and_pepper_default) {
  const double px = probability("px");
  const double py = probability("py");
  const auto seed = anySeed();
  auto noise = ImpulseNoise<int>::saltAndPepper(px, py, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), seed);
  auto other = ImpulseNoise<int>::saltAndPepper(px, py, Limits<int>::max(), Limits<int>::min(), seed);
  const int v = noise();
  vc_assert(v == other(), "same seed, same value");
  vc_assert(v == std::numeric_limits<int>::max() || v == std::numeric_limits<int>::min() || v == 0, "salt, pepper or the default input");
}

#ifndef VC_SYMBOLIC

// Longer sequences, in containers
template <typename T, typename TNoise, typename TDraw>
void container(TNoise noise, TDraw draw, bool add) {
  const long n = vc_long("n", 0, 40);
  Raster<T, 1> in({n});
  for (long i = 0; i < n; ++i) {
    in[i] = T(i);
  }
  auto generated = in;
  TNoise copy(noise);
  generated.generate(copy);
  for (long i = 0; i < n; ++i) {
    vc_assert(generated[i] == draw(), "generated values in order");
  }
  if (add) {
    auto applied = in;
    applied.apply(copy);
    for (long i = 0; i < n; ++i) {
      vc_assert(applied[i] == in[i] + draw(), "added values in order");
    }
  }
}

VC_BOUNDED(container_gaussian) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::normal_distribution<double> d(3, 2);
  container<double>(GaussianNoise<double>(3, 2, seed), [&]() { return d(engine); }, true);
}

VC_BOUNDED(container_gaussian_float) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::normal_distribution<float> d(-3, .5);
  container<float>(GaussianNoise<float>(-3, .5, seed), [&]() { return d(engine); }, true);
}

VC_BOUNDED(container_gaussian_int) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::normal_distribution<double> d(10, 4);
  container<int>(GaussianNoise<int>(10, 4, seed), [&]() { return int(d(engine)); }, true);
}

VC_BOUNDED(container_uniform) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::uniform_int_distribution<int> d(-7, 12);
  container<int>(UniformNoise<int>(-7, 12, seed), [&]() { return d(engine); }, true);
}

VC_BOUNDED(container_uniform_float) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::uniform_real_distribution<float> d(-7, 12);
  container<float>(UniformNoise<float>(-7, 12, seed), [&]() { return d(engine); }, true);
}

VC_BOUNDED(container_poisson) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::poisson_distribution<long> d(30);
  container<long>(PoissonNoise<long>(30, seed), [&]() { return d(engine); }, false);
}

// Defaults
VC_BOUNDED(defaults) {
  const auto seed = anySeed();
  UniformNoise<double> u;
  GaussianNoise<double> g(Limits<double>::zero(), Limits<double>::one(), seed);
  std::mt19937 engine(seed);
  std::normal_distribution<double> d(0, 1);
  for (int i = 0; i < 10; ++i) {
    const double v = u();
    vc_assert(v >= Limits<double>::halfMin() && v <= Limits<double>::halfMax(), "default range");
    vc_assert(g() == d(engine), "standard normal");
  }
}

// Frequencies of impulses, with any number of values
VC_BOUNDED(impulse_frequencies) {
  const auto seed = anySeed();
  const long count = vc_long("count", 1, 5);
  std::map<int, double> vp;
  double sum = 0;
  for (long i = 0; i < count; ++i) {
    const double p = vc_long("p", 1, 9) * .1;
    vp[int(10 * (i + 1))] = p;
    sum += p;
  }
  ImpulseNoise<int> noise(vp, seed);
  ImpulseNoise<int> same(vp, seed);
  std::map<int, long> hits;
  const long n = 4000;
  for (long i = 0; i < n; ++i) {
    const int v = noise(-1);
    vc_assert(v == same(-1), "same seed, same sequence");
    ++hits[v];
  }
  for (const auto& x : vp) {
    const double expected = x.second / (sum > 1 ? sum : 1);
    // 6 standard deviations
    vc_assert(std::abs(hits[x.first] - n * expected) <= 6 * std::sqrt(n * expected * (1 - expected)) + 1, "frequency of a value");
    hits.erase(x.first);
  }
  const double expected = sum > 1 ? 0 : 1 - sum;
  vc_assert(std::abs(hits[-1] - n * expected) <= 6 * std::sqrt(n * expected * (1 - std::min(expected, 1.))) + 1, "frequency of the input");
  hits.erase(-1);
  vc_assert(hits.empty(), "no other value");
}

// Any sequence of values with and without inputs, among several generators
template <typename T, typename TNoise, typename TDraw, typename TApply>
void sequence(TNoise noise, TDraw&& draw, TApply&& apply) {
  TNoise other(noise);
  std::vector<T> out, in;
  const long n = vc_long("count", 1, 40);
  for (long i = 0; i < n; ++i) {
    const bool with = vc_bool("with input");
    in.push_back(with ? T(vc_long("in", 0, 1) * vc_long("in", 0, 200)) : T(-1));
    out.push_back(with ? noise(in[i]) : noise());
    vc_assert(out[i] == (with ? apply(in[i]) : draw()), "value");
  }
  for (long i = 0; i < n; ++i) {
    vc_assert(out[i] == (in[i] != T(-1) ? other(in[i]) : other()), "copies go on alike");
  }
}

VC_BOUNDED(sequence_gaussian) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::normal_distribution<double> d(3, 2);
  const auto draw = [&]() { return d(engine); };
  sequence<double>(GaussianNoise<double>(3, 2, seed), draw, [&](double in) { return in + draw(); });
}

VC_BOUNDED(sequence_uniform) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::uniform_int_distribution<long> d(-5, 20);
  const auto draw = [&]() { return d(engine); };
  sequence<long>(UniformNoise<long>(-5, 20, seed), draw, [&](long in) { return in + draw(); });
}

VC_BOUNDED(sequence_poisson) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::poisson_distribution<long> d(15);
  sequence<long>(PoissonNoise<long>(15, seed), [&]() { return d(engine); }, [&](long in) {
    std::poisson_distribution<long> shot(in);
    return shot(engine);
  });
}

VC_BOUNDED(sequence_stable) {
  const auto seed = anySeed();
  std::mt19937 engine(seed);
  std::minstd_rand seeder(seed);
  std::poisson_distribution<long> d(15);
  sequence<long>(StablePoissonNoise<long>(15, seed), [&]() { return d(engine); }, [&](long in) {
    std::mt19937 shots(seeder());
    std::poisson_distribution<long> shot(in);
    return shot(shots);
  });
}

#endif
