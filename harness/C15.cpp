// Contracts of samplings: the k-th sample is element (front + k * step) * stride, for k from 0 to (back - front) / step.
#include "common.h"

#include "LitlRaster/Sampling.h"

struct Case {
  long front;
  long back;
  long step;
};

VC_INLINE Case anyCase(long flo, long fhi) {
  Case out;
  out.front = vc_long("front", flo, fhi);
  out.back = vc_long("back", flo - 2, fhi + 4);
  out.step = vc_long("step", 1, 3);
  vc_assume(out.front >= -VC_MAX && out.front < VC_MAX && out.back >= -VC_MAX && out.back < VC_MAX);
  vc_assume(out.step >= 1 && out.step < VC_MAX);
  return out;
}

// n is the number of integers k >= 0 such that front + k * step <= back
VC_INLINE bool isCount(const Case& c, long n) {
  return c.back < c.front ? n == 0 :
                            n >= 1 && c.front + (n - 1) * c.step <= c.back && c.front + n * c.step > c.back;
}

VC_PROOF(size) {
  const auto c = anyCase(-3, 3);
  const IndexSampling s {c.front, c.back, c.step};
  const long n = s.size();
  vc_assert(isCount(c, n), "number of samples");
  vc_assert(c.back < c.front || n == (c.back - c.front) / c.step + 1, "formula of the number of samples");
}

VC_PROOF(iteration) {
  const auto c = anyCase(-3, 3);
  const IndexSampling s {c.front, c.back, c.step};
  const long n = s.size();
  long k = 0;
  for (const auto& v : s) {
    vc_invariant(k >= 0 && k < n, "no more than size() samples");
    vc_assert(v == c.front + k * c.step, "k-th sample");
    ++k;
  }
  vc_assert(k == n, "size() samples");
}

VC_PROOF(to_vector) {
  const auto c = anyCase(-2, 2);
  vc_assume(c.back - c.front < VC_MAX);
  const IndexSampling s {c.front, c.back, c.step};
  const auto v = s.vector();
  vc_assert(isCount(c, v.size()), "size");
  const long k = vc_long("k", 0, 6);
  vc_assume(k >= 0 && k < long(v.size()));
  vc_assert(v[k] == c.front + k * c.step, "k-th sample");
}

VC_PROOF(iterator) {
  const auto c = anyCase(-2, 2);
  const IndexSampling s {c.front, c.back, c.step};
  const long n = s.size();
  const long k = vc_long("k", -3, 3);
  const long l = vc_long("l", -3, 3);
  vc_assume(k > -VC_MAX && k < VC_MAX && l > -VC_MAX && l < VC_MAX && k >= 0 && k <= n && k + l >= 0 && k + l <= n);
  auto it = s.begin();
  it += k;
  vc_assert(*it == c.front + k * c.step, "k-th sample");
  vc_assert((it == s.begin()) == (k == 0) && (it != s.begin()) == (k != 0), "comparison with the beginning");
  vc_assert((it == s.end()) == (k == n) && (it != s.end()) == (k != n), "comparison with the end");
  auto jt = it;
  auto& r = (jt += l);
  vc_assert(&r == &jt && *jt == c.front + (k + l) * c.step, "+=");
  vc_assert((jt == it) == (l == 0) && (jt != it) == (l != 0), "comparison");
  vc_assert((jt == s.end()) == (k + l == n), "comparison of a shifted iterator with the end");
  jt -= l;
  vc_assert(jt == it && *jt == *it, "-= undoes +=");
  auto& u = ++jt;
  vc_assert(&u == &jt && *jt == c.front + (k + 1) * c.step && jt != it, "pre-increment");
  auto o = jt++;
  vc_assert(*o == c.front + (k + 1) * c.step && *jt == c.front + (k + 2) * c.step, "post-increment");
  vc_assert((jt == s.end()) == (k + 2 == n), "comparison of an incremented iterator with the end");
}

// Data samples
struct DataCase : Case {
  long n;
  long stride;
  long size;
  long* data;
};

VC_INLINE DataCase anyData() {
  DataCase out;
  static_cast<Case&>(out) = anyCase(0, 2);
  out.n = vc_long("length", 1, 5);
  out.stride = vc_long("stride", 1, 3);
  vc_assume(out.n >= 1 && out.n < VC_MAX && out.stride >= 1 && out.stride < VC_MAX);
  vc_assume(out.front >= 0 && out.back < out.n);
  out.size = (out.n - 1) * out.stride + 1;
  vc_assume(out.size > 0 && out.size < VC_MAX);
  out.data = vc_array_long("data", out.size);
  return out;
}

VC_PROOF(data_properties) {
  const auto c = anyData();
  DataSamples<long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  const auto& k = s;
  vc_assert(long(s.size()) == c.n && s.data() == c.data && k.data() == c.data, "data");
  vc_assert(s.front() == c.front && s.back() == c.back && s.step() == c.step && s.stride() == c.stride, "parameters");
  vc_assert(s.sampling().front == c.front && s.sampling().back == c.back && s.sampling().step == c.step, "sampling");
  vc_assert(isCount(c, s.count()), "number of samples");
}

VC_PROOF(data_default) {
  const auto c = anyData();
  const DataSamples<long> all(c.data, c.n);
  vc_assert(all.front() == 0 && all.back() == c.n - 1 && all.step() == 1 && all.stride() == 1, "default sampling");
  vc_assert(long(all.count()) == c.n && all.begin().operator->() == c.data, "all the elements by default");
  const DataSamples<long> s(c.data, c.n, {c.front, Limits<Index>::inf(), c.step}, c.stride);
  vc_assert(s.back() == c.n - 1, "an infinite back is the last element");
  vc_assert(s.front() >= c.n || long(s.count()) == (c.n - 1 - c.front) / c.step + 1, "up to the last element");
}

VC_PROOF(data_iteration) {
  const auto c = anyData();
  DataSamples<long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  const long n = s.count();
  long k = 0;
  for (auto& v : s) {
    vc_invariant(k >= 0 && k < n, "no more than count() samples");
    vc_assert(&v == c.data + (c.front + k * c.step) * c.stride, "k-th sample");
    ++k;
  }
  vc_assert(k == n, "count() samples");
}

VC_PROOF(data_const_iteration) {
  const auto c = anyData();
  const DataSamples<const long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  const long n = s.count();
  long k = 0;
  for (const auto& v : s) {
    vc_invariant(k >= 0 && k < n, "no more than count() samples");
    vc_assert(&v == c.data + (c.front + k * c.step) * c.stride, "k-th sample");
    ++k;
  }
  vc_assert(k == n, "count() samples");
}

// Only the samples are written, and each of them
VC_PROOF(data_write) {
  const auto c = anyData();
  const long value = vc_long("value", 7, 8);
  const long o = vc_long("offset", 0, 8);
  vc_assume(o >= 0 && o < c.size);
  const long old = c.data[o];
  DataSamples<long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  for (auto& v : s) {
    v = value;
  }
  const long k = vc_long("k", 0, 5);
  vc_assume(k >= 0 && k < long(s.count()));
  vc_assert(c.data[(c.front + k * c.step) * c.stride] == value, "samples are written");
  vc_assert(c.data[o] == old || c.data[o] == value, "written values");
}

// With given strides and steps: the elements between samples are left
template <long Step, long Stride>
VC_INLINE void dataWriteOnly() {
  const long n = vc_long("length", 1, 5);
  const long front = vc_long("front", 0, 2);
  const long back = vc_long("back", 0, 4);
  vc_assume(n >= 1 && n < VC_MAX && front >= 0 && back >= front && back < n);
  const long size = (n - 1) * Stride + 1;
  long* data = vc_array_long("data", size);
  const long value = vc_long("value", 7, 8);
  const long o = vc_long("offset", 0, 8);
  vc_assume(o >= 0 && o < size);
  const long old = data[o];
  DataSamples<long> s(data, n, {front, back, Step}, Stride);
  for (auto& v : s) {
    v = value;
  }
  const bool sampled = o >= front * Stride && (o - front * Stride) % (Step * Stride) == 0 && o <= back * Stride;
  vc_assert(data[o] == (sampled ? value : old), "the samples are written, and nothing else");
}

VC_PROOF(data_write_only_1_1) { dataWriteOnly<1, 1>(); }
VC_PROOF(data_write_only_1_3) { dataWriteOnly<1, 3>(); }
VC_PROOF(data_write_only_2_1) { dataWriteOnly<2, 1>(); }
VC_PROOF(data_write_only_3_2) { dataWriteOnly<3, 2>(); }
VC_PROOF(data_write_only_5_3) { dataWriteOnly<5, 3>(); }

VC_PROOF(data_vector) {
  const auto c = anyData();
  const DataSamples<const long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  const auto v = s.vector();
  vc_assert(isCount(c, v.size()), "size");
  const long k = vc_long("k", 0, 6);
  vc_assume(k >= 0 && k < long(v.size()));
  vc_assert(v[k] == c.data[(c.front + k * c.step) * c.stride], "k-th sample");
}

VC_PROOF(data_iterator) {
  const auto c = anyData();
  DataSamples<long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  const long n = s.count();
  const long k = vc_long("k", 0, 5);
  const long l = vc_long("l", -3, 3);
  vc_assume(k >= 0 && l > -VC_MAX && k + l >= 0 && k < n && k + l < n);
  const auto at = [&](long i) {
    return c.data + (c.front + i * c.step) * c.stride;
  };
  auto it = s.begin();
  it += k;
  vc_assert(&*it == at(k) && it.operator->() == at(k), "k-th sample");
  vc_assert((it == s.begin()) == (k == 0) && (it != s.begin()) == (k != 0), "comparison with the beginning");
  vc_assert(it != s.end() && not(it == s.end()), "comparison with the end");
  auto jt = it;
  auto& r = (jt += l);
  vc_assert(&r == &jt && &*jt == at(k + l), "+=");
  vc_assert((jt == it) == (l == 0) && (jt != it) == (l != 0), "comparison");
  auto& m = (jt -= l);
  vc_assert(&m == &jt && jt == it && &*jt == at(k), "-= undoes +=");
  jt = at(k);
  vc_assert(jt == it, "assignment of a pointer");
  auto o = jt++;
  vc_assert(&*o == at(k), "post-increment returns the former iterator");
  auto pt = it;
  auto& p = ++pt;
  vc_assert(&p == &pt && pt == jt && pt != it, "pre-increment and post-increment");
  vc_assert(k + 1 < n ? &*pt == at(k + 1) : pt == s.end(), "next sample, or the end");
}

VC_PROOF(data_shift) {
  const auto c = anyData();
  const long n = vc_long("shift", -2, 2);
  vc_assume(n > -VC_MAX && n < VC_MAX);
  vc_assume(n >= 0 && n < c.size);
  DataSamples<long> s(c.data, c.n, {c.front, c.back, c.step}, c.stride);
  auto& r = (s += n);
  vc_assert(&r == &s && s.data() == c.data + n, "+=");
  vc_assert(s.front() == c.front && s.back() == c.back && s.step() == c.step && s.stride() == c.stride, "parameters");
  auto& m = (s -= n);
  vc_assert(&m == &s && s.data() == c.data, "-=");
  auto& u = ++s;
  vc_assert(&u == &s && s.data() == c.data + 1, "pre-increment");
  s -= 1;
  auto o = s++;
  vc_assert(o.data() == c.data && s.data() == c.data + 1, "post-increment");
}

// Samplings of positions
template <Index N>
VC_INLINE void positions(Index dim) {
  const auto front = anyPosition<N>("front", dim, 0, 1);
  const auto back = anyPosition<N>("back", dim, 0, 4);
  const auto step = anyPosition<N>("step", dim, 1, 2);
  for (Index i = 0; i < dim; ++i) {
    vc_assume(front[i] > -VC_MAX && front[i] < VC_MAX && back[i] > -VC_MAX && back[i] < VC_MAX);
    vc_assume(step[i] >= 1 && step[i] < VC_MAX);
  }
  const PositionSampling<N> s(Box<N>(front, back), step);
  const auto shape = s.shape();
  vc_assert(long(shape.size()) == dim, "dimension");
  for (Index i = 0; i < dim; ++i) {
    const auto& a = s.along(i);
    vc_assert(a.front == front[i] && a.back == back[i] && a.step == step[i], "sampling of the axis");
    vc_assert(isCount({front[i], back[i], step[i]}, shape[i]), "number of samples along the axis");
  }
  vc_assert(&s.template along<1>() == &s.along(1), "compile-time axis");
}

VC_PROOF(positions_2) { positions<2>(2); }
VC_PROOF(positions_3) { positions<3>(3); }
VC_PROOF(positions_var3) { positions<-1>(3); }

VC_PROOF(positions_default) {
  const auto front = anyPosition<2>("front", 2, -1, 1);
  const auto back = anyPosition<2>("back", 2, -1, 2);
  const PositionSampling<2> s(Box<2>(front, back));
  vc_assert(s.along(0).step == 1 && s.along(1).step == 1, "step 1 by default");
  vc_assert(s.along(0).front == front[0] && s.along(1).back == back[1], "box");
}
