// Contracts of aligned buffers. The verifier tracks the allocations: any invalid or double release and any use after
// release fails an obligation, and vc_live_allocs() counts the allocations which are not released yet.
#include "common.h"

#include "LitlContainer/AlignedBuffer.h"

VC_INLINE long anySize(const char* name = "size") {
  const long n = vc_long(name, 0, 5);
  vc_assume(n >= 0 && n < VC_MAX);
  return n;
}

// Any power of two
VC_INLINE long anyAlignment(const char* name) {
#ifdef VC_SYMBOLIC
  const long as = vc_long(name, 8, 4096);
  vc_assume(as >= 8 && as < VC_MAX);
  vc_pow2(as);
  return as;
#else
  const long log = vc_long(name, 3, 11);
  vc_assume(log >= 3 && (log < 5 || log == 7 || log == 11));
  return 1l << log;
#endif
}

template <typename T>
VC_INLINE bool aligned(const T* p, unsigned long as) {
  return reinterpret_cast<unsigned long>(p) % as == 0;
}

template <typename T>
VC_INLINE void allocates(unsigned long align, unsigned long expected) {
  const long live = vc_live_allocs();
  const long n = anySize();
  {
    AlignedBuffer<T> b(n, nullptr, align);
    vc_assert(long(b.size()) == n, "size");
    vc_assert(b.owns() && b.data() != nullptr, "allocated memory is owned");
    vc_assert(aligned(b.data(), expected), "aligned as requested");
    vc_assert(b.alignmentReq() == expected, "requirement");
    vc_assert(vc_live_allocs() == live + 1, "one allocation");
    const long i = vc_long("i", 0, 4);
    if (i >= 0 && i < n) {
      const_cast<T*>(b.data())[i] = T(7);
      vc_assert(b.data()[i] == T(7), "each element is in the allocation");
    }
  }
  vc_assert(vc_live_allocs() == live, "released");
}

VC_PROOF(allocates_default) { allocates<int>(0, 64); }
VC_PROOF(allocates_simd) { allocates<double>(-1ul, 64); }
VC_PROOF(allocates_1) { allocates<char>(1, 1); }
VC_PROOF(allocates_4) { allocates<int>(4, 4); }
VC_PROOF(allocates_8) { allocates<long>(8, 8); }
VC_PROOF(allocates_16) { allocates<int>(16, 16); }
VC_PROOF(allocates_32) { allocates<double>(32, 32); }
VC_PROOF(allocates_256) { allocates<int>(256, 256); }
VC_PROOF(allocates_4096) { allocates<int>(4096, 4096); }

VC_PROOF(allocates_any) {
  const long as = anyAlignment("alignment");
  const long n = anySize();
  AlignedBuffer<int> b(n, nullptr, as);
  vc_assert(aligned(b.data(), as) && b.owns() && long(b.alignmentReq()) == as, "aligned as requested");
  const long i = vc_long("i", 0, 4);
  vc_assume(i >= 0 && i < n);
  const_cast<int*>(b.data())[i] = 7;
  vc_assert(b.data()[i] == 7, "each element is in the allocation");
}

// Existing memory
VC_PROOF(shares) {
  const long n = anySize();
  long* d = vc_array_long("data", n + 1);
  const long live = vc_live_allocs();
  {
    AlignedBuffer<long> b(n, d, 0);
    vc_assert(b.data() == d && !b.owns() && long(b.size()) == n, "the given memory is shared");
    AlignedBuffer<long> c(b);
    vc_assert(c.data() == d && !c.owns() && long(c.size()) == n, "copies share");
    AlignedBuffer<long> m(std::move(b));
    vc_assert(m.data() == d && !m.owns() && long(m.size()) == n, "moved buffers share");
    vc_assert(vc_live_allocs() == live, "no allocation");
  }
  vc_assert(vc_live_allocs() == live, "no release");
  d[0] = 3;
  vc_assert(d[0] == 3, "shared memory is never released");
}

VC_INLINE void requirement(unsigned long align, unsigned long expected) {
  const long n = anySize();
  int* d = vc_array_int("data", n + 100);
  const long shift = vc_long("shift", 0, 40);
  vc_assume(shift >= 0 && shift < 100);
  int* p = d + shift;
  const bool ok = aligned(p, expected);
  VC_THROWS_IFF(AlignmentError, !ok, "misaligned memory is refused, aligned memory is accepted", {
    AlignedBuffer<int> b(n, p, align);
    vc_assert(b.data() == p && !b.owns() && long(b.size()) == n, "the given memory is shared");
    vc_assert(aligned(b.data(), expected), "aligned as requested");
  });
}

VC_PROOF(requirement_4) { requirement(4, 4); }
VC_PROOF(requirement_8) { requirement(8, 8); }
VC_PROOF(requirement_16) { requirement(16, 16); }
VC_PROOF(requirement_64) { requirement(64, 64); }
VC_PROOF(requirement_simd) { requirement(-1ul, 64); }
VC_PROOF(requirement_128) { requirement(128, 128); }

VC_PROOF(is_aligned) {
  long* d = vc_array_long("data", 8);
  const long as = vc_long("alignment", 1, 64);
  vc_assume(as >= 1 && as < VC_MAX);
  vc_assert(isAligned(d + 1, as) == aligned(d + 1, as), "alignment test");
  VC_THROWS_IFF(NullPtrError, true, "null pointer", { isAligned(static_cast<const int*>(nullptr), as); });
}

// Copies of owners
template <typename T>
VC_INLINE void fill(AlignedBuffer<T>& b, const T* d, long n) {
  std::copy_n(d, n, const_cast<T*>(b.data()));
}

VC_PROOF(copy_owner) {
  const long live = vc_live_allocs();
  const long as = anyAlignment("alignment");
  const long n = anySize();
  int* d = vc_array_int("data", n);
  const long i = vc_long("i", 0, 4);
  {
    AlignedBuffer<int> b(n, nullptr, as);
    fill(b, d, n);
    AlignedBuffer<int> c(b);
    vc_assert(c.owns() && b.owns() && c.data() != b.data(), "each has its own memory");
    vc_assert(long(c.size()) == n && c.alignmentReq() == std::size_t(as) && aligned(c.data(), as), "size and alignment");
    if (i >= 0 && i < n) {
      vc_assert(c.data()[i] == d[i] && b.data()[i] == d[i], "copied values");
      const_cast<int*>(c.data())[i] = d[i] + 1;
      vc_assert(b.data()[i] == d[i], "independent");
    }
  }
  vc_assert(vc_live_allocs() == live, "released exactly once");
}

VC_PROOF(move_owner) {
  const long live = vc_live_allocs();
  const long as = anyAlignment("alignment");
  const long n = anySize();
  int* d = vc_array_int("data", n);
  const long i = vc_long("i", 0, 4);
  {
    AlignedBuffer<int> b(n, nullptr, as);
    fill(b, d, n);
    const int* p = b.data();
    AlignedBuffer<int> c(std::move(b));
    vc_assert(c.owns() && !b.owns() && c.data() == p, "the memory and its ownership are moved");
    vc_assert(long(c.size()) == n && c.alignmentReq() == std::size_t(as), "size and alignment are moved");
    vc_assert(vc_live_allocs() == live + 1, "no copy");
    if (i >= 0 && i < n) {
      vc_assert(c.data()[i] == d[i], "moved values");
    }
  }
  vc_assert(vc_live_allocs() == live, "released exactly once");
}

// Assignments: the source and the destination own or share
struct Operand {
  bool owns;
  long size;
  int* data;
};

VC_INLINE Operand anyOperand(const char* owns, const char* size, const char* data) {
  Operand out;
  out.owns = vc_bool(owns);
  out.size = anySize(size);
  out.data = vc_array_int(data, out.size);
  return out;
}

VC_INLINE AlignedBuffer<int>* make(const Operand& o, unsigned long align) {
  if (o.owns) {
    auto out = new AlignedBuffer<int>(o.size, nullptr, align);
    fill(*out, o.data, o.size);
    return out;
  }
  return new AlignedBuffer<int>(o.size, o.data, 0);
}

VC_PROOF(copy_assignment) {
  const long live = vc_live_allocs();
  const long as = anyAlignment("alignment");
  const auto from = anyOperand("from owns", "from size", "from");
  const auto to = anyOperand("to owns", "to size", "to");
  auto a = make(from, as);
  auto b = make(to, 128);
  *b = *a;
  vc_assert(b->owns() == from.owns && a->owns() == from.owns, "ownership is that of the source");
  vc_assert(long(b->size()) == from.size && long(a->size()) == from.size, "size is that of the source");
  vc_assert(b->alignmentReq() == a->alignmentReq(), "alignment requirement is that of the source");
  if (from.owns) {
    vc_assert(b->data() != a->data() && aligned(b->data(), as), "independent aligned memory");
  } else {
    vc_assert(b->data() == from.data && a->data() == from.data, "the same memory is shared");
  }
  vc_assert(vc_live_allocs() == live + 2 + (from.owns ? 2 : 0), "the memory of the destination is released");
  const long i = vc_long("i", 0, 4);
  if (i >= 0 && i < from.size) {
    vc_assert(b->data()[i] == from.data[i] && a->data()[i] == from.data[i], "values");
  }
  delete a;
  if (i >= 0 && i < from.size) {
    vc_assert(b->data()[i] == from.data[i], "values survive the source");
  }
  delete b;
  vc_assert(vc_live_allocs() == live, "released exactly once");
  if (i >= 0 && i < to.size) {
    to.data[i] = 1;
    vc_assert(to.data[i] == 1, "shared memory is not released");
  }
}

VC_PROOF(move_assignment) {
  const long live = vc_live_allocs();
  const long as = anyAlignment("alignment");
  const auto from = anyOperand("from owns", "from size", "from");
  const auto to = anyOperand("to owns", "to size", "to");
  auto a = make(from, as);
  auto b = make(to, 128);
  const int* p = a->data();
  *b = std::move(*a);
  vc_assert(b->owns() == from.owns && !a->owns(), "ownership is moved");
  vc_assert(long(b->size()) == from.size && b->data() == p, "size and memory are moved");
  vc_assert(b->alignmentReq() == std::size_t(from.owns ? as : 1), "alignment requirement is moved");
  vc_assert(vc_live_allocs() == live + 2 + (from.owns ? 1 : 0), "the memory of the destination is released");
  const long i = vc_long("i", 0, 4);
  delete a;
  if (i >= 0 && i < from.size) {
    vc_assert(b->data()[i] == from.data[i], "values survive the source");
  }
  delete b;
  vc_assert(vc_live_allocs() == live, "released exactly once");
}

VC_PROOF(self_assignment) {
  const long live = vc_live_allocs();
  const auto o = anyOperand("owns", "size", "data");
  auto a = make(o, 32);
  auto& alias = *a;
  const int* p = a->data();
  *a = alias;
  vc_assert(a->owns() == o.owns && long(a->size()) == o.size && a->data() == p, "copied to itself");
  *a = std::move(alias);
  vc_assert(a->owns() == o.owns && long(a->size()) == o.size && a->data() == p, "moved to itself");
  const long i = vc_long("i", 0, 4);
  if (i >= 0 && i < o.size) {
    vc_assert(a->data()[i] == o.data[i], "values");
  }
  delete a;
  vc_assert(vc_live_allocs() == live, "released exactly once");
}

// Release and reset
VC_PROOF(release) {
  const long live = vc_live_allocs();
  const long n = anySize();
  int* d = vc_array_int("data", n);
  const long i = vc_long("i", 0, 4);
  const int* p;
  void* container;
  {
    AlignedBuffer<int> b(n, nullptr, 32);
    fill(b, d, n);
    p = b.data();
    container = b.release();
    vc_assert(container != nullptr && !b.owns() && b.data() == p && long(b.size()) == n, "released");
  }
  vc_assert(vc_live_allocs() == live + 1, "released memory is not freed by the buffer");
  if (i >= 0 && i < n) {
    vc_assert(p[i] == d[i], "data is still there");
  }
  std::free(container);
  vc_assert(vc_live_allocs() == live, "and freed by the user");
}

VC_PROOF(reset) {
  const long live = vc_live_allocs();
  const auto o = anyOperand("owns", "size", "data");
  auto a = make(o, 32);
  a->reset();
  vc_assert(a->size() == 0 && a->data() == nullptr && !a->owns() && a->alignmentReq() == 1, "reset");
  vc_assert(vc_live_allocs() == live + 1, "owned memory is released");
  a->reset();
  delete a;
  vc_assert(vc_live_allocs() == live, "released exactly once");
  const long i = vc_long("i", 0, 4);
  if (i >= 0 && i < o.size) {
    o.data[i] = 1;
    vc_assert(o.data[i] == 1, "shared memory is not released");
  }
}

VC_PROOF(history) {
  const long live = vc_live_allocs();
  const long n = anySize();
  int* d = vc_array_int("data", n);
  const long i = vc_long("i", 0, 4);
  {
    AlignedBuffer<int> a(n, nullptr, 16);
    fill(a, d, n);
    AlignedBuffer<int> b(std::move(a));
    AlignedBuffer<int> c(b);
    a = c;
    b = std::move(a);
    c = b;
    AlignedBuffer<int> e(std::move(c));
    c = std::move(e);
    vc_assert(b.owns() && c.owns() && !a.owns() && !e.owns(), "ownership follows the moves");
    vc_assert(vc_live_allocs() == live + 2, "two owners");
    if (i >= 0 && i < n) {
      vc_assert(b.data()[i] == d[i] && c.data()[i] == d[i], "values follow the moves");
    }
    vc_assert(long(b.size()) == n && long(c.size()) == n, "sizes follow the moves");
  }
  vc_assert(vc_live_allocs() == live, "released exactly once");
}

// Aligned rasters
VC_PROOF(raster_allocates) {
  const long live = vc_live_allocs();
  {
    const auto s = anyShape<2>("length", 2, 0, 3);
    const long n = product(s, 2);
    vc_assume(n < VC_MAX);
    const AlignedRaster<int, 2> r(s);
    vc_assert(r.owns() && long(r.size()) == n && aligned(r.data(), 64), "SIMD alignment by default");
    const AlignedRaster<int, 2> q(s, nullptr, 256);
    vc_assert(q.owns() && long(q.size()) == n && aligned(q.data(), 256), "aligned as requested");
  }
  vc_assert(vc_live_allocs() == live, "released");
}

#ifndef VC_SYMBOLIC

VC_BOUNDED(own_alignment) {
  const long n = vc_long("n", 1, 4);
  const long log = vc_long("log", 0, 8);
  const AlignedBuffer<int> b(n, nullptr, 1 << log);
  const auto p = std::uintptr_t(b.data());
  vc_assert(p % b.alignment() == 0 && p % (2 * b.alignment()) != 0, "best alignment");
  vc_assert(long(b.alignment()) >= 1 << log, "as required");
}

VC_BOUNDED(best_alignment) {
  alignas(256) static char memory[1024];
  const long i = vc_long("i", 1, 600);
  const char* p = memory + i;
  const auto as = alignment(p);
  vc_assert(aligned(p, as) && (as & (as - 1)) == 0 && !aligned(p, 2 * as), "highest power of two");
}

// Any sequence of operations, against the ownership rules
VC_BOUNDED(sequences) {
  const long live = vc_live_allocs();
  static int shared[4] = {1, 2, 3, 4};
  {
    AlignedBuffer<int>* b[3] = {nullptr, nullptr, nullptr};
    long size[3] = {0, 0, 0};
    bool owns[3] = {false, false, false};
    int first[3] = {0, 0, 0};
    for (int k = 0; k < 3; ++k) {
      owns[k] = vc_bool("owns");
      size[k] = vc_long("size", 1, 3);
      b[k] = owns[k] ? new AlignedBuffer<int>(size[k], nullptr, 16) : new AlignedBuffer<int>(size[k], shared);
      if (owns[k]) {
        for (int j = 0; j < size[k]; ++j) {
          const_cast<int*>(b[k]->data())[j] = 10 * k + j;
        }
      }
      first[k] = owns[k] ? 10 * k : 1;
    }
    const long steps = vc_long("steps", 0, 6);
    for (long s = 0; s < steps; ++s) {
      const long op = vc_long("op", 0, 3);
      const long x = vc_long("x", 0, 2);
      const long y = vc_long("y", 0, 2);
      if (op == 0) { // Copy assignment
        *b[x] = *b[y];
        size[x] = size[y];
        owns[x] = owns[y];
        first[x] = first[y];
      } else if (op == 1) { // Move assignment
        *b[x] = std::move(*b[y]);
        if (x != y) {
          size[x] = size[y];
          owns[x] = owns[y];
          first[x] = first[y];
          size[y] = 0;
          owns[y] = false;
        }
      } else if (op == 2 && size[y]) { // Replace by a copy
        auto c = new AlignedBuffer<int>(*b[y]);
        delete b[x];
        b[x] = c;
        size[x] = size[y];
        owns[x] = owns[y];
        first[x] = first[y];
      } else if (op == 3) { // Replace by a move
        auto c = new AlignedBuffer<int>(std::move(*b[y]));
        const long n = size[y];
        const bool o = owns[y];
        const int f = first[y];
        size[y] = 0;
        owns[y] = false;
        delete b[x];
        b[x] = c;
        size[x] = n;
        owns[x] = o;
        first[x] = f;
        if (x == y) {
          continue;
        }
      }
      long count = 3;
      for (int k = 0; k < 3; ++k) {
        count += owns[k];
        vc_assert(b[k]->owns() == owns[k] && long(b[k]->size()) == size[k], "ownership and size");
        for (int j = 0; j < size[k]; ++j) {
          vc_assert(b[k]->data()[j] == first[k] + j, "content");
          vc_assert(owns[k] || b[k]->data() == shared, "shared memory");
        }
      }
      vc_assert(vc_live_allocs() == live + count, "live allocations");
    }
    for (int k = 0; k < 3; ++k) {
      delete b[k];
    }
  }
  vc_assert(vc_live_allocs() == live, "everything is released");
}
#endif
