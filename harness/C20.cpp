// Contracts of lazy pipelines: each step is evaluated at most once, after its own prerequisites, and only on request.
//
// The number of evaluated steps is finite: each proof starts from any state reachable by requests (a set of steps closed
// by prerequisites), and checks one more request of each step, such that any sequence of requests follows by induction.
#include "common.h"

#include "LitlRun/StepperPipeline.h"

#include <tuple>
#include <vector>

#ifdef VC_SYMBOLIC
// Assumed contract of libstdc++: the node is inserted at its place in the tree. Balancing is dropped.
namespace std {
void _Rb_tree_insert_and_rebalance(
    const bool left,
    _Rb_tree_node_base* x,
    _Rb_tree_node_base* p,
    _Rb_tree_node_base& header) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = p == &header ? _S_black : _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) {
      header._M_right = x;
    }
  }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) {
      x = x->_M_left;
    }
    return x;
  }
  auto y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right == y ? x : y;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) { // Header
    return x->_M_right;
  }
  if (x->_M_left) {
    auto y = x->_M_left;
    while (y->_M_right) {
      y = y->_M_right;
    }
    return y;
  }
  auto y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
} // namespace std
#endif

using namespace Litl;

// A: no prerequisite; B, C: A; D: B, C; E: no prerequisite; F: D, A, E; G: F
struct A : PipelineStep<void, int> {};
struct B : PipelineStep<A, long> {};
struct C : PipelineStep<A, double> {};
struct D : PipelineStep<std::tuple<B, C>, const int&> {};
struct E : PipelineStep<void, void> {};
struct F : PipelineStep<std::tuple<D, A, E>, int> {};
struct G : PipelineStep<F, int> {};

template <typename S>
struct Rank;
template <>
struct Rank<A> {
  static constexpr int value = 0;
  static constexpr int prerequisites = 0;
};
template <>
struct Rank<B> {
  static constexpr int value = 1;
  static constexpr int prerequisites = 1;
};
template <>
struct Rank<C> {
  static constexpr int value = 2;
  static constexpr int prerequisites = 1;
};
template <>
struct Rank<D> {
  static constexpr int value = 3;
  static constexpr int prerequisites = 2 + 4;
};
template <>
struct Rank<E> {
  static constexpr int value = 4;
  static constexpr int prerequisites = 0;
};
template <>
struct Rank<F> {
  static constexpr int value = 5;
  static constexpr int prerequisites = 8 + 1 + 16;
};
template <>
struct Rank<G> {
  static constexpr int value = 6;
  static constexpr int prerequisites = 32;
};

// Direct and indirect prerequisites
inline int closure(int s) {
  return s == 0 || s == 4 ? 0 : s == 1 || s == 2 ? 1 : s == 3 ? 7 : s == 5 ? 31 : 63;
}

struct NotReady {};

struct Log {
  int evaluated = 0;
  int counts[7] = {};
  int gets[7] = {};
  bool ordered = true;
  bool fresh = true; // Steps are not recorded before the end of their evaluation
  int failing = -1; // Step which is not ready yet
  int result = 42;
};

class Pipeline : public StepperPipeline<Pipeline> {
public:
  explicit Pipeline(Log& log) : m_log(log) {}

protected:
  template <typename S>
  void doEvaluate() {
    m_log.ordered = m_log.ordered && (m_log.evaluated & Rank<S>::prerequisites) == Rank<S>::prerequisites;
    m_log.fresh = m_log.fresh && not evaluated<S>() && milliseconds<S>() == -1;
#ifndef VC_SYMBOLIC
    if (m_log.failing == Rank<S>::value) {
      throw NotReady();
    }
#endif
    m_log.evaluated |= 1 << Rank<S>::value;
    ++m_log.counts[Rank<S>::value];
  }
  template <typename S>
  typename S::Return doGet();

private:
  Log& m_log;
};

#define VC_GET(S, out) \
  template <> \
  inline S::Return Pipeline::doGet<S>() { \
    m_log.ordered = m_log.ordered && (m_log.evaluated & (1 << Rank<S>::value)); \
    ++m_log.gets[Rank<S>::value]; \
    out; \
  }

VC_GET(A, return 10)
VC_GET(B, return 20)
VC_GET(C, return 30.5)
VC_GET(D, return m_log.result)
VC_GET(E, return)
VC_GET(F, return 50)
VC_GET(G, return 60)

VC_INLINE bool allEvaluated(const Pipeline& p, int set) {
  return p.evaluated<A>() == bool(set & 1) && p.evaluated<B>() == bool(set & 2) && p.evaluated<C>() == bool(set & 4) &&
      p.evaluated<D>() == bool(set & 8) && p.evaluated<E>() == bool(set & 16) && p.evaluated<F>() == bool(set & 32) &&
      p.evaluated<G>() == bool(set & 64);
}

template <typename S>
VC_INLINE bool duration(const Pipeline& p, int set) {
  return (set & (1 << Rank<S>::value)) ? p.milliseconds<S>() >= 0 : p.milliseconds<S>() == -1;
}

VC_INLINE void checkState(const Pipeline& p, const Log& log, int set) {
  vc_assert(log.evaluated == set, "the requested steps and their prerequisites are evaluated, and no other one");
  vc_assert(log.fresh, "durations are not available before the end of the evaluation");
  vc_assert(log.ordered, "prerequisites are evaluated first");
  for (int i = 0; i < 7; ++i) {
    vc_assert(log.counts[i] == ((set >> i) & 1), "each step is evaluated at most once");
  }
  vc_assert(allEvaluated(p, set), "evaluated steps are recorded");
  vc_assert(duration<A>(p, set) && duration<B>(p, set) && duration<C>(p, set) && duration<D>(p, set), "durations");
  vc_assert(duration<E>(p, set) && duration<F>(p, set) && duration<G>(p, set), "durations");
  const double sum = (set & 1 ? p.milliseconds<A>() : 0) + (set & 2 ? p.milliseconds<B>() : 0) +
      (set & 4 ? p.milliseconds<C>() : 0) + (set & 8 ? p.milliseconds<D>() : 0) + (set & 16 ? p.milliseconds<E>() : 0) +
      (set & 32 ? p.milliseconds<F>() : 0) + (set & 64 ? p.milliseconds<G>() : 0);
  const double error = p.milliseconds() - sum;
  vc_assert(error < 1e-3 && error > -1e-3, "total duration");
}

// Request, and check the returned value
VC_INLINE void get(Pipeline& p, const Log& log, long s) {
  if (s == 0) {
    vc_assert(p.get<A>() == 10, "value of A");
  } else if (s == 1) {
    vc_assert(p.get<B>() == 20, "value of B");
  } else if (s == 2) {
    vc_assert(p.get<C>() == 30.5, "value of C");
  } else if (s == 3) {
    vc_assert(&p.get<D>() == &log.result, "reference to D");
  } else if (s == 4) {
    p.get<E>();
  } else if (s == 5) {
    vc_assert(p.get<F>() == 50, "value of F");
  } else {
    vc_assert(p.get<G>() == 60, "value of G");
  }
}

VC_PROOF(initial) {
  Log log;
  Pipeline p(log);
  checkState(p, log, 0);
}

// Any request from any reachable state
template <long S>
VC_INLINE void request() {
  Log log;
  Pipeline p(log);
  // The reachable sets are generated by at most two requests among B, C, D, F, G, and possibly A and E
  int set = 0;
  const long first = vc_long("first", -1, 6);
  vc_assume(first >= -1 && first < 7);
  for (int s = 0; s < 7; ++s) {
    if (first == s) {
      get(p, log, s);
      set |= closure(s) | (1 << s);
    }
  }
  const long second = vc_long("second", -1, 6);
  vc_assume(second >= -1 && second < 7);
  for (int s = 0; s < 7; ++s) {
    if (second == s) {
      get(p, log, s);
      set |= closure(s) | (1 << s);
    }
  }
  if (vc_bool("E before")) {
    get(p, log, 4);
    set |= 16;
  }
  get(p, log, S);
  set |= closure(S) | (1 << S);
  checkState(p, log, set);
}

VC_PROOF(request_a) { request<0>(); }
VC_PROOF(request_b) { request<1>(); }
VC_PROOF(request_c) { request<2>(); }
VC_PROOF(request_d) { request<3>(); }
VC_PROOF(request_e) { request<4>(); }
VC_PROOF(request_f) { request<5>(); }
VC_PROOF(request_g) { request<6>(); }

// The value is got at each request
VC_PROOF(gets) {
  Log log;
  Pipeline p(log);
  const long step = vc_long("step", 0, 6);
  vc_assume(step >= 0 && step < 7);
  for (int s = 0; s < 7; ++s) {
    if (step == s) {
      get(p, log, s);
      const double before = p.milliseconds();
      const int gets = log.gets[s];
      get(p, log, s);
      get(p, log, s);
      vc_assert(log.gets[s] == gets + 2, "the value is requested each time");
      vc_assert(log.counts[s] == 1, "the step is evaluated once");
      vc_assert(p.milliseconds() == before, "durations are recorded once");
    }
  }
}

#ifndef VC_SYMBOLIC

VC_BOUNDED(sequence) {
  Log log;
  Pipeline p(log);
  int set = 0;
  const long n = vc_long("size", 0, 6);
  for (long i = 0; i < n; ++i) {
    const long s = vc_long("step", 0, 6);
    get(p, log, s);
    set |= closure(s) | (1 << s);
    checkState(p, log, set);
  }
}

// A step which throws is not evaluated, nor are those which require it, until it is requested again
VC_BOUNDED(failures) {
  Log log;
  Pipeline p(log);
  int set = 0;
  const long n = vc_long("size", 1, 3);
  for (long i = 0; i < n; ++i) {
    log.failing = vc_long("failing", -1, 6);
    const long s = vc_long("step", 0, 6);
    const int needed = (closure(s) | (1 << s)) & ~set;
    const bool fails = log.failing >= 0 && (needed & (1 << log.failing));
    bool thrown = false;
    try {
      get(p, log, s);
    } catch (NotReady&) {
      thrown = true;
    }
    vc_assert(thrown == fails, "the exception of the evaluation is thrown");
    if (thrown) {
      // The other prerequisites may have been evaluated
      vc_assert((log.evaluated & set) == set && (log.evaluated & ~(set | needed)) == 0, "no other step is evaluated");
      for (int j = 0; j < 7; ++j) {
        vc_assert(not(log.evaluated & (1 << j)) || (closure(j) & ~log.evaluated) == 0, "prerequisites are evaluated");
      }
      vc_assert(not(log.evaluated & (1 << log.failing)), "the failing step is not evaluated");
      set = log.evaluated;
    } else {
      set |= needed;
    }
    checkState(p, log, set);
  }
}

#endif
