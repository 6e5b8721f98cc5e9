// Deterministic simulator: one seed -> one plan -> one exactly repeatable run.
//
// A run is a set of simulated clients (fibers) that execute operation lines of a
// plan against the real library.  The simulator owns the scheduler (who runs,
// and where inside a library call it is preempted), the heap (placement,
// contents, exhaustion, leak and overrun accounting) and the user supplied
// containers / iterators handed to the library (which may throw).
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <utility>
#include <iterator>
#include <typeinfo>
#include <exception>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix(mix(a) ^ (b * 0xd6e8feb86659fd93ULL + 0x1234567)); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(mix(seed ^ 0xabcdef)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31); }
  // uniform in [0,n)
  long below(long n) { return n <= 1 ? 0 : (long)(next() % (u64)n); }
  // uniform in [lo,hi]
  long range(long lo, long hi) { return lo + below(hi - lo + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  // log-uniform in [1, 2^maxbits)
  long logu(int maxbits) { int b = (int)below(maxbits); return (1L << b) + below(1L << b); }
};

enum FaultKind { F_NONE = 0, F_ALLOC1 = 1, F_ALLOCP = 2, F_OUT = 3, F_IN = 4, F_KINDS = 5 };
const char* fault_name(int k);

struct OpLine {
  int client;
  std::string name;
  std::vector<long> a;
  int fkind; long fk;
  std::vector<long> preempt;   // library steps, relative to op start, at which the client is suspended
  OpLine() : client(0), fkind(F_NONE), fk(0) {}
  long arg(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Plan {
  std::string world, mode;
  u64 seed;
  std::map<std::string, long> cfg;
  std::vector<OpLine> ops;
  long get(const std::string& k, long d) const {
    std::map<std::string, long>::const_iterator i = cfg.find(k); return i == cfg.end() ? d : i->second; }
  std::string text() const;
  bool parse(const std::string& text);
};

// thrown by simulated output containers / input iterators
struct InjectedFault { int kind; };

// Outcome of one armed library scope
enum Outcome { OK = 0, FAILED = 1 };

// ---- called by worlds, from the running client ----
[[noreturn]] void violation(const std::string& cls, const std::string& msg);
void lib_enter(bool armed);
void lib_leave();
bool fault_should_throw(int kind);    // for containers/iterators: counts and answers
void observe(u64 v);                  // mixes into the current client's and the run's hash
void probe(const char* name, long n = 1);   // reach counters
int current_client();
void shared_phase(bool on);                 // allocations go to the arena of shared objects
void protect_shared(bool on);               // make that arena read-only
const OpLine& current_op();

// Runs f as library code.  armed: the op's fault may fire in it.  bad_alloc and
// InjectedFault are the legitimate failures and yield FAILED, but only if the
// simulator really injected one; any other exception is a violation.
Outcome classify_exception(const char* what);
bool fault_fired();

struct LibScope { LibScope(bool armed) { lib_enter(armed); } ~LibScope() { lib_leave(); } };

template <typename F> Outcome lib_impl(bool armed, F f) {
  try { LibScope s(armed); f(); return OK; }
  catch (const std::bad_alloc&) { return classify_exception("std::bad_alloc"); }
  catch (const InjectedFault&) { return classify_exception("InjectedFault"); }
  catch (const std::exception& e) { return classify_exception(typeid(e).name()); }
  catch (...) { return classify_exception("unknown"); }
}
template <typename F> Outcome armed(F f) { return lib_impl(true, f); }
// unarmed library call: must not fail
template <typename F> void lib(F f) {
  if (lib_impl(false, f) != OK) violation("unexpected-exception", "library call failed without an injected fault");
}

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- a user supplied output container whose insertions may fail ----
template <typename T> struct OutBox {
  typedef T value_type;
  typedef typename std::vector<T>::iterator iterator;
  typedef typename std::vector<T>::const_iterator const_iterator;
  typedef typename std::vector<T>::reference reference;
  typedef typename std::vector<T>::size_type size_type;
  std::vector<T> v;
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  bool empty() const { return v.empty(); }
  size_type size() const { return v.size(); }
  T& back() { return v.back(); }
  T& operator[](size_t i) { return v[i]; }
  void clear() { v.clear(); }
  void reserve(size_type n) { v.reserve(n); }
  void push_back(const T& t) { if (fault_should_throw(F_OUT)) throw InjectedFault{F_OUT}; v.push_back(t); }
  iterator insert(iterator p, const T& t) { if (fault_should_throw(F_OUT)) throw InjectedFault{F_OUT}; return v.insert(p, t); }
  template <typename I> void insert(iterator p, I b, I e) {
    if (b != e && fault_should_throw(F_OUT)) throw InjectedFault{F_OUT}; v.insert(p, b, e); }
};

// ---- a user supplied input iterator that may fail while being read ----
template <typename I> struct InIter {
  typedef typename std::iterator_traits<I>::value_type value_type;
  typedef typename std::iterator_traits<I>::reference reference;
  typedef typename std::iterator_traits<I>::pointer pointer;
  typedef typename std::iterator_traits<I>::difference_type difference_type;
  typedef std::forward_iterator_tag iterator_category;
  I i;
  InIter() : i() {}
  explicit InIter(I x) : i(x) {}
  reference operator*() const { if (fault_should_throw(F_IN)) throw InjectedFault{F_IN}; return *i; }
  pointer operator->() const { return &**this; }
  InIter& operator++() { ++i; return *this; }
  InIter operator++(int) { InIter t(*this); ++i; return t; }
  bool operator==(const InIter& o) const { return i == o.i; }
  bool operator!=(const InIter& o) const { return i != o.i; }
};
template <typename I> InIter<I> in_iter(I i) { return InIter<I>(i); }

struct World {
  virtual ~World() {}
  virtual void setup(const Plan& p) = 0;             // before clients start (unscheduled)
  virtual void exec(const OpLine& op) = 0;           // on a client fiber
  virtual void finish() = 0;                         // all clients done: check every object
  virtual void teardown() = 0;                       // destroy all library objects
};
} // namespace sim

// supplied by the world
sim::World* make_world();
void generate_plan(sim::Rng& rng, sim::Plan& plan);  // plan.mode, plan.seed already set
const char* world_name();
#endif
