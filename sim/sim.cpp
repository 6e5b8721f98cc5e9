#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <csignal>
#include <typeinfo>
#include <sstream>
#include <set>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <cxxabi.h>
#include <sys/personality.h>

namespace sim {

// ------------------------------------------------------------------ shared result page
enum { MAXC = 6, MAXPROBE = 400, EDGEMAX = 1 << 18 };
struct Probe { char name[44]; long n; };
enum { LKF = 10, MAXLEAK = 4096 };
struct Leak { void* fr[LKF]; long n, bytes, idx; };   // blocks left behind by failed operations, by allocation stack
struct Shared {
  // per run
  int status;                // 0 running, 1 ok, 2 violation
  char cls[64];
  char msg[1600];
  u64 hash, sched_hash;
  u64 chash[MAXC];
  int nclients;
  long steps, preempts, ops_done, maxlive;
  long fired[F_KINDS], armed[F_KINDS];
  int cur_client, cur_op;
  int run_leaks; long any_fired;
  // cumulative over the worker's runs
  int nprobes;
  Probe probes[MAXPROBE];
  long cur_idx; int nleaks; Leak leaks[MAXLEAK];
  unsigned char edge[EDGEMAX];
  long edges_total;
};
static Shared* S;
static Shared local_S;

const char* fault_name(int k) {
  static const char* n[] = {"none", "alloc", "allocp", "out", "in"};
  return n[k];
}

void probe(const char* name, long n) {
  for (int i = 0; i < S->nprobes; ++i) if (!strcmp(S->probes[i].name, name)) { S->probes[i].n += n; return; }
  if (S->nprobes >= MAXPROBE) return;
  strncpy(S->probes[S->nprobes].name, name, 43);
  S->probes[S->nprobes].n = n;
  S->nprobes++;
}

std::string fmt(const char* f, ...) {
  char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// ------------------------------------------------------------------ plan text
std::string Plan::text() const {
  std::string o;
  o += "world " + world + "\nmode " + mode + "\n" + fmt("seed %llu\n", (unsigned long long)seed);
  for (std::map<std::string, long>::const_iterator i = cfg.begin(); i != cfg.end(); ++i)
    o += fmt("cfg %s %ld\n", i->first.c_str(), i->second);
  for (size_t i = 0; i < ops.size(); ++i) {
    const OpLine& p = ops[i];
    o += fmt("op %d %s", p.client, p.name.c_str());
    for (size_t k = 0; k < p.a.size(); ++k) o += fmt(" %ld", p.a[k]);
    if (p.fkind) o += fmt(" !%s:%ld", fault_name(p.fkind), p.fk);
    if (!p.preempt.empty()) { o += " @"; for (size_t k = 0; k < p.preempt.size(); ++k) o += fmt(k ? ",%ld" : "%ld", p.preempt[k]); }
    o += "\n";
  }
  return o;
}
bool Plan::parse(const std::string& text) {
  std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string k; l >> k;
    if (k == "world") l >> world;
    else if (k == "mode") l >> mode;
    else if (k == "seed") l >> seed;
    else if (k == "cfg") { std::string n; long v; l >> n >> v; cfg[n] = v; }
    else if (k == "op") {
      OpLine p; l >> p.client >> p.name; std::string t;
      while (l >> t) {
        if (t[0] == '!') {
          size_t c = t.find(':'); std::string n = t.substr(1, c - 1);
          for (int f = 1; f < F_KINDS; ++f) if (n == fault_name(f)) p.fkind = f;
          p.fk = atol(t.c_str() + c + 1);
        } else if (t[0] == '@') {
          std::istringstream q(t.substr(1)); std::string e;
          while (std::getline(q, e, ',')) p.preempt.push_back(atol(e.c_str()));
        } else p.a.push_back(atol(t.c_str()));
      }
      ops.push_back(p);
    } else return false;
  }
  return true;
}

// ------------------------------------------------------------------ clients (fibers)
struct Client {
  ucontext_t ctx;
  char* stack;
  bool started, busy;          // busy: has an operation in progress (suspended)
  const OpLine* op;
  long steps;                  // library steps in this op
  size_t next_pre;
  bool in_lib, lib_armed;
  long fcount;                 // eligible fault points seen in this op
  bool fired;                  // fault fired in this op
  bool quit;
  void* eh_caught; unsigned eh_uncaught;
  u64 hash;
};
static Client C[MAXC];
static int cur = -1;
static ucontext_t main_ctx;
static World* W;
static const size_t STK = 1 << 20;

struct EhGlobals { void* caught; unsigned uncaught; };
static EhGlobals* eh() { return (EhGlobals*)abi::__cxa_get_globals(); }

int current_client() { return cur; }
static OpLine none_op;
const OpLine& current_op() { return cur >= 0 && C[cur].op ? *C[cur].op : none_op; }
bool fault_fired() { return cur >= 0 && C[cur].fired; }

void observe(u64 v) {
  if (cur >= 0) C[cur].hash = mix2(C[cur].hash, v);
  S->hash = mix2(S->hash, v + 77 * (u64)(cur + 1));
}

static void finish_child(int status) { S->status = status; _exit(0); }

void violation(const std::string& cls, const std::string& msg) {
  if (cur >= 0) C[cur].in_lib = false;
  std::string c = cls;
  if (cur >= 0 && C[cur].op) c += ":" + C[cur].op->name;
  strncpy(S->cls, c.c_str(), sizeof S->cls - 1);
  std::string m = msg;
  if (cur >= 0 && C[cur].op) m = fmt("client %d op '%s' (line %d)%s: ", cur, C[cur].op->name.c_str(), S->cur_op,
      C[cur].fired ? " after injected fault" : "") + m;
  strncpy(S->msg, m.c_str(), sizeof S->msg - 1);
  for (char* p = S->msg; *p; ++p) if (*p == '\n') *p = ' ';
  finish_child(2);
}

static void fiber_main() {
  for (;;) {
    Client& c = C[cur];
    if (c.quit) { c.busy = false; swapcontext(&c.ctx, &main_ctx); continue; }
    W->exec(*c.op);
    c.busy = false;
    swapcontext(&c.ctx, &main_ctx);
  }
}

static void switch_to(int i) {
  cur = i;
  Client& c = C[i];
  EhGlobals* g = eh();
  EhGlobals save = *g;
  g->caught = c.eh_caught; g->uncaught = c.eh_uncaught;
  swapcontext(&main_ctx, &c.ctx);
  c.eh_caught = g->caught; c.eh_uncaught = g->uncaught;
  *g = save;
  cur = -1;
}

static const long STEP_LIMIT = 60L * 1000 * 1000;

static inline void step(unsigned id) {
  Client& c = C[cur];
  ++c.steps; ++S->steps;
  if (c.next_pre < c.op->preempt.size() && c.steps >= c.op->preempt[c.next_pre]) {
    ++c.next_pre;
    ++S->preempts;
    S->sched_hash = mix2(S->sched_hash, ((u64)id << 8) ^ (u64)cur ^ ((u64)c.steps << 32));
    bool il = c.in_lib; c.in_lib = false;
    swapcontext(&c.ctx, &main_ctx);
    // resumed (cur is us again)
    C[cur].in_lib = il;
  }
  if (c.steps > STEP_LIMIT) violation("hang", "library call exceeded the step limit");
}

void lib_enter(bool armed) {
  if (cur < 0) return;
  C[cur].in_lib = true; C[cur].lib_armed = armed;
}
void lib_leave() { if (cur < 0) return; C[cur].in_lib = false; C[cur].lib_armed = false; }

bool fault_should_throw(int kind) {
  if (cur < 0) return false;
  Client& c = C[cur];
  if (!c.in_lib) return false;
  step(kind);
  if (!c.lib_armed || c.op->fkind != kind) return false;
  ++c.fcount;
  if (c.fcount == c.op->fk) { c.fired = true; S->any_fired++; S->fired[kind]++; return true; }
  return false;
}

static bool alloc_should_fail() {
  Client& c = C[cur];
  if (!c.lib_armed) return false;
  int k = c.op->fkind;
  if (k != F_ALLOC1 && k != F_ALLOCP) return false;
  ++c.fcount;
  if (c.fcount == c.op->fk || (k == F_ALLOCP && c.fcount > c.op->fk)) {
    c.fired = true; S->any_fired++; S->fired[k]++; return true;
  }
  return false;
}

Outcome classify_exception(const char* what) {
  if (cur >= 0) { C[cur].in_lib = false; C[cur].lib_armed = false; }
  if (cur >= 0 && C[cur].fired) {
    if (!strcmp(what, "std::bad_alloc") || !strcmp(what, "InjectedFault")) return FAILED;
    violation("unexpected-exception", std::string("after an injected fault the library threw ") + what);
  }
  violation("unexpected-exception", std::string("library threw ") + what + " with no fault injected");
}

// ------------------------------------------------------------------ simulated heap
struct Hdr { u64 magic; u64 size; u64 id; u64 cap; Hdr* chain; void* fr[10]; u64 pad; };
static Hdr* all_blocks; static bool want_frames;
static const u64 LIVE = 0x4c49564531323334ULL, FREED = 0x4652454531323334ULL;
static char* const ARENA = (char*)0x510000000000ULL;
static const size_t ARENA_SZ = (size_t)2 << 30;
static char* bump;
static Rng heap_rng(0);
static int fill_mode, reuse_mode;
static long live_blocks, live_bytes;
static u64 alloc_id;
static const int NCLS = 4096;
static std::vector<Hdr*, std::allocator<Hdr*> >* freelist; // harness side

static void fill(unsigned char* p, size_t n, bool fresh) {
  int m = fresh ? fill_mode : 4;
  switch (m) {
    case 0: memset(p, 0xAB, n); break;
    case 1: memset(p, 0x00, n); break;
    case 2: memset(p, 0xFF, n); break;
    case 3: { u64 v = heap_rng.next(); for (size_t i = 0; i < n; ++i) { if ((i & 7) == 0) v = mix(v); p[i] = (unsigned char)(v >> ((i & 7) * 8)); } break; }
    default: memset(p, 0xDD, n); break;
  }
}

static void leave_lib() { if (cur >= 0) C[cur].in_lib = false; }
static void check_poison(Hdr* h) {
  unsigned char* p = (unsigned char*)(h + 1);
  for (size_t i = 0; i < h->cap; ++i)
    if (p[i] != 0xDD) leave_lib(), violation("heap", fmt("write to freed block #%llu (size %llu) at offset %zu",
        (unsigned long long)h->id, (unsigned long long)h->size, i));
}

// A second arena holds the objects that several clients share; after set-up it is
// made read-only, so that any write by a reader is caught at the instant it happens.
static char* const SHARED = (char*)0x530000000000ULL;
static const size_t SHARED_SZ = (size_t)64 << 20;
static char* sbump;
static bool shared_alloc = false, shared_locked = false;
void shared_phase(bool on) { shared_alloc = on; }
void protect_shared(bool on) {
  if (mprotect(SHARED, SHARED_SZ, on ? PROT_READ : PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(77); }
  shared_locked = on;
}
static bool in_shared(const void* p) { return (const char*)p >= SHARED && (const char*)p < SHARED + SHARED_SZ; }

static void capture(Hdr* h, void* fp0) {
  memset(h->fr, 0, sizeof h->fr);
  if (!want_frames) return;
  char* lo = C[cur].stack; char* hi = lo + STK - 16; void** fp = (void**)fp0;
  for (int i = 0; i < LKF && (char*)fp >= lo && (char*)fp < hi; ++i) {
    h->fr[i] = fp[1];
    void** nx = (void**)fp[0]; if (nx <= fp) break; fp = nx;
  }
}
static void* sim_alloc(size_t n, void* fp) {
  step(0x7fffff);
  if (alloc_should_fail()) return 0;
  size_t cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
  size_t cls = cap / 16;
  Hdr* h = 0;
  if (shared_alloc) {
    if (cap > SHARED_SZ || sbump + cap + sizeof(Hdr) + 16 > SHARED + SHARED_SZ) leave_lib(), violation("runaway-alloc", "shared arena exhausted");
    h = (Hdr*)sbump; sbump += sizeof(Hdr) + cap + 16; h->cap = cap; h->chain = all_blocks; all_blocks = h;
  } else if (cls < NCLS && !freelist[cls].empty() && reuse_mode && heap_rng.chance(reuse_mode, 4)) {
    std::vector<Hdr*>& f = freelist[cls];
    size_t i = heap_rng.chance(1, 2) ? f.size() - 1 : (size_t)heap_rng.below((long)f.size());
    h = f[i]; f[i] = f.back(); f.pop_back();
    check_poison(h);
  } else {
    size_t gap = 16 * (size_t)heap_rng.below(6);
    bump += gap;
    if (cap > ARENA_SZ || bump + cap + sizeof(Hdr) + 16 > ARENA + ARENA_SZ)
      leave_lib(), violation("runaway-alloc", fmt("library allocations exhausted the simulated heap (request %zu)", n));
    h = (Hdr*)bump;
    bump += sizeof(Hdr) + cap + 16;
    h->cap = cap; h->chain = all_blocks; all_blocks = h;
  }
  h->magic = LIVE; h->size = n; h->id = ++alloc_id; capture(h, fp);
  fill((unsigned char*)(h + 1), cap, true);
  memset((char*)(h + 1) + n, 0xC5, cap - n + 16);
  ++live_blocks; live_bytes += n;
  if (live_bytes > S->maxlive) S->maxlive = live_bytes;
  return h + 1;
}
static bool in_arena(const void* p) { return ((const char*)p >= ARENA && (const char*)p < ARENA + ARENA_SZ) || in_shared(p); }

static void sim_free(void* p) {
  Hdr* h = (Hdr*)p - 1;
  bool il = cur >= 0 && C[cur].in_lib;
  if (cur >= 0) C[cur].in_lib = false;
  if (h->magic == FREED) violation("heap", fmt("double free of block #%llu", (unsigned long long)h->id));
  if (h->magic != LIVE) violation("heap", "free of an invalid pointer");
  unsigned char* t = (unsigned char*)p + h->size;
  for (size_t i = 0; i < h->cap - h->size + 16; ++i)
    if (t[i] != 0xC5) violation("heap", fmt("overrun of block #%llu (size %llu)", (unsigned long long)h->id, (unsigned long long)h->size));
  h->magic = FREED;
  memset(p, 0xDD, h->cap);
  --live_blocks; live_bytes -= h->size;
  size_t cls = h->cap / 16;
  if (cls < NCLS && !in_shared(h)) freelist[cls].push_back(h);
  if (cur >= 0) C[cur].in_lib = il;
}

static inline bool lib_active() { return cur >= 0 && C[cur].in_lib; }
} // namespace sim

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  static uint32_t n = 0;
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  using namespace sim;
  if (cur < 0 || !C[cur].in_lib) return;
  uint32_t id = *guard;
  if (id < EDGEMAX && !S->edge[id]) S->edge[id] = 1;
  step(id);
}
}

// Function-local statics are initialised once per process, not once per client: keep
// that out of the scheduler, the fault injector and the simulated heap.
static int guard_depth = 0; static bool guard_saved = false;
extern "C" int __cxa_guard_acquire(uint64_t* g) {
  if (*(volatile char*)g) return 0;
  if (guard_depth++ == 0) { guard_saved = sim::cur >= 0 && sim::C[sim::cur].in_lib; if (sim::cur >= 0) sim::C[sim::cur].in_lib = false; }
  return 1;
}
static void guard_leave() { if (--guard_depth == 0 && sim::cur >= 0) sim::C[sim::cur].in_lib = guard_saved; }
extern "C" void __cxa_guard_release(uint64_t* g) { *(volatile char*)g = 1; guard_leave(); }
extern "C" void __cxa_guard_abort(uint64_t*) { guard_leave(); }

static void* raw_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
__attribute__((noinline)) void* operator new(size_t n) {
  if (sim::lib_active()) {
    bool il = true; (void)il;
    sim::C[sim::cur].in_lib = true;
    void* p = 0;
    { p = sim::sim_alloc(n, __builtin_frame_address(0)); }
    if (!p) throw std::bad_alloc();
    return p;
  }
  return raw_new(n);
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  if (sim::lib_active()) return sim::sim_alloc(n, __builtin_frame_address(0));
  return raw_new(n);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
__attribute__((noinline)) void operator delete(void* p) noexcept {
  if (!p) return;
  if (sim::in_arena(p)) sim::sim_free(p); else free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

namespace sim {
// ------------------------------------------------------------------ one run (in a forked child)
static void on_signal(int sig, siginfo_t* si, void*) {
  if (sig == SIGSEGV && shared_locked && si && in_shared(si->si_addr)) {
    std::string c = "shared-write";
    if (cur >= 0 && C[cur].op) c += ":" + C[cur].op->name;
    strncpy(S->cls, c.c_str(), sizeof S->cls - 1);
    snprintf(S->msg, sizeof S->msg, "client %d wrote to a normalised object shared by several readers, plan line %d", cur, S->cur_op);
    S->status = 2; _exit(0);
  }
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" :
                  sig == SIGILL ? "SIGILL" : sig == SIGALRM ? "SIGALRM" : "signal";
  std::string c = sig == SIGALRM ? "timeout" : std::string("crash-") + n;
  if (cur >= 0 && C[cur].op) c += ":" + C[cur].op->name;
  strncpy(S->cls, c.c_str(), sizeof S->cls - 1);
  snprintf(S->msg, sizeof S->msg, "process died with %s in client %d, plan line %d", n, cur, S->cur_op);
  S->status = 2;
  _exit(0);
}

static void run_plan_here(const Plan& p) {
  // cpu limit as backstop for hangs outside instrumented code
  struct rlimit rl = {120, 130}; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGXCPU};
  for (int s : sigs) sigaction(s, &sa, 0);
  alarm(100);

  if (mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA) {
    fprintf(stderr, "sim: cannot map arena\n"); _exit(77);
  }
  if (mmap(SHARED, SHARED_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != SHARED) {
    fprintf(stderr, "sim: cannot map shared arena\n"); _exit(77);
  }
  sbump = SHARED + 4096;
  heap_rng = Rng(mix2((u64)p.get("heap", 1), 11));
  want_frames = false; for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].fkind) want_frames = true;
  fill_mode = (int)p.get("fill", heap_rng.below(4));
  reuse_mode = (int)p.get("reuse", heap_rng.below(4));
  bump = ARENA + 4096 + 16 * heap_rng.below(256);
  freelist = new std::vector<Hdr*>[NCLS];

  char* stacks = (char*)0x520000000000ULL;
  for (int i = 0; i < MAXC; ++i) {
    char* s = (char*)mmap(stacks + i * (STK + 65536), STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (s == MAP_FAILED) { fprintf(stderr, "sim: cannot map stack\n"); _exit(77); }
    C[i] = Client();
    C[i].stack = s;
    // stale stack contents are part of the seeded environment
    { u64 v = heap_rng.next(); u64* q = (u64*)(s + STK - 32768); for (int k = 0; k < 4096; ++k) { v = mix(v); q[k] = (fill_mode & 1) ? v : 0xABABABABABABABABULL; } }
    getcontext(&C[i].ctx);
    C[i].ctx.uc_stack.ss_sp = s; C[i].ctx.uc_stack.ss_size = STK; C[i].ctx.uc_link = &main_ctx;
    makecontext(&C[i].ctx, fiber_main, 0);
  }
  int only = (int)p.get("only", -1);    // isolation re-run: execute this client's lines only
  std::vector<OpLine> ops;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    OpLine o = p.ops[i];
    o.client = ((o.client % MAXC) + MAXC) % MAXC;
    if (only >= 0 && o.client != only) continue;
    if (only >= 0) o.preempt.clear();
    ops.push_back(o);
  }
  W = make_world();
  // set-up, final checks and teardown run on client 0's fiber, so that library code in them is simulated too
  struct PhaseWorld : World {
    World* w; const Plan* p; int phase;
    void setup(const Plan&) {} void teardown() {} void finish() {}
    void exec(const OpLine&) { if (phase == 0) w->setup(*p); else if (phase == 1) w->finish(); else w->teardown(); }
  } fw;
  World* real = W; fw.w = W; fw.p = &p;
  static OpLine fin[3]; fin[0].name = "setup"; fin[1].name = "final-check"; fin[2].name = "teardown";
  auto phase = [&](int ph) {
    W = &fw; fw.phase = ph;
    Client& c = C[0];
    c.op = &fin[ph]; c.steps = 0; c.next_pre = 0; c.in_lib = false; c.lib_armed = false; c.fcount = 0; c.fired = false; c.busy = true;
    switch_to(0);
    W = real;
  };
  phase(0);
  for (size_t i = 0; i < ops.size(); ++i) {
    Client& c = C[ops[i].client];
    while (c.busy) { switch_to(ops[i].client); }
    c.op = &ops[i]; c.steps = 0; c.next_pre = 0; c.in_lib = false; c.lib_armed = false; c.fcount = 0; c.fired = false; c.busy = true;
    std::sort(ops[i].preempt.begin(), ops[i].preempt.end());
    S->cur_op = (int)i;
    if (ops[i].fkind) S->armed[ops[i].fkind]++;
    S->sched_hash = mix2(S->sched_hash, (u64)ops[i].client);
    switch_to(ops[i].client);
    S->ops_done++;
  }
  for (int i = 0; i < MAXC; ++i) while (C[i].busy) switch_to(i);
  S->cur_op = -1;
  for (int i = 0; i < MAXC; ++i) S->chash[i] = C[i].hash;
  if (shared_locked) protect_shared(false);
  phase(1);
  phase(2);
  cur = -1;
  S->nclients = MAXC;
  delete real;
  if (live_blocks != 0 && !p.get("noleak", 0)) {
    if (S->any_fired) {     // reported separately, by allocation stack
      S->run_leaks = (int)live_blocks;
      for (Hdr* h = all_blocks; h; h = h->chain) if (h->magic == LIVE) {
        int k = 0; while (k < S->nleaks && memcmp(S->leaks[k].fr, h->fr, sizeof h->fr)) ++k;
        if (k == MAXLEAK) continue;
        Leak& l = S->leaks[k];
        if (k == S->nleaks) { S->nleaks++; memcpy(l.fr, h->fr, sizeof h->fr); l.n = l.bytes = 0; l.idx = S->cur_idx; }
        l.n++; l.bytes += (long)h->size;
      }
      probe("runs_leaking_after_fault");
    } else violation("leak", fmt("%ld block(s), %ld byte(s) still allocated after every object was destroyed", live_blocks, live_bytes));
  }
  for (int k = 0; k < NCLS; ++k) for (size_t i = 0; i < freelist[k].size(); ++i) check_poison(freelist[k][i]);
  finish_child(1);
}

struct Result { int status; std::string cls, msg; u64 hash, sched; u64 chash[MAXC]; };

static void reset_run() {
  S->status = 0; S->cls[0] = 0; S->msg[0] = 0; S->hash = 0; S->sched_hash = 0; S->cur_op = -1; S->run_leaks = 0; S->any_fired = 0;
  memset(S->chash, 0, sizeof S->chash);
}

static Result run_forked(const Plan& p) {
  reset_run();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(77); }
  if (pid == 0) { run_plan_here(p); _exit(0); }
  int st = 0;
  waitpid(pid, &st, 0);
  Result r; r.status = S->status;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "simulator set-up failure\n"); exit(77); }
  if (S->status == 0) {
    r.status = 2;
    r.cls = WIFSIGNALED(st) ? fmt("crash-signal%d", WTERMSIG(st)) : std::string("crash-exit");
    r.msg = fmt("run child died without a result (status %d), plan line %d", st, S->cur_op);
  } else { r.cls = S->cls; r.msg = S->msg; }
  r.hash = S->hash; r.sched = S->sched_hash;
  memcpy(r.chash, S->chash, sizeof r.chash);
  return r;
}

// isolation: every client alone, in another heap, must observe the same bytes
static Result run_full(const Plan& p) {
  Result r = run_forked(p);
  if (r.status != 1 || !p.get("iso", 0)) return r;
  int maxc = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].client > maxc) maxc = p.ops[i].client;
  for (int c = 0; c <= maxc && c < MAXC; ++c) {
    Plan q = p;
    q.cfg["only"] = c; q.cfg["iso"] = 0;
    q.cfg["heap"] = p.get("heap", 1) * 31 + 1000 + c;
    q.cfg["fill"] = (p.get("heap", 1) + 1 + c) & 3;
    Result s = run_forked(q);
    if (s.status != 1) { s.msg = fmt("(client %d alone) ", c) + s.msg; return s; }
    if (s.chash[c] != r.chash[c]) {
      r.status = 2; r.cls = "isolation";
      r.msg = fmt("client %d observed different results alone in another heap than interleaved with the other clients (%016llx vs %016llx)",
                  c, (unsigned long long)s.chash[c], (unsigned long long)r.chash[c]);
      return r;
    }
  }
  probe("iso_comparisons", maxc + 1);
  return r;
}

static void make_plan(Plan& p, const std::string& mode, u64 seed) {
  p = Plan(); p.world = world_name(); p.mode = mode; p.seed = seed;
  Rng rng(mix2(seed, 0x51));
  p.cfg["heap"] = (long)(rng.next() % 1000000);
  generate_plan(rng, p);
}

static std::string jesc(const std::string& s) {
  std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o;
}

int sim_main(int argc, char** argv) {
  std::string mode = "hist", replay, out; u64 base = 1; long start = 0, count = 0, stride = 1; double cap = 1e9; long planidx = -1; bool twice = false, showhash = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--mode") mode = argv[++i];
    else if (a == "--base") base = strtoull(argv[++i], 0, 10);
    else if (a == "--start") start = atol(argv[++i]);
    else if (a == "--count") count = atol(argv[++i]);
    else if (a == "--stride") stride = atol(argv[++i]);
    else if (a == "--cap") cap = atof(argv[++i]);
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--plan") planidx = atol(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--hashes") showhash = true;
    else if (a == "--twice") twice = true;
  }
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(S, 0, sizeof *S);
  u64 wsalt = 0; for (const char* w = world_name(); *w; ++w) wsalt = mix2(wsalt, (u64)*w);
  for (char ch : mode) wsalt = mix2(wsalt, (u64)ch);
  if (planidx >= 0) {
    Plan p; make_plan(p, mode, mix2(mix2(base, wsalt), (u64)planidx));
    fputs(p.text().c_str(), stdout);
    return 0;
  }
  if (!replay.empty()) {
    std::ifstream f(replay.c_str()); std::stringstream ss; ss << f.rdbuf();
    Plan p; if (!p.parse(ss.str())) { fprintf(stderr, "bad plan file\n"); return 2; }
    Result r = run_full(p);
    Result r2 = twice ? run_full(p) : r;
    printf("RESULT %s class=%s hash=%016llx sched=%016llx same=%d msg=%s\n", r.status == 1 ? "ok" : "violation", r.cls.c_str(),
           (unsigned long long)r.hash, (unsigned long long)r.sched, r.hash == r2.hash && r.cls == r2.cls && r.sched == r2.sched, r.msg.c_str());
    for (int k = 0; k < S->nleaks; ++k) { printf("LEAK"); for (int f = 0; f < LKF && S->leaks[k].fr[f]; ++f) printf(" %lx", (unsigned long)S->leaks[k].fr[f]); printf("\n"); }
    return 0;
  }
  // batch
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  long runs = 0; std::set<u64> scheds, hashes; bool capped = false;
  std::string viol; long failidx = -1;
  long preempted_runs = 0, faulted_runs = 0, nontrivial = 0; long faults_before = 0;
  for (long i = 0; i < count; ++i) {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    double el = (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec);
    if (el > cap) { capped = true; break; }
    long idx = start + i * stride; S->cur_idx = idx;
    Plan p; make_plan(p, mode, mix2(mix2(base, wsalt), (u64)idx));
    long pre0 = S->preempts; faults_before = 0; for (int k = 0; k < F_KINDS; ++k) faults_before += S->fired[k];
    Result r = run_full(p);
    ++runs;
    if (twice && r.status == 1) {
      Result r2 = run_full(p);
      if (r2.hash != r.hash || r2.sched != r.sched || r2.status != r.status) { viol = fmt("{\"idx\":%ld,\"class\":\"NONDETERMINISM\",\"msg\":\"two runs of one seed differ\"}", idx); failidx = idx; break; }
    }
    if (showhash) printf("H %ld %016llx %016llx %d\n", idx, (unsigned long long)r.hash, (unsigned long long)r.sched, r.status);
    long f1 = 0; for (int k = 0; k < F_KINDS; ++k) f1 += S->fired[k];
    bool pr = S->preempts > pre0, fl = f1 > faults_before;
    if (pr) ++preempted_runs; if (fl) ++faulted_runs;
    scheds.insert(r.sched); hashes.insert(r.hash);
    if (r.status != 1) {
      viol = fmt("{\"idx\":%ld,\"class\":\"%s\",\"msg\":\"%s\"}", idx, jesc(r.cls).c_str(), jesc(r.msg).c_str()); failidx = idx; break;
    }
    if (p.ops.size() >= 3) ++nontrivial;
  }
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  double el = (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec);
  long edges = 0; for (int k = 0; k < EDGEMAX; ++k) edges += S->edge[k];
  std::string j = "{";
  j += fmt("\"world\":\"%s\",\"mode\":\"%s\",\"runs\":%ld,\"elapsed\":%.2f,\"capped\":%s,", world_name(), mode.c_str(), runs, el, capped ? "true" : "false");
  j += fmt("\"ops\":%ld,\"steps\":%ld,\"preempts\":%ld,\"preempted_runs\":%ld,\"faulted_runs\":%ld,\"edges\":%ld,", S->ops_done, S->steps, S->preempts, preempted_runs, faulted_runs, edges);
  j += "\"fired\":{"; for (int k = 1; k < F_KINDS; ++k) j += fmt("%s\"%s\":%ld", k > 1 ? "," : "", fault_name(k), S->fired[k]);
  j += "},\"armed\":{"; for (int k = 1; k < F_KINDS; ++k) j += fmt("%s\"%s\":%ld", k > 1 ? "," : "", fault_name(k), S->armed[k]);
  j += "},\"probes\":{"; for (int k = 0; k < S->nprobes; ++k) j += fmt("%s\"%s\":%ld", k ? "," : "", jesc(S->probes[k].name).c_str(), S->probes[k].n);
  j += "},\"leaks\":["; for (int k = 0; k < S->nleaks; ++k) { const Leak& l = S->leaks[k]; j += fmt("%s{\"n\":%ld,\"bytes\":%ld,\"idx\":%ld,\"fr\":\"", k ? "," : "", l.n, l.bytes, l.idx); for (int f = 0; f < LKF && l.fr[f]; ++f) j += fmt("%s%lx", f ? " " : "", (unsigned long)l.fr[f]); j += "\"}"; }
  j += "],\"violation\":" + (viol.empty() ? std::string("null") : viol);
  if (!out.empty()) {
    std::ofstream f((out + ".sched").c_str(), std::ios::binary);
    for (u64 h : scheds) f.write((const char*)&h, 8);
    std::ofstream g((out + ".hash").c_str(), std::ios::binary);
    for (u64 h : hashes) g.write((const char*)&h, 8);
    std::ofstream e((out + ".edge").c_str(), std::ios::binary);
    e.write((const char*)S->edge, EDGEMAX);
  }
  j += "}\n";
  fputs(j.c_str(), stdout);
  return 0;
}
} // namespace sim

int main(int argc, char** argv) {
  // run without address space randomisation where the kernel lets us
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  return sim::sim_main(argc, argv);
}
