// Native replay runtime: runs a harness against the real (natively compiled)
// code with the concrete inputs and schedule of a counterexample.
#include <execinfo.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include <condition_variable>
#include <exception>
#include <future>
#include <map>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <vector>
#include "sym.h"

static std::map<std::string, std::vector<unsigned char>>* gIn;
static std::map<std::string, long>* gParam;
static std::vector<int>* gSched;
static int gPreempt = -1;
static size_t gSchedPos = 0;
static std::map<std::string, int>* gCnt;

extern "C" int HARNESS_ENTRY();
extern "C" unsigned sym_random_device_state = 12345;
namespace std {
void random_device::_M_init(const string&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return sym_random_device_state = sym_random_device_state * 1103515245u + 12345u; }
double random_device::_M_getentropy() const noexcept { return 0; }
}
// string hashing as in the solver run, so that hash-bucketed data land in the same buckets
static bool gSameHash = false;
static long gHashMode = 0;
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = (const unsigned char*)p;
  if (gSameHash) {
    if (!gHashMode) return 7;
    unsigned char x = 0;
    for (size_t i = 0; i < n; i++) x += c[i];
    return x & 1;
  }
  size_t h = seed ^ 14695981039346656037ull;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}
}

static void fail(const char* kind, const char* msg) {
  fflush(stdout);
  printf("REPLAY-VIOLATION %s: %s\n", kind, msg);
  fflush(stdout);
  _exit(42);
}
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) {
  if (!n) return;
  std::string k = std::string(name) + "#" + std::to_string((*gCnt)[name]++);
  auto it = gIn->find(k);
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = it != gIn->end() && i < it->second.size() ? it->second[i] : 0;
}
void sym_assume(bool c) {
  if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(43); }
}
void sym_assert(bool c, const char* m) { if (!c) fail("assert", m); }
void sym_fail(const char* m) { fail("assert", m); abort(); }
void sym_reach(const char* l) { printf("reach %s\n", l); }
void sym_note(const char* l, uint64_t v) { printf("note %s=%lu\n", l, v); }
uint64_t sym_concretize(uint64_t v) { return v; }
bool sym_is_symbolic(uint64_t) { return false; }
uint64_t sym_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
long sym_param(const char* n, long d) { auto it = gParam->find(n); return it == gParam->end() ? d : it->second; }
void sym_end_path() { printf("REPLAY-END\n"); fflush(stdout); _exit(0); }
bool sym_in_engine() { return false; }
void sym_print(const char* s) { printf("%s", s); }
}

#ifdef NATIVE_THREADS
// Cooperative fibers scheduled exactly like the solver run's scheduler.
struct Fib {
  int id;
  ucontext_t ctx;
  enum { Run, Blocked, Done } st = Run;
  uint64_t wait = 0;
  bool timed = false;
  void (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* eh[2] = {};
};
static std::vector<Fib*>* gF;
static int gCur = 0, gPoints = 0;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
static void initF() {
  if (!gF) {
    gF = new std::vector<Fib*>;
    gF->push_back(new Fib());
    (*gF)[0]->id = 0;
  }
}
static void switchTo(int i) {
  if (i == gCur) return;
  Fib *a = (*gF)[gCur], *b = (*gF)[i];
  void** g = (void**)__cxxabiv1::__cxa_get_globals();
  memcpy(a->eh, g, 16);
  memcpy(g, b->eh, 16);
  gCur = i;
  swapcontext(&a->ctx, &b->ctx);
}
static bool schedule_() {
  std::vector<int> run;
  int n = gF->size();
  for (int k = 1; k <= n; k++) { int i = (gCur + k) % n; if ((*gF)[i]->st == Fib::Run) run.push_back(i); }
  if (run.empty())
    for (int k = 1; k <= n; k++) {
      int i = (gCur + k) % n;
      if ((*gF)[i]->st == Fib::Blocked && (*gF)[i]->timed) { (*gF)[i]->st = Fib::Run; run.push_back(i); break; }
    }
  if (run.empty()) return false;
  int c = run[0];
  if (gPreempt >= 0 && run.size() > 1)
    if (gSchedPos < gSched->size() && (*gSched)[gSchedPos] >= 0) c = (*gSched)[gSchedPos++];
  switchTo(c);
  return true;
}
static void tramp() {
  Fib* f = (*gF)[gCur];
  f->fn(f->arg);
  f->st = Fib::Done;
  for (auto* o : *gF) if (o->st == Fib::Blocked && o->wait == 0xdead0000ull + f->id) o->st = Fib::Run;
  if (!schedule_()) fail("deadlock", "no runnable thread");
  abort();
}
static void preemptPoint(bool again) {
  if (gPreempt < 0) return;
  initF();
  do {
    int idx = gPoints++;
    if (gSchedPos < gSched->size() && (*gSched)[gSchedPos] < 0) {
      int v = -(*gSched)[gSchedPos] - 1;
      if (v / 64 == idx) { gSchedPos++; switchTo(v % 64); continue; }
    }
    break;
  } while (again);
}
static void wake(uint64_t key, bool all) {
  initF();
  int n = gF->size();
  for (int k = 1; k <= n; k++) {
    Fib* o = (*gF)[(gCur + k) % n];
    if (o->st == Fib::Blocked && o->wait == key) { o->st = Fib::Run; o->timed = false; o->wait = 0; if (!all) return; }
  }
}
static void block(uint64_t key, bool timed) {
  initF();
  Fib* t = (*gF)[gCur];
  t->st = Fib::Blocked;
  t->wait = key;
  t->timed = timed;
  if (!schedule_()) fail("deadlock", "all threads blocked");
}
extern "C" {
unsigned long sym_thread_create(void (*fn)(void*), void* arg) {
  initF();
  Fib* f = new Fib();
  f->id = gF->size();
  f->fn = fn;
  f->arg = arg;
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = malloc(1 << 20);
  f->ctx.uc_stack.ss_size = 1 << 20;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, tramp, 0);
  gF->push_back(f);
  return f->id;
}
void sym_thread_join(unsigned long id) { while ((*gF)[id]->st != Fib::Done) block(0xdead0000ull + id, false); }
unsigned long sym_thread_self() { return gCur + 1; }
void sym_sched_point() { preemptPoint(true); }
void sym_wait_on(uint64_t k) { block(k, false); }
void sym_wait_on_timed(uint64_t k) { block(k, true); }
void sym_notify(uint64_t k) { wake(k, true); }
struct Mx { void* m; int owner, depth; };
static Mx gMx[4096];
static int gNM = 0;
static Mx* mx(void* m) {
  for (int i = 0; i < gNM; i++) if (gMx[i].m == m) return &gMx[i];
  if (gNM >= 4096) abort();
  gMx[gNM] = {m, 0, 0};
  return &gMx[gNM++];
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  initF();
  for (;;) {
    if (gF->size() > 1) preemptPoint(true);
    Mx* x = mx(m);
    if (!x->owner) { x->owner = gCur + 1; x->depth = 1; return 0; }
    if (x->owner == gCur + 1) {
      if ((((int*)m)[4] & 3) == 1) { x->depth++; return 0; }
      fail("deadlock", "mutex locked twice by the same thread");
    }
    block((uint64_t)m, false);
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  Mx* x = mx(m);
  if (x->owner) return 16;
  x->owner = gCur + 1;
  x->depth = 1;
  return 0;
}
static void rawUnlock(void* m) {
  Mx* x = mx(m);
  if (x->owner != gCur + 1) fail("thread", "unlock of a mutex the thread does not hold");
  if (--x->depth == 0) { x->owner = 0; wake((uint64_t)m, true); }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  rawUnlock(m);
  if (gF && gF->size() > 1) preemptPoint(false);
  return 0;
}
static void condWait(void* c, void* m, bool timed) {
  rawUnlock(m);
  block((uint64_t)c ^ 0x8000000000000000ull, timed);
}
static bool timedOut() { bool r = (*gF)[gCur]->timed; (*gF)[gCur]->timed = false; return r; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { condWait(c, m, false); return pthread_mutex_lock(m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  condWait(c, m, true);
  bool to = timedOut();
  pthread_mutex_lock(m);
  return to ? 110 : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_timedwait(c, m, 0); }
int pthread_cond_signal(pthread_cond_t* c) { wake((uint64_t)c ^ 0x8000000000000000ull, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { wake((uint64_t)c ^ 0x8000000000000000ull, true); return 0; }
int sched_yield() {
  initF();
  bool other = false;
  for (auto* f : *gF) if (f->id != gCur && f->st == Fib::Run) other = true;
  if (!other) { for (auto* f : *gF) if (f->st == Fib::Blocked && f->timed) { f->st = Fib::Run; other = true; break; } if (!other) return 0; }
  schedule_();
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }
}
namespace std {
static void runThread(void* p) {
  auto* st = static_cast<thread::_State*>(p);
  st->_M_run();
  delete st;
}
void thread::_M_start_thread(_State_ptr st, void (*)()) { _M_id = id(sym_thread_create(runThread, st.release()) + 1); }
void thread::join() {
  unsigned long h = *(unsigned long*)&_M_id;
  sym_thread_join(h - 1);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return sym_param("cpus", 1); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
  if (*a == v) sym_wait_on((uint64_t)a);
  return true;
}
// a timed wait may give up, for the first `timeouts` waits of a run
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
  if (*a == v && timed) {
    static int left = -1;
    if (left < 0) left = sym_param("timeouts", 0);
    if (left > 0) {
      unsigned char c = 0;
      sym_bytes(&c, 1, "a timed wait gives up");
      left--;
      if (sym_concretize(c & 1)) { sched_yield(); return false; }
    }
  }
  if (*a == v) sym_wait_on((uint64_t)a);
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sym_notify((uint64_t)a); }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { sched_yield(); } }
}
#else
extern "C" {
unsigned long sym_thread_create(void (*)(void*), void*) { abort(); }
void sym_thread_join(unsigned long) { abort(); }
unsigned long sym_thread_self() { return 1; }
void sym_sched_point() {}
void sym_wait_on(uint64_t) { fail("deadlock", "wait in a single-threaded harness"); }
void sym_wait_on_timed(uint64_t) {}
void sym_notify(uint64_t) {}
}
#endif

static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void load(const char* path) {
  gIn = new std::map<std::string, std::vector<unsigned char>>;
  gParam = new std::map<std::string, long>;
  gSched = new std::vector<int>;
  gCnt = new std::map<std::string, int>;
  FILE* f = fopen(path, "r");
  if (!f) { perror("replay"); exit(44); }
  char* line = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    std::string s(line);
    if (s.compare(0, 6, "input ") == 0) {
      size_t p = s.rfind(' ');
      std::string name = s.substr(6, p - 6), hex = s.substr(p + 1);
      std::vector<unsigned char> v;
      for (size_t i = 0; i + 1 < hex.size(); i += 2) v.push_back(hexv(hex[i]) * 16 + hexv(hex[i + 1]));
      (*gIn)[name] = v;
    } else if (s.compare(0, 6, "param ") == 0) {
      size_t p = s.find('=');
      (*gParam)[s.substr(6, p - 6)] = atol(s.c_str() + p + 1);
    } else if (s.compare(0, 8, "preempt ") == 0) gPreempt = atoi(s.c_str() + 8);
    else if (s.compare(0, 6, "sched ") == 0) {
      const char* p = s.c_str() + 6;
      while (*p) { char* e; long v = strtol(p, &e, 10); if (e == p) break; gSched->push_back(v); p = e; }
    }
  }
  fclose(f);
}
#ifdef NATIVE_BOOT
extern "C" void harness_boot();
#endif
// before the static objects of the code under test, which may hash strings
__attribute__((constructor(101))) static void early(int argc, char** argv) {
  if (argc < 2) return;
  load(argv[1]);
  gSameHash = strcmp(argv[1], "/dev/null") != 0;
  gHashMode = sym_param("hash_mode", 0);
}
int main(int argc, char** argv) {
  if (argc < 2) return 44;
  std::set_terminate([] {
    if (auto e = std::current_exception()) {
      try { std::rethrow_exception(e); } catch (const std::exception& x) { fail("uncaught", x.what()); } catch (...) { fail("uncaught", "exception"); }
    }
    fail("terminate", "std::terminate");
  });
  if (HARNESS_ENTRY()) { printf("DEMO-FAILED\n"); fflush(stdout); _exit(1); }
  printf("REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}
