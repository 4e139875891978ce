// Bitcode runtime: the parts of libstdc++/libc that live in shared libraries.
#include <pthread.h>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <random>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include "sym.h"

extern "C" void sym_cond_unlock_wait(void* c, void* m, int timed);
extern "C" bool sym_timed_out();

// ------------------------------------------------------------- exceptions ---
extern "C" unsigned sym_random_device_state = 12345;
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static const char* dupstr(const char* p, size_t n) {
  char* q = (char*)malloc(n + 1);
  memcpy(q, p, n);
  q[n] = 0;
  return q;
}
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept = default;
logic_error& logic_error::operator=(logic_error&& o) noexcept = default;
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept = default;
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept = default;
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define E2(C, B)                                \
  C::C(const string& s) : B(s) {}               \
  C::C(const char* s) : B(s) {}                 \
  C::~C() noexcept {}
E2(domain_error, logic_error)
E2(invalid_argument, logic_error)
E2(length_error, logic_error)
E2(out_of_range, logic_error)
E2(range_error, runtime_error)
E2(overflow_error, runtime_error)
E2(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_future_error(int) { throw logic_error("future_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { sym_fail(c ? c : "glibcxx assertion"); }

// error categories (identity only)
error_category::~error_category() noexcept {}
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace {
struct Cat : error_category {
  const char* name() const noexcept override { return "generic"; }
  string message(int) const override { return "error"; }
};
Cat gCat;
Cat sCat;
Cat fCat;
}
namespace _V2 {
const error_category& generic_category() noexcept { return gCat; }
const error_category& system_category() noexcept { return sCat; }
}
const error_category& future_category() noexcept { return fCat; }
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
bool _Sp_make_shared_tag::_S_eq(const type_info& ti) noexcept { return ti == typeid(_Sp_make_shared_tag); }

// ------------------------------------------------------------------ trees ---
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotR(xpp, root);
      }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotL(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  _Rb_tree_node_base*& leftmost = h._M_left;
  _Rb_tree_node_base*& rightmost = h._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = 0;
  _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    std::swap(y->_M_color, z->_M_color);
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotL(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotR(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

// ------------------------------------------------- hash tables: one bucket ---
// one bucket for everything by default; hash_mode 1 spreads by the parity of the byte sum
size_t _Hash_bytes(const void* p, size_t n, size_t) {
  if (!sym_param("hash_mode", 0)) return 7;
  unsigned char x = 0;
  for (size_t i = 0; i < n; i++) x += ((const unsigned char*)p)[i];
  return (size_t)(sym_concretize(x & 1));
}
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 7; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base* const n = this->_M_next;
  _List_node_base* const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
}  // namespace __detail

// ---------------------------------------------------------------- threads ---
thread::_State::~_State() = default;
static void runThread(void* p) {
  auto* st = static_cast<thread::_State*>(p);
  st->_M_run();
  delete st;
}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  _M_id = id(sym_thread_create(runThread, st.release()) + 1);
}
void thread::join() {
  unsigned long h = *(unsigned long*)&_M_id;
  if (!h) throw runtime_error("join of non-joinable thread");
  sym_thread_join(h - 1);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) {
  sym_cond_unlock_wait(this, l.mutex()->native_handle(), 0);
  pthread_mutex_lock(l.mutex()->native_handle());
}
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
__thread void* __once_callable;
__thread void (*__once_call)();
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
  if (*a == v) sym_wait_on((uint64_t)a);
  return true;
}
// a timed wait may give up, for the first `timeouts` waits of a run
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
  if (*a == v && timed) {
    static int left = -1;
    if (left < 0) left = sym_param("timeouts", 0);
    if (left > 0) {
      unsigned char c = 0;
      sym_bytes(&c, 1, "a timed wait gives up");
      left--;
      if (sym_concretize(c & 1)) { sched_yield(); return false; }
    }
  }
  if (*a == v) sym_wait_on((uint64_t)a);
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sym_notify((uint64_t)a); }
namespace this_thread {
void __sleep_for(chrono::seconds, chrono::nanoseconds) { sched_yield(); }
}
void random_device::_M_init(const string&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return sym_random_device_state = sym_random_device_state * 1103515245u + 12345u; }
double random_device::_M_getentropy() const noexcept { return 0; }
}  // namespace std

extern "C" {
void __once_proxy() { std::__once_call(); }
int pthread_once(int* o, void (*f)()) {
  while (*o == 1) sched_yield();
  if (*o == 2) return 0;
  *o = 1;
  try { f(); } catch (...) { *o = 0; throw; }
  *o = 2;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  sym_cond_unlock_wait(c, m, 0);
  pthread_mutex_lock(m);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  sym_cond_unlock_wait(c, m, 1);
  bool to = sym_timed_out();
  pthread_mutex_lock(m);
  return to ? 110 : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
  return pthread_cond_timedwait(c, m, 0);
}
long strtol(const char* s, char** e, int base) {
  const char* p = s;
  while (*p == ' ') p++;
  bool neg = *p == '-';
  if (*p == '-' || *p == '+') p++;
  long v = 0;
  const char* st = p;
  while (*p) {
    int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
    if (d >= (base ? base : 10)) break;
    v = v * (base ? base : 10) + d;
    p++;
  }
  if (e) *e = (char*)(p == st ? s : p);
  return neg ? -v : v;
}
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char* s, char** e, int base) { return (unsigned long)strtol(s, e, base); }
unsigned long long strtoull(const char* s, char** e, int base) { return (unsigned long)strtol(s, e, base); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
namespace std {
template class __cxx11::basic_string<char>;
template class __cxx11::basic_string<char32_t>;
}
