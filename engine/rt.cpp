// Runtime linked into the analysed bitcode: the parts of libstdc++/libc that
// live in shared libraries, written against the public headers so that the
// executor can run them. Threads, locks and exceptions end in engine builtins.
#include <sstream>
#include <functional>
#define private public
#define protected public
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <system_error>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <memory>
#include <cstring>
#include <cstdlib>
#include <cerrno>

extern "C" {
uint64_t __fs_thread_create(void* fn, void* arg);
void __fs_thread_join(uint64_t);
uint64_t __fs_thread_self();
void __fs_yield();
int __fs_cond_wait(void* c, void* m, int timed);
void __fs_cond_notify(void* c, int all);
int __fs_futex_wait(void* a, unsigned v, int timed);
void __fs_futex_wake(void* a);
void __fs_sync_acquire(void* a);
void __fs_sync_release(void* a);
void* __fs_current_exception();
void __fs_exception_addref(void*);
void __fs_exception_release(void*);
void __fs_rethrow(void*);
}

// ------------------------------------------------------------ C library
extern "C" {
int memcmp(void const* a, void const* b, size_t n) { auto x = (unsigned char const*)a; auto y = (unsigned char const*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(void const* a, void const* b, size_t n) { auto x = (unsigned char const*)a; auto y = (unsigned char const*)b; int r = 0; for (size_t i = 0; i < n; ++i) r |= x[i] ^ y[i]; return r; }
size_t strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(char const* a, char const* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(char const* a, char const* b, size_t n) { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
void* fs_memchr(void const* s, int c, size_t n) __asm__("memchr");
void* fs_memchr(void const* s, int c, size_t n) { auto p = (unsigned char const*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
char* fs_strchr(char const* s, int c) __asm__("strchr");
char* fs_strchr(char const* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int sched_yield() { __fs_yield(); return 0; }
int pthread_once(pthread_once_t* o, void (*f)())
{
    int* p = (int*)o;
    int v = __atomic_load_n(p, __ATOMIC_ACQUIRE);
    if (v == 2) { __fs_sync_acquire(p); return 0; }
    __atomic_store_n(p, 1, __ATOMIC_RELAXED);
    try { f(); } catch (...) { __atomic_store_n(p, 0, __ATOMIC_RELEASE); throw; }
    __atomic_store_n(p, 2, __ATOMIC_RELEASE); __fs_sync_release(p); return 0;
}
int __pthread_key_create(pthread_key_t*, void (*)(void*)) { return 0; }
char __libc_single_threaded = 0;
static thread_local long long fs_clock = 1000000;
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { if (__fs_cond_wait(c, m, 1)) { fs_clock += 1000000000000ll; return ETIMEDOUT; } return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if (__fs_cond_wait(c, m, 1)) { fs_clock += 1000000000000ll; return ETIMEDOUT; } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { __fs_cond_wait(c, m, 0); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { __fs_cond_notify(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { __fs_cond_notify(c, 1); return 0; }
pthread_t pthread_self() { return __fs_thread_self() + 1; }
}

namespace std {
// ------------------------------------------------------------ exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
nothrow_t const nothrow{};

static char* fs_dup(char const* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(fs_dup("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(fs_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(fs_dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(fs_dup(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = fs_dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = fs_dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define FS_ERR(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
FS_ERR(invalid_argument, logic_error)
FS_ERR(domain_error, logic_error)
FS_ERR(length_error, logic_error)
FS_ERR(out_of_range, logic_error)
FS_ERR(range_error, runtime_error)
FS_ERR(overflow_error, runtime_error)
FS_ERR(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ------------------------------------------------------------ error codes
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
struct fs_category : error_category { const char* name() const noexcept override { return "fs"; } string message(int) const override { return "error"; } };
const error_category& generic_category() noexcept { static fs_category c; return c; }
const error_category& system_category() noexcept { static fs_category c; return c; }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
const error_category& future_category() noexcept { static fs_category c; return c; }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "std::future_error"; }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }

// ------------------------------------------------------------ exception_ptr
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __fs_exception_addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { __fs_exception_release(_M_exception_object); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return nullptr; }
}
__exception_ptr::exception_ptr current_exception() noexcept { return __exception_ptr::exception_ptr(__fs_current_exception()); }
void rethrow_exception(__exception_ptr::exception_ptr p) { void* o = p._M_get(); __fs_rethrow(o); __builtin_unreachable(); }

// ------------------------------------------------------------ threads
thread::_State::~_State() = default;
static void fs_thread_entry(void* p) noexcept { unique_ptr<thread::_State> s(static_cast<thread::_State*>(p)); s->_M_run(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id(__fs_thread_create((void*)&fs_thread_entry, s.release()) + 1); }
void thread::join() { if (_M_id == id()) __throw_system_error(EINVAL); __fs_thread_join(_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { __fs_cond_wait(_M_cond.native_handle(), l.mutex()->native_handle(), 0); }
void condition_variable::notify_one() noexcept { __fs_cond_notify(_M_cond.native_handle(), 0); }
void condition_variable::notify_all() noexcept { __fs_cond_notify(_M_cond.native_handle(), 1); }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { if (auto f = __once_call) f(); }
inline namespace _V2 {}
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fs_clock)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(fs_clock)); }
} }
// as in libstdc++'s future.cc
void __future_base::_State_baseV2::_Make_ready::_M_set() { _M_cb = nullptr; if (auto s = _M_shared_state.lock()) s->_M_status._M_store_notify_all(__future_base::_State_baseV2::_Status::__ready, memory_order_release); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return !__fs_futex_wait(a, v, timed); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return !__fs_futex_wait(a, v, timed); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { __fs_futex_wake(a); }

// ------------------------------------------------------------ containers
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (a->_M_parent == &h) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    // leftmost / rightmost first
    if (h._M_left == z) { if (z->_M_right) { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; h._M_left = y; } else h._M_left = z->_M_parent; }
    if (h._M_right == z) { if (z->_M_left) { auto y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        auto y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next; auto p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept
{
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const { if (e + i > _M_next_resize || b == 1) { std::size_t want = e + i; if (want < 2 * b && b > 1) want = 2 * b; return {true, _M_next_bkt(want)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { auto c = (unsigned char const*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 31 + c[i]; return h; }
}

// Text streams: what is written to them is dropped, their text is empty.
extern "C" {
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev(void*) {}
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev(void*) {}
std::string _ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void*) { return std::string(); }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* s, char const*, long) { return s; }
}
