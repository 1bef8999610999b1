// Symbolic-execution model of the out-of-line parts of libstdc++/libc that the code under test links against.
// Only linked into the bitcode that vsym executes, never into the native replay (which uses the real libraries).
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <unordered_map>
#include <map>
#include <memory>
#include <system_error>
#include <exception>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include "vs.h"

template class std::basic_string<char>;
template class std::basic_string<wchar_t>;

extern "C" { int __vs_errno = 0; char __libc_single_threaded = 0; }

namespace std {
// --- hashing: one bucket; sound because only equality decides membership
size_t _Hash_bytes(const void*, size_t len, size_t) { return 0x9e3779b9u; }
size_t _Fnv_hash_bytes(const void*, size_t len, size_t) { return 0x9e3779b9u; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = k * 2 + 1; _M_next_resize = k; return k; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t want = ne + ni > 13 ? ne + ni : 13; if (want >= nb) { size_t k = 13; while (k < want || k < nb * 2) k = k * 2 + 1; _M_next_resize = k; return {true, k}; } _M_next_resize = nb; return {false, 0}; }
  return {false, 0};
}
}
// --- red-black tree replaced by an unbalanced but valid binary search tree (ordering is what matters)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;   // the header alone is red
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  _Rb_tree_node_base* nl = h._M_left == z ? _Rb_tree_increment(z) : h._M_left; _Rb_tree_node_base* nr = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right;
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  h._M_left = nl; h._M_right = nr; return z;
}
// --- atomic operations on shared pointers: one lock, where the library picks one of several by address
static mutex spLock;
_Sp_locker::_Sp_locker(const void*) noexcept { spLock.lock(); } _Sp_locker::_Sp_locker(const void*, const void*) noexcept { spLock.lock(); } _Sp_locker::~_Sp_locker() { spLock.unlock(); }
nested_exception::~nested_exception() noexcept {}
// --- exception classes
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static const char* cowdup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = cowdup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = cowdup(s.c_str(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = cowdup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = cowdup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = cowdup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = cowdup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return logic_error::what(); }
system_error::~system_error() noexcept {}
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
struct VsCat : error_category { const char* nm; VsCat(const char* n) : nm(n) {} const char* name() const noexcept override { return nm; } string message(int) const override { return nm; } ~VsCat() override {} };
// constant-initialised storage: never destroyed
static VsCat* cat(int k) { static VsCat a("generic"), b("system"); return k ? &b : &a; }
const error_category& generic_category() noexcept { return *cat(0); }
const error_category& system_category() noexcept { return *cat(1); }
}
struct VsFCat : error_category { const char* name() const noexcept override { return "future"; } string message(int ec) const override { switch (ec) { case (int)future_errc::promise_already_satisfied: return "Promise already satisfied"; case (int)future_errc::future_already_retrieved: return "Future already retrieved"; case (int)future_errc::no_state: return "No associated state"; case (int)future_errc::broken_promise: return "Broken promise"; } return "Unknown error"; } };
const error_category& future_category() noexcept { static VsFCat c; return c; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error((future_errc)e); }
// --- threads and futures
thread::_State::~_State() {}
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
__thread void* __once_callable;
__thread void (*__once_call)();
}
extern "C" void __once_proxy() { std::__once_call(); }
void __cxa_call_unexpected_model() { abort(); }
extern "C" {
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
void* vsm_memchr(const void* p, int c, size_t n) asm("memchr");
void* vsm_memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
char* vsm_strchr(const char* s, int c) asm("strchr");
char* vsm_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); for (; n && *s; n--) *e++ = *s++; *e = 0; return d; }
char* vsm_strrchr(const char* s, int c) asm("strrchr");
char* vsm_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* vsm_memrchr(const void* p, int c, size_t n) asm("memrchr");
void* vsm_memrchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; while (n--) if (q[n] == (unsigned char)c) return (void*)(q + n); return nullptr; }
char* vsm_strstr(const char* h, const char* n) asm("strstr");
char* vsm_strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return nullptr; } }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z' && c < 128; } int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isprint(int c) { return c >= 32 && c < 127; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
int wcscmp(const wchar_t* a, const wchar_t* b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
static long long vsm_num(const char* s, char** e, int base, bool& neg) { const char* b = s; while (isspace(*s)) s++; neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false; for (;; s++) { int d = isdigit(*s) ? *s - '0' : isalpha(*s) ? (*s | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; any = true; } if (e) *e = (char*)(any ? s : b); return (long long)v; }
long strtol(const char* s, char** e, int b) { bool n; long long v = vsm_num(s, e, b, n); return n ? -v : v; } unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtol(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return (unsigned long long)strtol(s, e, b); }
char* strerror(int) { return (char*)"error"; } char* getenv(const char*) { return nullptr; } int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset((void*)l, 0, sizeof *l); return 0; } int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
char* strdup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); if (p) memcpy(p, s, n + 1); return p; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
const wchar_t* wmemchr_(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return s + i; return nullptr; }
}
// --- printf family: a small formatter for the directives the code base uses
namespace {
template <class C> struct Out { C* b; size_t cap; size_t n; void put(C c) { if (n + 1 < cap) b[n] = c; n++; } };
template <class C> int fmt(C* buf, size_t size, const C* f, va_list ap) {
  Out<C> o{buf, size, 0};
  while (*f) {
    if (*f != '%') { o.put(*f++); continue; }
    f++; bool zero = false, left = false, plus = false; for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == ' ' || *f == '#') {} else break; }
    int width = 0; if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    int prec = -1; if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else break; }
    C c = *f; if (!c) break; f++;
    if (c == '%') { o.put('%'); continue; }
    if (c == 's' || c == 'S') {
      if (lng > 0 || c == 'S') { const wchar_t* s = va_arg(ap, const wchar_t*); if (!s) s = L"(null)"; size_t l = 0; while ((prec < 0 || (int)l < prec) && s[l]) l++; if (!left) for (int i = (int)l; i < width; i++) o.put(' '); for (size_t i = 0; i < l; i++) { if (sizeof(C) == 1 && (unsigned)s[i] > 127) return -1; o.put((C)s[i]); } if (left) for (int i = (int)l; i < width; i++) o.put(' '); }
      else { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t l = 0; if (prec < 0) l = strlen(s); else while ((int)l < prec && s[l]) l++; if (!left) for (int i = (int)l; i < width; i++) o.put(' '); for (size_t i = 0; i < l; i++) o.put((C)(unsigned char)s[i]); if (left) for (int i = (int)l; i < width; i++) o.put(' '); }
      continue; }
    if (c == 'c') { o.put((C)va_arg(ap, int)); continue; }
    if (c == 'f' || c == 'g' || c == 'e') { (void)va_arg(ap, double); o.put('0'); continue; }
    if (c == 'p') { (void)va_arg(ap, void*); o.put('p'); continue; }
    bool neg = false; unsigned long long v;
    if (c == 'd' || c == 'i') { long long x = lng >= 1 ? va_arg(ap, long) : va_arg(ap, int); if (x < 0) { neg = true; v = 0ull - (unsigned long long)x; } else v = x; }
    else v = lng >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
    unsigned base = (c == 'x' || c == 'X') ? 16 : c == 'o' ? 8 : 10; C tmp[32]; int k = 0;
    if (zero && width > 0 && base == 16 && prec < 0) { // fixed number of nibbles when it provably fits; keeps symbolic values in one path
      int need = width; while (need < 16 && (v >> (4 * need)) != 0) need++; for (int i = 0; i < need; i++) { unsigned d = (v >> (4 * i)) & 15; tmp[k++] = (C)(d < 10 ? '0' + d : 'a' + d - 10); } }
    else { do { unsigned d = (unsigned)(v % base); v /= base; tmp[k++] = (C)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10); } while (v); }
    while (k < prec && k < 31) tmp[k++] = '0';
    int len = k + (neg || plus); if (zero && !left && prec < 0) { if (neg) o.put('-'); else if (plus) o.put('+'); for (int i = len; i < width; i++) o.put('0'); }
    else { if (!left) for (int i = len; i < width; i++) o.put(' '); if (neg) o.put('-'); else if (plus) o.put('+'); }
    while (k) o.put(tmp[--k]); if (left) for (int i = len; i < width; i++) o.put(' ');
  }
  if (size) buf[o.n < size ? o.n : size - 1] = 0; return (int)o.n;
}
}
extern "C" {
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { return fmt<char>(b, n, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = fmt<char>(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = fmt<char>(b, 1 << 20, f, ap); va_end(ap); return r; }
// like glibc: fails when the result does not fit
int vswprintf(wchar_t* b, size_t n, const wchar_t* f, va_list ap) { int r = fmt<wchar_t>(b, n, f, ap); return r < 0 || (size_t)r >= n ? -1 : r; }
}
// --- stdio output has no effect the properties look at
extern "C" {
typedef struct VsFile VsFile;
int vsm_printf(const char*, ...) asm("printf"); int vsm_printf(const char*, ...) { return 0; }
int vsm_fprintf(void*, const char*, ...) asm("fprintf"); int vsm_fprintf(void*, const char*, ...) { return 0; }
int vsm_vprintf(const char*, va_list) asm("vprintf"); int vsm_vprintf(const char*, va_list) { return 0; }
int vsm_vfprintf(void*, const char*, va_list) asm("vfprintf"); int vsm_vfprintf(void*, const char*, va_list) { return 0; }
int vsm_puts(const char*) asm("puts"); int vsm_puts(const char*) { return 0; }
int vsm_fputs(const char*, void*) asm("fputs"); int vsm_fputs(const char*, void*) { return 0; }
int vsm_putchar(int c) asm("putchar"); int vsm_putchar(int c) { return c; }
int vsm_fputc(int c, void*) asm("fputc"); int vsm_fputc(int c, void*) { return c; }
size_t vsm_fwrite(const void*, size_t, size_t n, void*) asm("fwrite"); size_t vsm_fwrite(const void*, size_t, size_t n, void*) { return n; }
int vsm_fflush(void*) asm("fflush"); int vsm_fflush(void*) { return 0; }
void vsm_perror(const char*) asm("perror"); void vsm_perror(const char*) {}
}
extern "C" {
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; } int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset((void*)c, 0, sizeof *c); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_init(pthread_mutex_t* c, const pthread_mutexattr_t*) noexcept { memset((void*)c, 0, sizeof *c); return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; } int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; } int pthread_mutexattr_settype(pthread_mutexattr_t*, int) noexcept { return 0; }
int pthread_condattr_init(pthread_condattr_t*) noexcept { return 0; } int pthread_condattr_destroy(pthread_condattr_t*) noexcept { return 0; } int pthread_condattr_setclock(pthread_condattr_t*, clockid_t) noexcept { return 0; }
}

// ---- std::list
namespace std { namespace __detail { struct LN { LN* n; LN* p; }; } }
extern "C" {
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(std::__detail::LN* self, std::__detail::LN* pos) { self->n = pos; self->p = pos->p; pos->p->n = self; pos->p = self; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(std::__detail::LN* self) { self->p->n = self->n; self->n->p = self->p; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(std::__detail::LN* self, std::__detail::LN* first, std::__detail::LN* last) { if (self == last) return; last->p->n = self; first->p->n = last; self->p->n = first; std::__detail::LN* t = self->p; self->p = last->p; last->p = first->p; first->p = t; }
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(std::__detail::LN* x, std::__detail::LN* y) { bool xe = x->n == x, ye = y->n == y; std::__detail::LN tx = *x, ty = *y; if (ye) x->n = x->p = x; else { *x = ty; x->n->p = x; x->p->n = x; } if (xe) y->n = y->p = y; else { *y = tx; y->n->p = y; y->p->n = y; } }
}

extern "C" { double ceil(double x) { return __builtin_ceil(x); } double floor(double x) { return __builtin_floor(x); } double trunc(double x) { return __builtin_trunc(x); } double round(double x) { return __builtin_round(x); } double sqrt(double x) { return __builtin_sqrt(x); } float ceilf(float x) { return __builtin_ceilf(x); } float floorf(float x) { return __builtin_floorf(x); } long lround(double x) { return (long)__builtin_round(x); } long lrint(double x) { return (long)__builtin_rint(x); } }
