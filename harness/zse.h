// Harness interface. A harness is a closed program over the public API of ZenKit whose inputs
// are solver variables. It is compiled twice: to LLVM IR for the symbolic executor, and natively
// (with sanitizers) to replay counterexamples.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <memory>

extern "C" {
void zse_make_symbolic(void*, size_t, char const*);
void zse_assume(int);
void zse_set_clock(long long); // seconds since 1970 that time() returns
void zse_assert(int, char const*);
void zse_reached(char const*);
uint64_t zse_concretize(uint64_t);
int zse_native();
char const* zse_scratch(); // a fresh directory of this run
unsigned zse_open_files(); // file handles which are open
int zse_same(void const*, void const*, size_t);
void zse_set_zone(int minutes_east); // the local time zone
void zse_register(char const*, void (*)());
}

#ifdef ZSE_NATIVE
#define HARNESS(name)                                                                                                  \
	static void body_##name();                                                                                         \
	extern "C" void name() { body_##name(); zse_reached("end"); }                                                      \
	static struct Reg_##name { Reg_##name() { zse_register(#name, &name); } } reg_##name;                              \
	static void body_##name()
#else
#define HARNESS(name)                                                                                                  \
	static __attribute__((noinline)) void body_##name();                                                               \
	extern "C" void name() { body_##name(); zse_reached("end"); }                                                      \
	static void body_##name()
#endif

#define ZSE_STR2(x) #x
#define ZSE_STR(x) ZSE_STR2(x)
#define CHECK(c) zse_assert((int) (bool) (c), #c " @" ZSE_STR(__LINE__))
#define CHECKM(c, m) zse_assert((int) (bool) (c), m " @" ZSE_STR(__LINE__))
#define ASSUME(c) zse_assume((int) (bool) (c))
#define REACH(m) zse_reached(m)

// an arbitrary value of a trivially copyable type
template <typename T> T sym(char const* name) {
	static_assert(std::is_trivially_copyable_v<T>);
	unsigned char buf[sizeof(T)];
	zse_make_symbolic(buf, sizeof(T), name);
	T v;
	memcpy((void*) &v, buf, sizeof(T));
	return v;
}
template <> inline bool sym<bool>(char const* name) {
	unsigned char b;
	zse_make_symbolic(&b, 1, name);
	return (b & 1) != 0;
}
inline void sym_bytes(void* p, size_t n, char const* name) { if (n) zse_make_symbolic(p, n, name); }
// integer in [lo, hi]
template <typename T> T sym_in(T lo, T hi, char const* name) {
	T v = sym<T>(name);
	ASSUME((v >= lo) & (v <= hi));
	return v;
}
// concrete choice in [lo, hi]: one path per value
inline unsigned choose(unsigned lo, unsigned hi, char const* name) {
	uint8_t v;
	zse_make_symbolic(&v, 1, name);
	ASSUME((v >= lo) & (v <= hi));
	return (unsigned) zse_concretize(v);
}
// string of n arbitrary bytes
inline std::string sym_raw(size_t n, char const* name) {
	std::string s(n, '\0');
	sym_bytes(s.data(), n, name);
	return s;
}
// string of n arbitrary bytes other than NUL, CR and LF (text that fits on one line of a file)
inline std::string sym_line(size_t n, char const* name) {
	std::string s = sym_raw(n, name);
	for (char c : s) ASSUME((c != 0) & (c != '\n') & (c != '\r'));
	return s;
}
// string of n printable, non-blank characters
inline std::string sym_word(size_t n, char const* name) {
	std::string s = sym_raw(n, name);
	for (char c : s) ASSUME((c > ' ') & (c < 127));
	return s;
}
// equality of object representations (distinguishes NaNs and signed zeros); one term, no branching
inline bool same_bytes(void const* a, void const* b, size_t n) { return zse_same(a, b, n) != 0; }
template <typename T> bool same(T const& a, T const& b) {
	static_assert(std::is_trivially_copyable_v<T>);
	static_assert(std::has_unique_object_representations_v<T> || std::is_floating_point_v<T> || std::is_class_v<T>);
	return same_bytes(&a, &b, sizeof(T));
}
inline bool same(std::string const& a, std::string const& b) {
	if (a.size() != b.size()) return false;
	return same_bytes(a.data(), b.data(), a.size());
}
template <typename T> bool same_vec(std::vector<T> const& a, std::vector<T> const& b) {
	if (a.size() != b.size()) return false;
	return same_bytes(a.data(), b.data(), a.size() * sizeof(T));
}
template <typename F> bool throws(F&& f) {
	try { f(); } catch (...) { return true; }
	return false;
}
