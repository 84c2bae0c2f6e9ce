// libstdc++ model for the symbolic executor: the library's own header templates
// are instantiated here wherever possible; the compiled parts that libstdc++.so
// would provide are written out (exceptions, red-black trees, stream formatting).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <ios>
#include <istream>
#include <list>
#include <map>
#include <new>
#include <ostream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <chrono>
#include <charconv>
#include <filesystem>
#include <memory_resource>

extern "C" {
void zse_giveup(const char*);
int zse_fmt_double(char*, size_t, const char*, double);
uint64_t zse_strtod(const char*, size_t*, int);
unsigned zse_rt_dec_len(unsigned long long v, int base) noexcept;
void zse_rt_dec_digits(char* first, unsigned len, unsigned long long v) noexcept;
void zse_rt_throw_bad_alloc() { throw std::bad_alloc(); }
}

// ------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
char const* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
char const* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
char const* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
char const* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
char const* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
char const* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
char const* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static char* dupStr(char const* s, size_t n) { char* r = (char*) ::operator new(n + 1); for (size_t i = 0; i < n; ++i) r[i] = s[i]; r[n] = 0; return r; }
__cow_string::__cow_string() : _M_p(dupStr("", 0)) {}
__cow_string::__cow_string(std::string const& s) : _M_p(dupStr(s.data(), s.size())) {}
__cow_string::__cow_string(char const* s, size_t n) : _M_p(dupStr(s, n)) {}
__cow_string::__cow_string(__cow_string const& o) noexcept : _M_p(dupStr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string const& o) noexcept { _M_p = dupStr(o._M_p, strlen(o._M_p)); return *this; }
__cow_string::~__cow_string() { ::operator delete((void*) _M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupStr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = dupStr(o._M_p, strlen(o._M_p)); return *this; }

logic_error::logic_error(string const& s) : _M_msg(s) {}
logic_error::logic_error(char const* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error const& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
char const* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(string const& s) : _M_msg(s) {}
runtime_error::runtime_error(char const* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error const& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
char const* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define ERR(T, B) T::T(string const& s) : B(s) {} T::T(char const* s) : B(s) {} T::~T() noexcept {}
ERR(domain_error, logic_error)
ERR(invalid_argument, logic_error)
ERR(length_error, logic_error)
ERR(out_of_range, logic_error)
ERR(range_error, runtime_error)
ERR(overflow_error, runtime_error)
ERR(underflow_error, runtime_error)
#undef ERR

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(char const* s) { throw logic_error(s); }
void __throw_domain_error(char const* s) { throw domain_error(s); }
void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
void __throw_length_error(char const* s) { throw length_error(s); }
void __throw_out_of_range(char const* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(char const* s) { throw runtime_error(s); }
void __throw_range_error(char const* s) { throw range_error(s); }
void __throw_overflow_error(char const* s) { throw overflow_error(s); }
void __throw_underflow_error(char const* s) { throw underflow_error(s); }
void __throw_ios_failure(char const* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system error"); }

const nothrow_t nothrow {};
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
void ios_base_library_init();


// ------------------------------------------------------------ hashing: depends on the length only;
// every hash table keeps one bucket, so lookups compare keys and never branch on hash values
size_t _Hash_bytes(void const*, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(void const*, size_t n, size_t) { return n; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
void _List_node_base::swap(_List_node_base&, _List_node_base&) noexcept { zse_giveup("list-swap"); }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
	if (this == l) return;
	l->_M_prev->_M_next = this;
	f->_M_prev->_M_next = l;
	this->_M_prev->_M_next = f;
	_List_node_base* t = this->_M_prev;
	this->_M_prev = l->_M_prev;
	l->_M_prev = f->_M_prev;
	f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
	_List_node_base* t = this;
	do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept {
	this->_M_next = p;
	this->_M_prev = p->_M_prev;
	p->_M_prev->_M_next = this;
	p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
	_M_prev->_M_next = _M_next;
	_M_next->_M_prev = _M_prev;
}
}

// ------------------------------------------------------------ search trees (kept unbalanced; all nodes black)
using RB = _Rb_tree_node_base;
RB* _Rb_tree_increment(RB* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	RB* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
RB const* _Rb_tree_increment(RB const* x) throw() { return _Rb_tree_increment(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { RB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	RB* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
RB const* _Rb_tree_decrement(RB const* x) throw() { return _Rb_tree_decrement(const_cast<RB*>(x)); }
void _Rb_tree_insert_and_rebalance(bool left, RB* x, RB* p, RB& h) throw() {
	x->_M_parent = p;
	x->_M_left = x->_M_right = nullptr;
	x->_M_color = _S_black;
	if (left) {
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; }
		else if (p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}
RB* _Rb_tree_rebalance_for_erase(RB* z, RB& h) throw() {
	RB *y = z, *x = nullptr;
	if (!y->_M_left) x = y->_M_right;
	else if (!y->_M_right) x = y->_M_left;
	else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y;
		y->_M_left = z->_M_left;
		if (y != z->_M_right) {
			if (x) x->_M_parent = y->_M_parent;
			y->_M_parent->_M_left = x;
			y->_M_right = z->_M_right;
			z->_M_right->_M_parent = y;
		}
		if (h._M_parent == z) h._M_parent = y;
		else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
		else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
	} else {
		RB* xp = y->_M_parent;
		if (x) x->_M_parent = xp;
		if (h._M_parent == z) h._M_parent = x;
		else if (xp->_M_left == z) xp->_M_left = x;
		else xp->_M_right = x;
		if (h._M_left == z) {
			if (!z->_M_right) h._M_left = xp;
			else { RB* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; }
		}
		if (h._M_right == z) {
			if (!z->_M_left) h._M_right = xp;
			else { RB* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; }
		}
	}
	return z;
}

// ------------------------------------------------------------ locale / ios_base
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(locale const&) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
locale const& locale::operator=(locale const&) noexcept { return *this; }
bool locale::operator==(locale const&) const noexcept { return true; }
locale const& locale::classic() { static locale l; return l; }

ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(fmtflags(skipws | dec)), _M_exception(goodbit), _M_streambuf_state(goodbit),
      _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
locale ios_base::imbue(locale const&) noexcept { return locale(); }
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = fmtflags(skipws | dec); }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
void ios_base::_M_move(ios_base& o) noexcept {
	_M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state;
}
void ios_base::_M_swap(ios_base& o) noexcept {
	std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags);
	std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state);
}
ios_base::failure::failure(string const& s) : system_error(error_code(), s) {}
ios_base::failure::failure(char const* s, error_code const& c) : system_error(c, s) {}
ios_base::failure::failure(string const& s, error_code const& c) : system_error(c, s) {}
ios_base::failure::~failure() {}
char const* ios_base::failure::what() const noexcept { return "ios failure"; }
system_error::~system_error() noexcept {}
error_category::~error_category() {}
bool error_category::equivalent(int, error_condition const&) const noexcept { return false; }
bool error_category::equivalent(error_code const&, int) const noexcept { return false; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
#if _GLIBCXX_USE_CXX11_ABI
struct _V2_cat;
#endif
namespace _V2 {
struct RtCat final : error_category {
	char const* name() const noexcept override { return "rt"; }
	std::string message(int) const override { return "error"; }
	__cow_string _M_message(int) const override { return __cow_string(); }
};
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_category const& system_category() noexcept { static RtCat c; return c; }
error_category const& generic_category() noexcept { static RtCat c; return c; }
}

template<> void basic_ios<char>::clear(iostate st) {
	_M_streambuf_state = rdbuf() ? st : iostate(st | badbit);
	if (exceptions() & rdstate()) throw ios_base::failure("basic_ios::clear", error_code());
}
template<> void basic_ios<char>::init(basic_streambuf<char>* sb) {
	ios_base::_M_init();
	_M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr;
	_M_fill = ' '; _M_fill_init = true;
	_M_tie = nullptr;
	_M_exception = goodbit;
	_M_streambuf = sb;
	_M_streambuf_state = sb ? goodbit : badbit;
}
template<> void basic_ios<char>::_M_cache_locale(locale const&) {}
template<> char basic_ios<char>::widen(char c) const { return c; }
template<> char basic_ios<char>::narrow(char c, char) const { return c; }
template<> char basic_ios<char>::fill() const { return ' '; }
template<> char basic_ios<char>::fill(char) { return ' '; }
template<> locale basic_ios<char>::imbue(locale const&) { return locale(); }
template<> basic_ios<char>& basic_ios<char>::copyfmt(basic_ios const&) { zse_giveup("copyfmt"); return *this; }

static inline bool rtSpace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
template<> basic_istream<char>::sentry::sentry(basic_istream& in, bool noskip) : _M_ok(false) {
	if (in.good()) {
		if (!noskip && (in.flags() & ios_base::skipws)) {
			auto* sb = in.rdbuf();
			int c = sb->sgetc();
			while (c != -1 && rtSpace(c)) c = sb->snextc();
			if (c == -1) in.setstate(ios_base::eofbit | ios_base::failbit);
		}
	}
	if (in.good()) _M_ok = true;
	else in.setstate(ios_base::failbit);
}
// number extraction following [facet.num.get.virtuals] in the "C" locale
static bool collect(basic_istream<char>& in, char* tmp, size_t cap, bool flt, ios_base::iostate& err) {
	auto* sb = in.rdbuf();
	size_t n = 0;
	int c = sb->sgetc();
	bool any = false, hex = (in.flags() & ios_base::basefield) == ios_base::hex;
	if (c == '+' || c == '-') { tmp[n++] = (char) c; c = sb->snextc(); }
	if (!flt) {
		if (hex && c == '0') {
			any = true; tmp[n++] = '0'; c = sb->snextc();
			if (c == 'x' || c == 'X') { c = sb->snextc(); }
		}
		while (c != -1) {
			bool ok = (c >= '0' && c <= '9') || (hex && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')));
			if (!ok) break;
			any = true;
			if (n + 1 >= cap) zse_giveup("istream-number-length");
			tmp[n++] = (char) c;
			c = sb->snextc();
		}
	} else {
		bool dot = false, exp = false;
		while (c != -1) {
			if (c >= '0' && c <= '9') any = true;
			else if (c == '.' && !dot && !exp) dot = true;
			else if ((c == 'e' || c == 'E') && !exp && any) {
				exp = true;
				if (n + 2 >= cap) zse_giveup("istream-number-length");
				tmp[n++] = 'e';
				c = sb->snextc();
				if (c != '+' && c != '-') continue;
			} else break;
			if (n + 2 >= cap) zse_giveup("istream-number-length");
			tmp[n++] = (char) c;
			c = sb->snextc();
		}
	}
	tmp[n] = 0;
	if (c == -1) err |= ios_base::eofbit;
	return any;
}
template<typename T> static void getFloat(basic_istream<char>& in, T& v) {
	basic_istream<char>::sentry cerb(in, false);
	if (!cerb) return;
	ios_base::iostate err = ios_base::goodbit;
	char tmp[128];
	bool ok = collect(in, tmp, sizeof tmp, true, err);
	size_t used = 0;
	if (ok) {
		if constexpr (sizeof(T) == 4) { uint32_t b = (uint32_t) zse_strtod(tmp, &used, 1); memcpy(&v, &b, 4); }
		else { uint64_t b = zse_strtod(tmp, &used, 0); double d; memcpy(&d, &b, 8); v = (T) d; }
		if (tmp[used]) ok = false;
		else if (v - v != 0) { v = v > 0 ? numeric_limits<T>::max() : numeric_limits<T>::lowest(); err |= ios_base::failbit; }
	}
	if (!ok) { v = 0; err |= ios_base::failbit; }
	if (err) in.setstate(err);
}
template<typename T> static void getInt(basic_istream<char>& in, T& v) {
	basic_istream<char>::sentry cerb(in, false);
	if (!cerb) return;
	ios_base::iostate err = ios_base::goodbit;
	char tmp[64];
	bool ok = collect(in, tmp, sizeof tmp, false, err);
	unsigned base = (in.flags() & ios_base::basefield) == ios_base::hex ? 16 : (in.flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
	if (!ok) { v = 0; err |= ios_base::failbit; }
	else {
		size_t i = 0;
		bool neg = false;
		if (tmp[0] == '-') { neg = true; i = 1; }
		else if (tmp[0] == '+') i = 1;
		unsigned long long a = 0;
		bool over = false;
		unsigned nd = 0;
		for (; tmp[i]; ++i, ++nd) {
			unsigned d = (unsigned char) tmp[i] <= '9' ? (unsigned) ((unsigned char) tmp[i] - '0') : ((unsigned) (tmp[i] | 32) - 'a' + 10);
			if (nd >= 15 && a > (~0ull - d) / base) over = true;
			a = a * base + d;
		}
		if constexpr (std::is_signed_v<T>) {
			unsigned long long lim = (unsigned long long) numeric_limits<T>::max() + (neg ? 1 : 0);
			if (over || a > lim) { v = neg ? numeric_limits<T>::min() : numeric_limits<T>::max(); err |= ios_base::failbit; }
			else v = (T) (neg ? 0 - a : a);
		} else {
			if (over || a > numeric_limits<T>::max()) { v = numeric_limits<T>::max(); err |= ios_base::failbit; }
			else v = (T) (neg ? 0 - a : a);
		}
	}
	if (err) in.setstate(err);
}
#define XF(T) template<> template<> basic_istream<char>& basic_istream<char>::_M_extract<T>(T& v) { getFloat(*this, v); return *this; }
#define XI(T) template<> template<> basic_istream<char>& basic_istream<char>::_M_extract<T>(T& v) { getInt(*this, v); return *this; }
XF(float) XF(double)
XI(long) XI(unsigned long) XI(long long) XI(unsigned long long) XI(unsigned) XI(unsigned short)
template<> template<> basic_istream<char>& basic_istream<char>::_M_extract<bool>(bool& v) {
	long l = 0; getInt(*this, l); v = l != 0; if (l != 0 && l != 1) setstate(ios_base::failbit); return *this;
}
template<> basic_istream<char>& basic_istream<char>::operator>>(int& v) { getInt(*this, v); return *this; }
template<> basic_istream<char>& basic_istream<char>::operator>>(short& v) { getInt(*this, v); return *this; }

template<> basic_istream<char>& operator>>(basic_istream<char>& in, string& s) {
	basic_istream<char>::sentry cerb(in, false);
	if (!cerb) return in;
	ios_base::iostate err = ios_base::goodbit;
	s.clear();
	auto* sb = in.rdbuf();
	int c = sb->sgetc();
	while (c != -1 && !rtSpace(c)) { s.push_back((char) c); c = sb->snextc(); }
	if (c == -1) err |= ios_base::eofbit;
	if (s.empty()) err |= ios_base::failbit;
	if (err) in.setstate(err);
	return in;
}
template<> basic_istream<char>& getline(basic_istream<char>& in, string& s, char delim) {
	basic_istream<char>::sentry cerb(in, true);
	if (!cerb) return in;
	ios_base::iostate err = ios_base::goodbit;
	s.clear();
	auto* sb = in.rdbuf();
	bool got = false;
	int c = sb->sgetc();
	for (;;) {
		if (c == -1) { err |= ios_base::eofbit; break; }
		got = true;
		if (c == (unsigned char) delim) { sb->sbumpc(); break; }
		s.push_back((char) c);
		c = sb->snextc();
	}
	if (!got) err |= ios_base::failbit;
	if (err) in.setstate(err);
	return in;
}
template<> basic_ostream<char>& __ostream_insert(basic_ostream<char>& o, char const* s, streamsize n) {
	if (o.good()) {
		streamsize w = o.width();
		if (w <= n) o.rdbuf()->sputn(s, n);
		else {
			bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
			if (!left) for (streamsize i = n; i < w; ++i) o.rdbuf()->sputc(' ');
			o.rdbuf()->sputn(s, n);
			if (left) for (streamsize i = n; i < w; ++i) o.rdbuf()->sputc(' ');
		}
		o.width(0);
	} else o.setstate(ios_base::badbit);
	return o;
}
static void putInt(basic_ostream<char>& o, bool neg, unsigned long long u, bool plus) {
	char tmp[40];
	size_t n = 0;
	auto bf = o.flags() & ios_base::basefield;
	if (bf == ios_base::hex || bf == ios_base::oct) {
		unsigned sh = bf == ios_base::hex ? 4 : 3;
		unsigned long long w = u;
		size_t k = 1;
		while (w >> sh) { w >>= sh; ++k; }
		n = k;
		for (size_t i = k; i > 0; --i) {
			unsigned d = (unsigned) (u & ((1u << sh) - 1));
			tmp[i - 1] = (char) (d < 10 ? '0' + d : ((o.flags() & ios_base::uppercase) ? 'A' : 'a') + d - 10);
			u >>= sh;
		}
	} else {
		if (neg) tmp[n++] = '-';
		else if (plus && (o.flags() & ios_base::showpos)) tmp[n++] = '+';
		unsigned k = zse_rt_dec_len(u, 10);
		zse_rt_dec_digits(tmp + n, k, u);
		n += k;
	}
	__ostream_insert(o, (char const*) tmp, (streamsize) n);
}
static void putFloat(basic_ostream<char>& o, double d) {
	char fs[16];
	size_t k = 0;
	fs[k++] = '%';
	long prec = o.precision();
	auto ff = o.flags() & ios_base::floatfield;
	if (prec < 0 || prec > 99) zse_giveup("ostream-precision");
	if (ff != (ios_base::fixed | ios_base::scientific)) {
		fs[k++] = '.';
		if (prec >= 10) fs[k++] = (char) ('0' + prec / 10);
		fs[k++] = (char) ('0' + prec % 10);
	}
	fs[k++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : ff == (ios_base::fixed | ios_base::scientific) ? 'a' : 'g';
	fs[k] = 0;
	char tmp[420];
	int n = zse_fmt_double(tmp, sizeof tmp, fs, d);
	__ostream_insert(o, (char const*) tmp, (streamsize) n);
}
#define OI(T) template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert<T>(T v) { if constexpr (std::is_signed_v<T>) putInt(*this, v < 0 && (flags() & basefield) != hex && (flags() & basefield) != oct, (v < 0 && (flags() & basefield) != hex && (flags() & basefield) != oct) ? 0 - (unsigned long long) v : (unsigned long long) v, true); else putInt(*this, false, v, false); return *this; }
OI(long) OI(unsigned long) OI(long long) OI(unsigned long long)
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert<bool>(bool v) { putInt(*this, false, v, false); return *this; }
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert<double>(double v) { putFloat(*this, v); return *this; }
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert<long double>(long double v) { putFloat(*this, (double) v); return *this; }
template<> basic_ostream<char>& basic_ostream<char>::operator<<(int v) {
	auto bf = flags() & basefield;
	if (bf == oct || bf == hex) return _M_insert((unsigned long) (unsigned) v);
	return _M_insert((long) v);
}
template<> basic_ostream<char>& basic_ostream<char>::operator<<(short v) {
	auto bf = flags() & basefield;
	if (bf == oct || bf == hex) return _M_insert((unsigned long) (unsigned short) v);
	return _M_insert((long) v);
}
template<> basic_ostream<char>::sentry::sentry(basic_ostream& o) : _M_ok(false), _M_os(o) { if (o.good()) _M_ok = true; else if (o.bad()) o.setstate(failbit); }
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int_type delim) {
	_M_gcount = 0;
	sentry cerb(*this, true);
	if (!cerb) return *this;
	auto* sb = rdbuf();
	int c = sb->sgetc();
	while (_M_gcount < n) {
		if (c == -1) { setstate(eofbit); break; }
		++_M_gcount;
		if (c == delim) { sb->sbumpc(); break; }
		c = sb->snextc();
	}
	return *this;
}
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n) { return ignore(n, -1); }
template<> basic_istream<char>& basic_istream<char>::ignore() { return ignore(1, -1); }

template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template basic_istream<char>& operator>>(basic_istream<char>&, char&);
template basic_istream<char>& operator>>(basic_istream<char>&, unsigned char&);
template basic_istream<char>& ws(basic_istream<char>&);
template basic_ostream<char>& operator<<(basic_ostream<char>&, char const*);
template basic_ostream<char>& operator<<(basic_ostream<char>&, char);
template basic_ostream<char>& operator<<(basic_ostream<char>&, unsigned char);
template basic_ostream<char>& endl(basic_ostream<char>&);
template basic_ostream<char>& flush(basic_ostream<char>&);
template class __cxx11::basic_string<char>;
// ios init for the stream globals some translation units pull in
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { static long long n = 0; n += 70; return time_point(duration(1700000000000000000ll + n)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000ll)); }
} }
from_chars_result from_chars(char const* f, char const* l, float& v, chars_format) noexcept {
	char tmp[128]; size_t n = (size_t) (l - f); if (n > 120) zse_giveup("from_chars-length");
	for (size_t i = 0; i < n; ++i) tmp[i] = f[i];
	tmp[n] = 0;
	if (n && (rtSpace((unsigned char) tmp[0]) || tmp[0] == '+')) return {f, errc::invalid_argument};
	size_t used = 0; uint32_t b = (uint32_t) zse_strtod(tmp, &used, 1);
	if (!used) return {f, errc::invalid_argument};
	memcpy(&v, &b, 4);
	return {f + used, errc()};
}
from_chars_result from_chars(char const* f, char const* l, double& v, chars_format) noexcept {
	char tmp[128]; size_t n = (size_t) (l - f); if (n > 120) zse_giveup("from_chars-length");
	for (size_t i = 0; i < n; ++i) tmp[i] = f[i];
	tmp[n] = 0;
	if (n && (rtSpace((unsigned char) tmp[0]) || tmp[0] == '+')) return {f, errc::invalid_argument};
	size_t used = 0; uint64_t b = zse_strtod(tmp, &used, 0);
	if (!used) return {f, errc::invalid_argument};
	memcpy(&v, &b, 8);
	return {f + used, errc()};
}
} // namespace std
