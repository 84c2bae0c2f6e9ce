// C library model for the symbolic executor. Everything here is part of the
// stated environment of the checks (DESIGN.md, "Environment").
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
typedef long time_t;
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long tm_gmtoff; const char* tm_zone; };

extern "C" {
void* memcpy(void*, const void*, size_t);
void* memset(void*, int, size_t);
size_t strlen(const char*);
void zse_make_symbolic(void*, size_t, const char*);
void zse_assume(int);
void zse_giveup(const char*);
int zse_is_symbolic(uint64_t);
void zse_define(unsigned long long, unsigned long long);
void zse_dec_model(void*, unsigned long long, unsigned long long);
uint64_t zse_concretize(uint64_t);
int zse_fmt_double(char*, size_t, const char*, double);
uint64_t zse_strtod(const char*, size_t*, int);
void* malloc(size_t);
void* realloc(void*, size_t);
void free(void*);

int zse_rt_errno = 0;
int* __errno_location() { return &zse_rt_errno; }
char __libc_single_threaded = 1;
// the environment holds only what the harness sets (setenv; up to four variables)
static struct { char name[16]; char value[64]; bool set; } zse_env[4];
static bool zse_env_is(unsigned i, const char* n) {
	for (unsigned k = 0; k < 16; ++k) { if (zse_env[i].name[k] != n[k]) return false; if (!n[k]) return true; }
	return false;
}
char* getenv(const char* n) {
	for (unsigned i = 0; i < 4; ++i) if (zse_env[i].set && zse_env_is(i, n)) return zse_env[i].value;
	return nullptr;
}
int unsetenv(const char* n) {
	for (unsigned i = 0; i < 4; ++i) if (zse_env[i].set && zse_env_is(i, n)) zse_env[i].set = false;
	return 0;
}
int setenv(const char* n, const char* v, int) {
	unsetenv(n);
	for (unsigned i = 0; i < 4; ++i) {
		if (zse_env[i].set) continue;
		unsigned k = 0;
		for (; n[k] && k < 15; ++k) zse_env[i].name[k] = n[k];
		zse_env[i].name[k] = 0;
		for (k = 0; v[k] && k < 63; ++k) zse_env[i].value[k] = v[k];
		zse_env[i].value[k] = 0;
		zse_env[i].set = true;
		return 0;
	}
	return -1;
}
int atexit(void (*)()) { return 0; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int pthread_mutex_lock(void*) { return 0; }
int pthread_mutex_unlock(void*) { return 0; }
int pthread_once(int* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }

// ------------------------------------------------------------ memory/strings
int memcmp(const void* a, const void* b, size_t n) {
	auto* p = (const unsigned char*) a; auto* q = (const unsigned char*) b;
	int r = 0;
	while (n > 0) { --n; int d = (int) p[n] - (int) q[n]; r = d != 0 ? d : r; }
	return r;
}
int bcmp(const void* a, const void* b, size_t n) {
	auto* p = (const unsigned char*) a; auto* q = (const unsigned char*) b;
	unsigned r = 0;
	for (size_t i = 0; i < n; ++i) r |= p[i] ^ q[i];
	return (int) r;
}
void* memchr(const void* a, int c, size_t n) {
	auto* p = (const unsigned char*) a;
	for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char) c) return (void*) (p + i);
	return nullptr;
}
void* memrchr(const void* a, int c, size_t n) {
	auto* p = (const unsigned char*) a;
	while (n > 0) { --n; if (p[n] == (unsigned char) c) return (void*) (p + n); }
	return nullptr;
}
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int strcmp(const char* a, const char* b) {
	for (;; ++a, ++b) {
		unsigned char x = *a, y = *b;
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
}
int strncmp(const char* a, const char* b, size_t n) {
	for (; n; ++a, ++b, --n) {
		unsigned char x = *a, y = *b;
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	return 0;
}
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char) c) return (char*) s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char) c) r = s; if (!*s) return (char*) r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
size_t strspn(const char* s, const char* set) { size_t i = 0; while (s[i] && strchr(set, s[i])) ++i; return i; }
size_t strcspn(const char* s, const char* set) { size_t i = 0; while (s[i] && !strchr(set, s[i])) ++i; return i; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*) s : nullptr; }
char* strstr(const char* h, const char* n) {
	size_t l = strlen(n);
	for (;; ++h) { if (strncmp(h, n, l) == 0) return (char*) h; if (!*h) return nullptr; }
}
void* memmem(const void* h, size_t hn, const void* n, size_t nn) {
	for (size_t i = 0; i + nn <= hn; ++i) if (bcmp((const char*) h + i, n, nn) == 0) return (void*) ((const char*) h + i);
	return nullptr;
}
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*) malloc(n); memcpy(r, s, n); return r; }
static char* g_tok;
char* strtok_r(char* s, const char* delim, char** save) {
	if (!s) s = *save;
	s += strspn(s, delim);
	if (!*s) { *save = s; return nullptr; }
	char* e = s + strcspn(s, delim);
	if (*e) { *e = 0; *save = e + 1; } else *save = e;
	return s;
}
char* strtok(char* s, const char* delim) { if (!s && !g_tok) return nullptr; return strtok_r(s, delim, &g_tok); }

// ------------------------------------------------------------ ctype ("C" locale)
int isdigit(int c) { return (unsigned) (c - '0') < 10; }
int isupper(int c) { return (unsigned) (c - 'A') < 26; }
int islower(int c) { return (unsigned) (c - 'a') < 26; }
int isalpha(int c) { return (unsigned) ((c | 32) - 'a') < 26; }
int isalnum(int c) { return ((unsigned) ((c | 32) - 'a') < 26) | ((unsigned) (c - '0') < 10); }
int isspace(int c) { return (c == ' ') | ((unsigned) (c - 9) < 5); }
int isxdigit(int c) { return ((unsigned) (c - '0') < 10) | ((unsigned) ((c | 32) - 'a') < 6); }
int isprint(int c) { return (unsigned) (c - 32) < 95; }
int iscntrl(int c) { return ((unsigned) c < 32) | (c == 127); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isgraph(int c) { return (unsigned) (c - 33) < 94; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return c + (((unsigned) (c - 'A') < 26) ? 32 : 0); }
int toupper(int c) { return c - (((unsigned) (c - 'a') < 26) ? 32 : 0); }
int strcasecmp(const char* a, const char* b) {
	for (;; ++a, ++b) {
		int x = tolower((unsigned char) *a), y = tolower((unsigned char) *b);
		if (x != y) return x - y;
		if (!x) return 0;
	}
}
int strncasecmp(const char* a, const char* b, size_t n) {
	for (; n; ++a, ++b, --n) {
		int x = tolower((unsigned char) *a), y = tolower((unsigned char) *b);
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}

// ------------------------------------------------------------ decimal numbers
// For a symbolic value the digits are fresh solver variables constrained to the
// unique decimal expansion, in the same (Horner) form a parser computes.
unsigned zse_rt_dec_len(unsigned long long v, int base) noexcept {
	unsigned n = 1;
	unsigned long long lim = base;
	while (v >= lim) {
		++n;
		if (lim > ~0ull / base) break;
		lim *= base;
	}
	return n;
}
void zse_rt_dec_digits(char* first, unsigned len, unsigned long long v) noexcept {
	if (!zse_is_symbolic(v)) {
		for (unsigned i = len; i > 0; --i) { first[i - 1] = (char) ('0' + v % 10); v /= 10; }
		return;
	}
	unsigned char d[24];
	zse_make_symbolic(d, len, "rt:digits");
	zse_dec_model(d, len, v);
	unsigned long long acc = 0;
	for (unsigned i = 0; i < len; ++i) {
		zse_assume((unsigned char) (d[i] - '0') < 10);
		acc = acc * 10 + (unsigned) (d[i] - '0');
	}
	zse_define(acc, v);
	for (unsigned i = 0; i < len; ++i) first[i] = (char) d[i];
}
static int digitOf(char c) {
	if ((unsigned) (c - '0') < 10) return c - '0';
	if ((unsigned) ((c | 32) - 'a') < 26) return (c | 32) - 'a' + 10;
	return 99;
}
static bool parseInt(const char* s, char** end, int base, bool& neg, unsigned long long& v, bool& over) {
	const char* p = s;
	while (isspace((unsigned char) *p)) ++p;
	neg = false;
	over = false;
	v = 0;
	if (*p == '-') { neg = true; ++p; }
	else if (*p == '+') ++p;
	if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { p += 2; base = 16; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	const char* st = p;
	unsigned n = 0;
	if (base == 10) {
		for (;; ++p, ++n) {
			if ((unsigned char) (*p - '0') >= 10) break;
			unsigned d = (unsigned) ((unsigned char) *p - '0');
			if (n >= 18) { if (v > (~0ull - d) / 10) over = true; }
			v = v * 10 + d;
		}
	} else {
		for (;; ++p, ++n) {
			int d = digitOf(*p);
			if (d >= base) break;
			if (n >= 10) { if (v > (~0ull - d) / (unsigned) base) over = true; }
			v = v * (unsigned) base + (unsigned) d;
		}
	}
	if (p == st) { if (end) *end = (char*) s; return false; }
	if (end) *end = (char*) p;
	return true;
}
long strtol(const char* s, char** end, int base) {
	bool neg, over;
	unsigned long long v;
	if (!parseInt(s, end, base, neg, v, over)) return 0;
	if (over || v > 0x7FFFFFFFFFFFFFFFull + (neg ? 1 : 0)) { zse_rt_errno = 34; return neg ? (long) (1ull << 63) : 0x7FFFFFFFFFFFFFFFl; }
	return (long) (neg ? 0 - v : v);
}
unsigned long strtoul(const char* s, char** end, int base) {
	bool neg, over;
	unsigned long long v;
	if (!parseInt(s, end, base, neg, v, over)) return 0;
	if (over) { zse_rt_errno = 34; return ~0ul; }
	return neg ? 0 - v : v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int) strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
float strtof(const char* s, char** end) {
	size_t n = 0;
	uint32_t b = (uint32_t) zse_strtod(s, &n, 1);
	if (end) *end = (char*) s + n;
	float f;
	memcpy(&f, &b, 4);
	if (f - f != 0 && n && isdigit((unsigned char) s[n - 1])) zse_rt_errno = 34;
	return f;
}
double strtod(const char* s, char** end) {
	size_t n = 0;
	uint64_t b = zse_strtod(s, &n, 0);
	if (end) *end = (char*) s + n;
	double f;
	memcpy(&f, &b, 8);
	return f;
}
double atof(const char* s) { return strtod(s, nullptr); }

// ------------------------------------------------------------ printf
struct Out { char* b; size_t cap; size_t n; };
static void put(Out& o, char c) { if (o.n + 1 < o.cap) o.b[o.n] = c; ++o.n; }
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
	Out o {buf, cap, 0};
	for (; *f; ++f) {
		if (*f != '%') { put(o, *f); continue; }
		++f;
		if (*f == '%') { put(o, '%'); continue; }
		bool left = false, zero = false, plus = false, space = false, alt = false;
		for (;; ++f) {
			if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true;
			else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break;
		}
		long width = 0, prec = -1;
		if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } ++f; }
		else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
		if (*f == '.') {
			++f; prec = 0;
			if (*f == '*') { prec = va_arg(ap, int); ++f; }
			else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0');
		}
		int lm = 0;
		for (;; ++f) {
			if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lm = 1;
			else if (*f == 'h') lm = lm == -1 ? -2 : -1;
			else break;
		}
		char tmp[80];
		const char* s = tmp;
		size_t n = 0;
		const char* pre = "";
		bool num = false;
		switch (*f) {
		case 'c': tmp[0] = (char) va_arg(ap, int); n = 1; break;
		case 's':
			s = va_arg(ap, const char*);
			if (!s) s = "(null)";
			n = prec >= 0 ? strnlen(s, (size_t) prec) : strlen(s);
			break;
		case 'd': case 'i': {
			long long v = lm == 1 ? va_arg(ap, long) : va_arg(ap, int);
			if (lm == -1) v = (short) v; else if (lm == -2) v = (signed char) v;
			unsigned long long u = (unsigned long long) v;
			if (v < 0) { pre = "-"; u = 0 - u; } else if (plus) pre = "+"; else if (space) pre = " ";
			n = zse_rt_dec_len(u, 10);
			zse_rt_dec_digits(tmp, (unsigned) n, u);
			num = true;
			break;
		}
		case 'u': {
			unsigned long long u = lm == 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			if (lm == -1) u = (unsigned short) u; else if (lm == -2) u = (unsigned char) u;
			n = zse_rt_dec_len(u, 10);
			zse_rt_dec_digits(tmp, (unsigned) n, u);
			num = true;
			break;
		}
		case 'x': case 'X': case 'o': case 'p': {
			unsigned long long u = (lm == 1 || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			if (lm == -1) u = (unsigned short) u; else if (lm == -2) u = (unsigned char) u;
			unsigned sh = *f == 'o' ? 3 : 4;
			unsigned long long w = u;
			n = 1;
			while (w >> sh) { w >>= sh; ++n; }
			for (size_t i = n; i > 0; --i) {
				unsigned d = (unsigned) (u & ((1u << sh) - 1));
				tmp[i - 1] = (char) (d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10);
				u >>= sh;
			}
			if (*f == 'p' || (alt && sh == 4)) pre = "0x";
			num = true;
			break;
		}
		case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': case 'A': {
			double d = va_arg(ap, double);
			char fs[16];
			size_t k = 0;
			fs[k++] = '%';
			if (alt) fs[k++] = '#';
			if (plus) fs[k++] = '+';
			if (prec >= 0) {
				fs[k++] = '.';
				if (prec >= 100) zse_giveup("printf-precision");
				if (prec >= 10) fs[k++] = (char) ('0' + prec / 10);
				fs[k++] = (char) ('0' + prec % 10);
			}
			fs[k++] = *f;
			fs[k] = 0;
			static char big[420];
			n = (size_t) zse_fmt_double(big, sizeof big, fs, d);
			s = big;
			break;
		}
		case 'n': default: zse_giveup("printf-conversion");
		}
		size_t pl = strlen(pre), total = n + pl, z = 0;
		if (num && prec >= 0 && (size_t) prec > n) { z = (size_t) prec - n; total += z; }
		else if (zero && !left && prec < 0 && (size_t) width > total && num) { z = (size_t) width - total; total = (size_t) width; }
		if (!left) for (size_t i = total; i < (size_t) width; ++i) put(o, ' ');
		for (size_t i = 0; i < pl; ++i) put(o, pre[i]);
		for (size_t i = 0; i < z; ++i) put(o, '0');
		for (size_t i = 0; i < n; ++i) put(o, s[i]);
		if (left) for (size_t i = total; i < (size_t) width; ++i) put(o, ' ');
	}
	if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
	return (int) o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
struct RtFile;
RtFile* stderr = nullptr;
RtFile* stdout = nullptr;
RtFile* stdin = nullptr;
int fprintf(RtFile*, const char*, ...) { return 0; }
int vfprintf(RtFile*, const char*, va_list) { return 0; }
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int fputs(const char*, RtFile*) { return 0; }

// ------------------------------------------------------------ sscanf
static int vscan(const char* s, const char* f, va_list ap) {
	const char* s0 = s;
	int got = 0;
	for (; *f; ++f) {
		if (isspace((unsigned char) *f)) { while (isspace((unsigned char) *s)) ++s; continue; }
		if (*f != '%') { if (!*s) return got ? got : -1; if (*s != *f) return got; ++s; continue; }
		++f;
		if (*f == '%') { while (isspace((unsigned char) *s)) ++s; if (*s != '%') return got; ++s; continue; }
		bool skip = false;
		if (*f == '*') { skip = true; ++f; }
		size_t width = 0;
		while (isdigit((unsigned char) *f)) width = width * 10 + (size_t) (*f++ - '0');
		int lm = 0;
		for (;; ++f) {
			if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lm = 1;
			else if (*f == 'h') lm = lm == -1 ? -2 : -1;
			else break;
		}
		if (*f != 'c' && *f != '[' && *f != 'n') while (isspace((unsigned char) *s)) ++s;
		switch (*f) {
		case 's': {
			if (!*s) return got ? got : -1;
			char* d = skip ? nullptr : va_arg(ap, char*);
			size_t n = 0;
			while (*s && !isspace((unsigned char) *s) && (!width || n < width)) { if (d) d[n] = *s; ++n; ++s; }
			if (d) d[n] = 0;
			if (!skip) ++got;
			break;
		}
		case '[': {
			++f;
			bool inv = false;
			if (*f == '^') { inv = true; ++f; }
			const char* set = f;
			if (*f == ']') ++f;
			while (*f && *f != ']') ++f;
			if (!*s) return got ? got : -1;
			char* d = skip ? nullptr : va_arg(ap, char*);
			size_t n = 0;
			while (*s && (!width || n < width)) {
				bool in = false;
				for (const char* q = set; q < f; ++q) {
					if (q + 2 < f && q[1] == '-') { if ((unsigned char) *s >= (unsigned char) q[0] && (unsigned char) *s <= (unsigned char) q[2]) in = true; q += 2; }
					else if (*s == *q) in = true;
				}
				if (in == inv) break;
				if (d) d[n] = *s;
				++n; ++s;
			}
			if (!n) return got;
			if (d) d[n] = 0;
			if (!skip) ++got;
			break;
		}
		case 'c': {
			size_t n = width ? width : 1;
			char* d = skip ? nullptr : va_arg(ap, char*);
			for (size_t i = 0; i < n; ++i) { if (!*s) return got ? got : -1; if (d) d[i] = *s; ++s; }
			if (!skip) ++got;
			break;
		}
		case 'n': *va_arg(ap, int*) = (int) (s - s0); break;
		case 'd': case 'u': case 'x': case 'X': case 'i': case 'o': {
			if (!*s) return got ? got : -1;
			char tmp[64];
			const char* src = s;
			if (width && width < sizeof tmp) { size_t n = strnlen(s, width); memcpy(tmp, s, n); tmp[n] = 0; src = tmp; }
			bool neg, over;
			unsigned long long v;
			char* end;
			int base = (*f == 'd' || *f == 'u') ? 10 : (*f == 'i' ? 0 : (*f == 'o' ? 8 : 16));
			if (!parseInt(src, &end, base, neg, v, over)) return got;
			if (*f == 'd' || *f == 'i') {
				unsigned long long lim = 0x7FFFFFFFFFFFFFFFull + (neg ? 1 : 0);
				if (over || v > lim) v = lim;
			} else if (over) { v = ~0ull; neg = false; }
			if (neg) v = 0 - v;
			s += end - src;
			if (skip) break;
			void* d = va_arg(ap, void*);
			if (lm == 1) *(uint64_t*) d = v;
			else if (lm == 0) *(uint32_t*) d = (uint32_t) v;
			else if (lm == -1) *(uint16_t*) d = (uint16_t) v;
			else *(uint8_t*) d = (uint8_t) v;
			++got;
			break;
		}
		case 'f': case 'g': case 'e': {
			if (!*s) return got ? got : -1;
			char* end;
			if (lm == 1) { double v = strtod(s, &end); if (end == s) return got; if (!skip) *va_arg(ap, double*) = v; }
			else { float v = strtof(s, &end); if (end == s) return got; if (!skip) *va_arg(ap, float*) = v; }
			s = end;
			if (!skip) ++got;
			break;
		}
		default: zse_giveup("scanf-conversion");
		}
	}
	return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }

// ------------------------------------------------------------ stdio: in-memory temporary files
struct RtFile { char* data; size_t size, cap, pos; bool eof, err; };
RtFile* tmpfile() { RtFile* f = (RtFile*) malloc(sizeof(RtFile)); memset(f, 0, sizeof *f); return f; }
RtFile* fopen(const char*, const char*) { zse_giveup("fopen"); return nullptr; }
int fclose(RtFile* f) { free(f->data); free(f); return 0; }
int fflush(RtFile*) { return 0; }
int feof(RtFile* f) { return f->eof; }
int ferror(RtFile* f) { return f->err; }
void clearerr(RtFile* f) { f->eof = f->err = false; }
size_t fread(void* d, size_t sz, size_t n, RtFile* f) {
	size_t want = sz * n, have = f->pos < f->size ? f->size - f->pos : 0;
	if (!want) return 0;
	if (want > have) { f->eof = true; want = have; }
	memcpy(d, f->data + f->pos, want);
	f->pos += want;
	return want / sz;
}
size_t fwrite(const void* d, size_t sz, size_t n, RtFile* f) {
	size_t len = sz * n;
	if (!len) return 0;
	if (f->pos + len > f->cap) {
		size_t nc = (f->pos + len) * 2 + 64;
		f->data = (char*) realloc(f->data, nc);
		f->cap = nc;
	}
	for (size_t i = f->size; i < f->pos; ++i) f->data[i] = 0;
	memcpy(f->data + f->pos, d, len);
	f->pos += len;
	if (f->pos > f->size) f->size = f->pos;
	return n;
}
int fseek(RtFile* f, long off, int wh) {
	long base = wh == 0 ? 0 : (wh == 1 ? (long) f->pos : (long) f->size);
	if (base + off < 0) { zse_rt_errno = 22; return -1; }
	f->pos = (size_t) (base + off);
	f->eof = false;
	return 0;
}
int fseeko(RtFile* f, long off, int wh) { return fseek(f, off, wh); }
long ftell(RtFile* f) { return (long) f->pos; }
long ftello(RtFile* f) { return (long) f->pos; }
void rewind(RtFile* f) { f->pos = 0; f->eof = f->err = false; }
int fgetc(RtFile* f) { if (f->pos >= f->size) { f->eof = true; return -1; } return (unsigned char) f->data[f->pos++]; }
int getc(RtFile* f) { return fgetc(f); }
int fputc(int c, RtFile* f) { char b = (char) c; fwrite(&b, 1, 1, f); return (unsigned char) b; }
int ungetc(int c, RtFile* f) { if (c == -1 || !f->pos) return -1; f->data[--f->pos] = (char) c; f->eof = false; return c; }

// ------------------------------------------------------------ time (a zone without daylight saving, UTC by default)
static long g_tz = 0; // seconds east of UTC
void zse_set_zone(int minutes) { g_tz = (long) minutes * 60; }
static time_t g_now = 1700000000;
void zse_set_clock(long long t) { g_now = (time_t) t; }
time_t time(time_t* t) { time_t v = g_now; if (t) *t = v; return v; }
static tm g_tm;
static long daysFromCivil(long y, long m, long d) {
	y -= m <= 2;
	long era = (y >= 0 ? y : y - 399) / 400;
	long yoe = y - era * 400;
	long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
tm* gmtime_r(const time_t* tp, tm* r) {
	time_t t = *tp; // one path per day; the time of the day stays symbolic
	long days = t / 86400;
	if (t % 86400 < 0) --days;
	days = (long) zse_concretize((uint64_t) days);
	unsigned rem = (unsigned) (t - days * 86400);
	memset(r, 0, sizeof *r);
	r->tm_hour = (int) (rem / 3600);
	r->tm_min = (int) (rem % 3600 / 60);
	r->tm_sec = (int) (rem % 60);
	r->tm_wday = (int) ((days % 7 + 11) % 7);
	long z = days + 719468;
	long era = (z >= 0 ? z : z - 146096) / 146097;
	long doe = z - era * 146097;
	long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	long y = yoe + era * 400;
	long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	long mp = (5 * doy + 2) / 153;
	long d = doy - (153 * mp + 2) / 5 + 1;
	long m = mp < 10 ? mp + 3 : mp - 9;
	y += m <= 2;
	r->tm_year = (int) (y - 1900);
	r->tm_mon = (int) (m - 1);
	r->tm_mday = (int) d;
	r->tm_yday = (int) (days - daysFromCivil(y, 1, 1));
	return r;
}
tm* gmtime(const time_t* t) { return gmtime_r(t, &g_tm); }
tm* localtime_r(const time_t* t, tm* r) { time_t l = *t + g_tz; return gmtime_r(&l, r); }
tm* localtime(const time_t* t) { return localtime_r(t, &g_tm); }
time_t timegm(tm* t) {
	long mon = (long) (int) zse_concretize((uint64_t) (long) t->tm_mon), year = (long) (int) zse_concretize((uint64_t) (long) t->tm_year) + 1900;
	year += mon / 12;
	mon %= 12;
	if (mon < 0) { mon += 12; --year; }
	long days = daysFromCivil(year, mon + 1, 1) + t->tm_mday - 1;
	time_t r = days * 86400 + (long) t->tm_hour * 3600 + (long) t->tm_min * 60 + t->tm_sec;
	return r;
}
time_t mktime(tm* t) { return timegm(t) - g_tz; }
size_t strftime(char* b, size_t n, const char* f, const tm* t) { // numeric conversions only
	size_t k = 0;
	auto put = [&](char c) { if (k < n) b[k] = c; ++k; };
	for (; *f; ++f) {
		if (*f != '%') { put(*f); continue; }
		bool pad = true;
		if (*++f == '-') { pad = false; ++f; }
		int v = 0, w = 2;
		switch (*f) {
		case 'd': v = t->tm_mday; break;
		case 'm': v = t->tm_mon + 1; break;
		case 'H': v = t->tm_hour; break;
		case 'M': v = t->tm_min; break;
		case 'S': v = t->tm_sec; break;
		case 'Y': v = t->tm_year + 1900; w = 4; break;
		case '%': put('%'); continue;
		default: zse_giveup("strftime conversion");
		}
		char d[4];
		for (int i = 3; i >= 0; --i) { d[i] = (char) ('0' + v % 10); v /= 10; }
		int i = 4 - w;
		if (!pad) while (i < 3 && d[i] == '0') ++i;
		for (; i < 4; ++i) put(d[i]);
	}
	if (k >= n) return 0;
	b[k] = 0;
	return k;
}

// ------------------------------------------------------------ not modelled

void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
	char* p = (char*) b;
	for (size_t i = 1; i < n; ++i)
		for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; --j)
			for (size_t k = 0; k < sz; ++k) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; }
}
}

// ------------------------------------------------------------ squish (binary only: contract model)
namespace squish {
static int blockSize(int flags) { return (flags & 1) ? 8 : 16; }
int GetStorageRequirements(int w, int h, int flags) { return ((w + 3) / 4) * ((h + 3) / 4) * blockSize(flags); }
void DecompressImage(unsigned char* rgba, int w, int h, void const* blocks, int flags) {
	// memory contract only: reads every block, writes every pixel with arbitrary contents
	int n = GetStorageRequirements(w, h, flags);
	unsigned char x = 0;
	for (int i = 0; i < n; ++i) x ^= ((unsigned char const*) blocks)[i];
	volatile unsigned char sink = x; (void) sink;
	if (w > 0 && h > 0) zse_make_symbolic(rgba, (size_t) w * (size_t) h * 4, "rt:squish");
}
void CompressImage(unsigned char const* rgba, int w, int h, void* blocks, int flags, float*) {
	unsigned char x = 0;
	for (long i = 0; i < (long) w * h * 4; ++i) x ^= rgba[i];
	volatile unsigned char sink = x; (void) sink;
	int n = GetStorageRequirements(w, h, flags);
	if (n > 0) zse_make_symbolic(blocks, (size_t) n, "rt:squish");
}
}
