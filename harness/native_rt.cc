#include <fcntl.h>
// Native replay of a solver assignment: make_symbolic hands out the recorded bytes.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <ctime>
#include <unistd.h>
#include <csignal>
#include <ftw.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
// With ZSE_GUARD every allocation lies between two large poisoned areas, so that accesses far outside of an object are seen too.
#include <new>
#include <sanitizer/asan_interface.h>
static constexpr size_t GUARD = 1 << 16;
static bool guarded() { static bool g = getenv("ZSE_GUARD") != nullptr; return g; }
static void* guarded_new(size_t n) {
	if (!guarded()) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
	if (n > (size_t(1) << 40)) throw std::bad_alloc();
	char* p = (char*) malloc(n + 2 * GUARD);
	if (!p) throw std::bad_alloc();
	__asan_poison_memory_region(p, GUARD);
	__asan_poison_memory_region(p + GUARD + n, GUARD);
	return p + GUARD;
}
static void guarded_delete(void* p) { if (p) free(guarded() ? (char*) p - GUARD : p); }
void* operator new(size_t n) { return guarded_new(n); }
void* operator new[](size_t n) { return guarded_new(n); }
void operator delete(void* p) noexcept { guarded_delete(p); }
void operator delete[](void* p) noexcept { guarded_delete(p); }
void operator delete(void* p, size_t) noexcept { guarded_delete(p); }
void operator delete[](void* p, size_t) noexcept { guarded_delete(p); }
#endif
#endif
struct Rec { std::string name; std::vector<unsigned char> b; };
static std::vector<Rec> g_recs;
static size_t g_next;
static std::map<std::string, void (*)()>& table() { static std::map<std::string, void (*)()> t; return t; }
static bool g_end;
extern "C" {
void zse_register(char const* n, void (*f)()) { table()[n] = f; }
void zse_make_symbolic(void* p, size_t n, char const* name) {
	while (g_next < g_recs.size() && g_recs[g_next].name.rfind("rt:", 0) == 0) ++g_next;
	if (g_next >= g_recs.size()) { memset(p, 0, n); return; }
	Rec& r = g_recs[g_next++];
	if (r.name != name || r.b.size() != n) { fprintf(stderr, "REPLAY: input mismatch: wanted %s/%zu, recorded %s/%zu\n", name, n, r.name.c_str(), r.b.size()); fflush(stderr); _exit(76); }
	memcpy(p, r.b.data(), n);
}
void zse_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); fflush(stderr); _exit(77); } }
void zse_assert(int c, char const* m) { if (!c) { fprintf(stderr, "REPLAY: ASSERTION FAILED: %s\n", m); fflush(stderr); _exit(99); } }
void zse_reached(char const* m) { if (!strcmp(m, "end")) g_end = true; }
uint64_t zse_concretize(uint64_t v) { return v; }
int zse_same(void const* a, void const* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
void zse_set_zone(int minutes) {
	char b[32];
	int m = minutes < 0 ? -minutes : minutes;
	snprintf(b, sizeof b, "ZSE%c%d:%02d", minutes < 0 ? '+' : '-', m / 60, m % 60);
	setenv("TZ", b, 1);
	tzset();
}
int zse_native() { return 1; }
// A fresh directory. What follows runs as an unprivileged user that owns nothing else, in a child process; the parent removes the directory.
static int rm_entry(char const* p, struct stat const*, int, struct FTW*) { return remove(p); }
char const* zse_scratch() {
	static char dir[] = "/tmp/zse-XXXXXX";
	static bool done = false;
	if (done) return dir;
	done = true;
	if (!mkdtemp(dir)) _exit(2);
	pid_t c = fork();
	if (c < 0) _exit(2);
	if (c > 0) {
		int st = 0;
		while (waitpid(c, &st, 0) < 0) {}
		nftw(dir, rm_entry, 16, FTW_DEPTH | FTW_PHYS);
		if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
		_exit(WEXITSTATUS(st));
	}
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (geteuid() == 0) {
		if (chown(dir, 65534, 65534) || setgroups(0, nullptr) || setgid(65534) || setuid(65534) || setuid(0) == 0) { fprintf(stderr, "REPLAY: cannot give up privileges\n"); fflush(stderr); _exit(2); }
	}
	if (chdir(dir)) _exit(2);
	return dir;
}
unsigned zse_open_files() { unsigned n = 0; for (int i = 3; i < 256; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
static time_t g_now = 1700000000;
void zse_set_clock(long long t) { g_now = (time_t) t; }
time_t time(time_t* t) noexcept { time_t v = g_now; if (t) *t = v; return v; } // as in the environment model
unsigned zse_rt_dec_len(unsigned long long v, int base) noexcept { unsigned n = 1; while (v >= (unsigned) base) { v /= (unsigned) base; ++n; } return n; }
void zse_rt_dec_digits(char* f, unsigned len, unsigned long long v) noexcept { for (unsigned i = len; i > 0; --i) { f[i - 1] = (char) ('0' + v % 10); v /= 10; } }
}
// hash containers iterate in the same order as in the environment model (one bucket)
#include <unordered_map>
namespace std::__detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}
int main(int argc, char** argv) {
	if (argc < 3) { for (auto& p : table()) puts(p.first.c_str()); return 2; }
	FILE* f = fopen(argv[2], "r");
	if (!f) return 2;
	static char line[1 << 22];
	while (fgets(line, sizeof line, f)) {
		char* name = strtok(line, " \n");
		if (!name || name[0] == '#') continue;
		char* sz = strtok(nullptr, " \n");
		char* hex = strtok(nullptr, " \n");
		Rec r;
		r.name = name;
		size_t n = strtoul(sz, nullptr, 10);
		for (size_t i = 0; i < n; ++i) { unsigned v = 0; sscanf(hex + 2 * i, "%2x", &v); r.b.push_back((unsigned char) v); }
		g_recs.push_back(r);
	}
	fclose(f);
	unsetenv("USER"); unsetenv("USERNAME");
	auto it = table().find(argv[1]);
	if (it == table().end()) { fprintf(stderr, "no such harness\n"); return 2; }
	try { it->second(); }
	catch (std::exception& e) { fprintf(stderr, "REPLAY: UNCAUGHT EXCEPTION: %s\n", e.what()); fflush(stderr); _exit(98); }
	catch (...) { fprintf(stderr, "REPLAY: UNCAUGHT EXCEPTION\n"); fflush(stderr); _exit(98); }
	if (!g_end) { fprintf(stderr, "REPLAY: end not reached\n"); fflush(stderr); _exit(75); }
	fprintf(stderr, "REPLAY: ok\n");
	fflush(stderr);
	_exit(0);
}
