// C40: logging
//@bound every pair of message level and threshold; names and texts of up to 4 arbitrary bytes and of 0 to 5000 bytes; all integer arguments; up to three changes of the logger; failing scripts of five kinds with values of every type on the stack, disks and model scripts that cause warnings, with and without a logger at each level
//@assume formatting follows the model of printf, which is checked against the C library when paths are validated natively
//@outside the text the default logger writes to the standard error stream; loggers that log themselves; several threads
#include "arc.h"
#include "dae.h"
#include "vfs.h"
#include <zenkit/Logger.hh>
#include <zenkit/ModelScript.hh>
#include <zenkit/World.hh>
struct Msg { LogLevel lvl; std::string name, text; };
static std::vector<Msg> g_got;
static void hook(LogLevel l, char const* n, char const* m) { g_got.push_back({l, n, m}); }
HARNESS(C40_levels) {
	auto at = (LogLevel) choose(0, 4, "at"), lvl = (LogLevel) choose(0, 4, "lvl");
	std::string n = sym_raw(2, "name"), t = sym_raw(4, "text");
	for (char c : n + t) ASSUME(c != 0);
	int32_t v = sym<int32_t>("v");
	ASSUME((v >= -1000) & (v <= 1000));
	Logger::log(lvl, n.c_str(), "%s", t.c_str()); // nobody listens
	CHECK(g_got.empty());
	Logger::set(at, hook);
	Logger::log(lvl, n.c_str(), "%s", t.c_str());
	bool on = (int) lvl <= (int) at;
	CHECK(g_got.size() == (on ? 1 : 0));
	if (g_got.size() == 1) { CHECK(g_got[0].lvl == lvl); CHECK(same(g_got[0].name, n)); CHECK(same(g_got[0].text, t)); }
	Logger::log(lvl, "N", "a%db%%%s", v, "c");
	if (on && g_got.size() == 2) CHECK(g_got[1].text == "a" + std::to_string(v) + "b%c");
	CHECK(g_got.size() == (on ? 2 : 0));
}
// the logger set last is the one which is used
HARNESS(C40_change) {
	auto lvl = (LogLevel) choose(0, 4, "lvl");
	std::vector<Msg> other;
	std::string old;
	LogLevel oldl = LogLevel::TRACE;
	unsigned which = 9; LogLevel at = LogLevel::ERROR;
	for (unsigned i = 0; i < 3; ++i) {
		switch (choose(0, 4, "op")) {
		case 0: at = LogLevel::TRACE; which = 0; Logger::set(at, hook); break;
		case 1: at = LogLevel::WARNING; which = 1; Logger::set(at, [&](LogLevel l, char const* n, char const* m) { other.push_back({l, n, m}); }); break;
		case 2: at = LogLevel::INFO; which = 2; 
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
			Logger::use_logger([&](LogLevel l, std::string const& m) { oldl = l; old += m + "\n"; });
#pragma clang diagnostic pop
			break;
		case 3: at = LogLevel::ERROR; which = 9; Logger::set(LogLevel::TRACE, nullptr); break;
		default: break;
		}
		size_t a = g_got.size(), b = other.size(), c = old.size();
		Logger::log(lvl, "NAME", "text %d", 7);
		bool on = (int) lvl <= (int) at;
		CHECK(g_got.size() == a + (which == 0 && on)); CHECK(other.size() == b + (which == 1 && on)); CHECK(old.size() == c + (which == 2 && on ? 13 : 0));
		if (g_got.size() > a) { CHECK(g_got.back().text == "text 7"); CHECK(g_got.back().name == "NAME"); CHECK(g_got.back().lvl == lvl); }
		if (other.size() > b) { CHECK(other.back().text == "text 7"); CHECK(other.back().lvl == lvl); }
		if (old.size() == c + 13) { CHECK(old.substr(c) == "NAME: text 7\n"); CHECK(oldl == lvl); }
	}
	Logger::set(LogLevel::INFO, nullptr);
}
// long messages are cut
HARNESS(C40_long) {
	static unsigned const L[] = {0, 1, 1000, 4000, 4080, 5000};
	unsigned n = L[choose(0, 5, "len")];
	std::string s(n, 'x');
	if (n) s[n / 2] = sym_raw(1, "b")[0];
	for (char c : s) ASSUME(c != 0);
	Logger::set(LogLevel::TRACE, hook);
	Logger::log(LogLevel::INFO, "N", "%s", s.c_str());
	Logger::log(LogLevel::ERROR, "M", "short");
	CHECK(g_got.size() == 2);
	if (g_got.size() != 2) return;
	CHECK(g_got[0].text.size() <= s.size()); CHECK(n > 4080 || g_got[0].text.size() == n); CHECK(g_got[0].text.size() >= (n < 4080 ? n : 4080));
	if (g_got[0].text.size() <= s.size()) CHECK(same(g_got[0].text, s.substr(0, g_got[0].text.size())));
	CHECK(g_got[1].text == "short"); CHECK(g_got[1].name == "M"); CHECK(g_got[1].lvl == LogLevel::ERROR);
}
// what is done does not depend on whether somebody listens
static unsigned listen() {
	unsigned k = choose(0, 6, "logger");
	if (k == 0) Logger::set(LogLevel::TRACE, nullptr);
	else if (k == 6) Logger::set_default(LogLevel::TRACE);
	else Logger::set((LogLevel) (k - 1), hook);
	return k;
}
static void messages(unsigned k, bool any) {
	Logger::set(LogLevel::INFO, nullptr);
	if (k == 0 || k == 6) { CHECK(g_got.empty()); return; }
	if (any) CHECK(!g_got.empty());
	for (auto& m : g_got) { CHECK((unsigned) m.lvl <= k - 1); CHECK(!m.name.empty()); CHECK(!m.text.empty()); CHECK(m.text.size() < 4096); }
}
HARNESS(C40_script) {
	using Op = DaedalusOpcode;
	Dat d;
	int32_t v = sym<int32_t>("v");
	ASSUME((v >= 0) & (v <= 9));
	uint32_t iv = d.ivar("IV", {v, 5}), fv = d.fvar("FV", {1.5f}), sv = d.svar("SV", {"text%s%n"}), c = d.cls("C", 1, 4), m = d.member("C.M", TINT, c), in = d.inst("IN"), fc = d.func("FV2", 0, 0, TVOID, 0);
	d.inst("SELF"); d.inst("HERO");
	uint32_t ext = d.func("EXT", 0, 0, TVOID, FCONST | FEXTERNAL), f = d.func("MAIN", 0, 0);
	unsigned kind = choose(0, 4, "kind");
	auto fill = [&] { d.pushv(iv).opvv(iv, 1).pushv(fv).pushv(sv).pushv(in).pushv(fc).pushi(v); };
	fill();
	switch (kind) {
	case 0: d.op(Op::BE, ext); break; // not registered
	case 1: d.op(Op::BE, ext); break; // throws
	case 2: d.op(Op::BL, 5000); break; // outside of the code
	case 3: d.pushv(m).pushi(1).op(Op::MOVI); break; // a member without an instance
	default: d.pushv(9999); break; // no such symbol
	}
	d.ret();
	DaedalusVm vm {d.script()};
	(void) f;
	if (kind == 1) vm.register_external("EXT", std::function<void()>([] { throw DaedalusVmException {"from the host %s %n"}; }));
	bool lenient = choose(0, 1, "lenient");
	if (lenient) vm.register_exception_handler(lenient_vm_exception_handler);
	unsigned k = listen();
	std::string what = "none";
	try { vm.call_function("MAIN"); } catch (std::exception& e) { what = e.what(); }
	messages(k, true);
	if (!lenient && kind == 1) CHECK(what.find("from the host %s %n") != std::string::npos);
	if (!lenient) CHECK(what != "none");
	// compare with a run nobody listens to
	DaedalusVm vm2 {d.script()};
	if (kind == 1) vm2.register_external("EXT", std::function<void()>([] { throw DaedalusVmException {"from the host %s %n"}; }));
	if (lenient) vm2.register_exception_handler(lenient_vm_exception_handler);
	std::string what2 = "none";
	try { vm2.call_function("MAIN"); } catch (std::exception& e) { what2 = e.what(); }
	CHECK(what == what2);
}
HARNESS(C40_disk) {
	Mod m {"/", false, "", {Mod {"a", true, "1%s", {}}, Mod {"d%n", false, "", {Mod {"b", true, "2", {}}}}}};
	auto b = disk_of(m, 0x4A214000, choose(0, 2, "sig"));
	if (choose(0, 1, "flags")) b[292] = (std::byte) 0x33;
	unsigned k = listen();
	Vfs v;
	auto r = Read::from(b.data(), b.size());
	v.mount_disk(r.get());
	messages(k, false);
	compare(v.root(), m);
}
HARNESS(C40_model_script) {
	std::string t = "Model (\"A%s\") {\n aniEnum {\n bogus%n (\"x\")\n ani (\"N\" 1 \"\" 0.1 0.2 M. \"F.ASC\" F 0 9)\n junk\n}\n}\n";
	unsigned k = listen();
	ModelScript s;
	std::string what = "none", what2 = "none";
	std::vector<std::byte> a((std::byte const*) t.data(), (std::byte const*) t.data() + t.size()), b = a;
	auto r = Read::from(std::move(a)), r2 = Read::from(std::move(b));
	try { s.load(r.get()); } catch (std::exception& e) { what = e.what(); }
	messages(k, false);
	ModelScript s2;
	try { s2.load(r2.get()); } catch (std::exception& e) { what2 = e.what(); }
	CHECK(what == what2); CHECK(s.animations.size() == s2.animations.size()); CHECK(s.animations.size() == 1);
}
