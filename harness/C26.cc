// C26: host functions bound to scripts get exact arguments and are type-checked
//@bound all argument and result values; every declared kind against every host kind in up to 3 positions; declared and host parameter counts 0..3; arguments given as constants, variables, array elements, members, results of other host functions and null objects; externals, overrides (typed and naked) and default handlers; failing host functions with every exception strategy
//@bound a host function with 12 parameters of mixed kinds; 40 host functions bound at once
//@assume functions pop their parameters first, last one on top, as the script compiler arranges
//@outside function values that refer to themselves in a cycle; host functions that push strings while still using string arguments built by the script
#include "dae.h"
#include <functional>
#include <stdexcept>
using Op = DaedalusOpcode;
struct Obj : DaedalusInstance { int32_t n = 1; };
struct Other : DaedalusInstance { int32_t n = 2; };
using ObjP = std::shared_ptr<Obj>;
using InstP = std::shared_ptr<DaedalusInstance>;
using SV = std::string_view;
struct P : Dat {
	uint32_t var(std::string n, uint32_t type) {
		if (type == TFLOAT) return fvar(std::move(n));
		if (type == TSTRING) return svar(std::move(n));
		if (type == TINST) return inst(std::move(n));
		if (type == TFUNC) return func(std::move(n), 1, 0, TVOID, 0);
		return ivar(std::move(n));
	}
	void classes() {
		uint32_t c = cls("COBJ", 1, 4); member("COBJ.N", TINT, c);
		uint32_t o = cls("COTHER", 1, 4); member("COTHER.N", TINT, o);
		inst("OBJECT", c); inst("OTHER", o);
	}
};
static void host_classes(DaedalusVm& vm) { vm.register_member("COBJ.N", &Obj::n); vm.register_member("COTHER.N", &Other::n); }
static ObjP object(DaedalusVm& vm) { return vm.allocate_instance<Obj>("OBJECT"); }
static uint32_t const KINDS[] = {TINT, TFLOAT, TSTRING, TINST, TFUNC};
static void sentinel(DaedalusVm& vm, int32_t s, int32_t below) {
	CHECK(vm.pop_int() == s);
	CHECK(vm.pop_int() == below);
	CHECK(throws([&] { (void) vm.pop_reference(); }));
}
static float fl(int32_t x) { float f; memcpy(&f, &x, 4); return f; }

// ---- acceptance
template <typename F> static bool bind(DaedalusVm& vm, bool ext, std::function<F> const& f, SV name = "f") {
	try { if (ext) vm.register_external(name, f); else vm.override_function(name, f); return true; }
	catch (DaedalusScriptError const&) { return false; }
}
template <typename A> static bool one(DaedalusVm& vm, bool ext, unsigned pos) {
	if (pos == 0) return bind<void(A, int32_t, int32_t)>(vm, ext, [](A, int32_t, int32_t) {});
	if (pos == 1) return bind<void(int32_t, A, int32_t)>(vm, ext, [](int32_t, A, int32_t) {});
	return bind<void(int32_t, int32_t, A)>(vm, ext, [](int32_t, int32_t, A) {});
}
HARNESS(C26_accept_parameter) {
	bool ext = choose(0, 1, "external");
	unsigned pos = choose(0, 2, "pos"), decl = choose(0, 4, "declared"), host = choose(0, 7, "host");
	P d;
	d.func("F", 3, 0, TVOID, FCONST | (ext ? FEXTERNAL : 0u));
	for (unsigned i = 0; i < 3; ++i) d.var(std::string("F.P") + (char) ('0' + i), i == pos ? KINDS[decl] : TINT);
	d.ret();
	DaedalusVm vm {d.script()};
	bool ok = false, expect = false;
	uint32_t t = KINDS[decl];
	switch (host) {
	case 0: ok = one<int32_t>(vm, ext, pos); expect = t == TINT || t == TFUNC; break;
	case 1: ok = one<bool>(vm, ext, pos); ASSUME(t != TFUNC); expect = t == TINT; break;
	case 2: ok = one<float>(vm, ext, pos); expect = t == TFLOAT; break;
	case 3: ok = one<SV>(vm, ext, pos); expect = t == TSTRING; break;
	case 4: ok = one<ObjP>(vm, ext, pos); expect = t == TINST; break;
	case 5: ok = one<Obj*>(vm, ext, pos); expect = t == TINST; break;
	case 6: ok = one<DaedalusSymbol*>(vm, ext, pos); expect = t == TINST; break;
	default: ok = one<DaedalusFunction>(vm, ext, pos); ASSUME(t != TINT); expect = t == TFUNC; break;
	}
	CHECK(ok == expect);
}
HARNESS(C26_accept_count) {
	bool ext = choose(0, 1, "external");
	unsigned decl = choose(0, 3, "declared"), host = choose(0, 3, "host");
	P d;
	d.func("F", decl, 0, TVOID, FCONST | (ext ? FEXTERNAL : 0u));
	for (unsigned i = 0; i < 4; ++i) d.ivar(std::string("F.P") + (char) ('0' + i));
	d.ret();
	DaedalusVm vm {d.script()};
	bool ok = host == 0 ? bind<void()>(vm, ext, [] {}) : host == 1 ? bind<void(int32_t)>(vm, ext, [](int32_t) {})
	    : host == 2 ? bind<void(int32_t, int32_t)>(vm, ext, [](int32_t, int32_t) {})
	    : bind<void(int32_t, int32_t, int32_t)>(vm, ext, [](int32_t, int32_t, int32_t) {});
	CHECK(ok == (decl == host));
	// unknown names, the wrong sort of function
	CHECK(bind<void()>(vm, true, [] {}, "unknown"));
	CHECK(!bind<void()>(vm, false, [] {}, "unknown"));
	CHECK(!bind<void()>(vm, !ext, [] {}));
	CHECK(!bind<void(int32_t)>(vm, !ext, [](int32_t) {}));
}
HARNESS(C26_accept_result) {
	bool ext = choose(0, 1, "external");
	unsigned decl = choose(0, 5, "declared"), host = choose(0, 10, "host");
	uint32_t t = decl == 5 ? (uint32_t) TVOID : KINDS[decl];
	P d;
	d.func("F", 0, 0, t, FCONST | (ext ? FEXTERNAL : 0u));
	d.ivar("X");
	d.ret();
	DaedalusVm vm {d.script()};
	bool ok = false, expect = false, in = t == TINT || t == TFUNC;
	switch (host) {
	case 0: ok = bind<void()>(vm, ext, [] {}); expect = t == TVOID; break;
	case 1: ok = bind<int32_t()>(vm, ext, [] { return 0; }); expect = in; break;
	case 2: ok = bind<bool()>(vm, ext, [] { return true; }); expect = in; break;
	case 3: ok = bind<uint8_t()>(vm, ext, [] { return 0; }); expect = in; break;
	case 4: ok = bind<int64_t()>(vm, ext, [] { return 0; }); expect = in; break;
	case 5: ok = bind<float()>(vm, ext, [] { return 0.f; }); expect = t == TFLOAT; break;
	case 6: ok = bind<double()>(vm, ext, [] { return 0.; }); expect = t == TFLOAT; break;
	case 7: ok = bind<std::string()>(vm, ext, [] { return std::string(); }); expect = t == TSTRING; break;
	case 8: ok = bind<ObjP()>(vm, ext, [] { return ObjP(); }); expect = t == TINST; break;
	case 9: ok = bind<uint32_t()>(vm, ext, [] { return 0u; }); expect = in; break;
	default: ok = bind<int16_t()>(vm, ext, [] { return 0; }); expect = in; break;
	}
	CHECK(ok == expect);
}

// ---- arguments and results
struct Seen { // what a host function was given
	int calls = 0;
	int32_t i[3] = {}; float f[3] = {}; std::string s[3]; DaedalusInstance* o[3] = {}; DaedalusSymbol* y[3] = {};
	void take(int n, int32_t v) { i[n] = v; }
	void take(int n, bool v) { i[n] = v; }
	void take(int n, float v) { f[n] = v; }
	void take(int n, SV v) { s[n] = std::string(v); }
	void take(int n, InstP const& v) { o[n] = v.get(); }
	void take(int n, ObjP const& v) { o[n] = v.get(); }
	void take(int n, Obj* v) { o[n] = v; }
	void take(int n, DaedalusSymbol* v) { y[n] = v; }
	void take(int n, DaedalusFunction v) { y[n] = v.value; }
};
enum Host { HINT, HBOOL, HFLOAT, HSTR, HOBJ, HRAW, HBASE, HSYM, HFUNC };
template <typename A, typename B, typename C> static void attach(DaedalusVm& vm, bool ext, Seen& z) {
	std::function<int32_t(A, B, C)> f = [&z](A a, B b, C c) { z.calls++; z.take(0, a); z.take(1, b); z.take(2, c); return 4711; };
	if (ext) vm.register_external("F", f); else vm.override_function("F", f);
}
static uint32_t const DECL[] = {TINT, TINT, TFLOAT, TSTRING, TINST, TINST, TINST, TINST, TFUNC};
HARNESS(C26_arguments) {
	bool ext = choose(0, 1, "external");
	unsigned sig = choose(0, 8, "signature"), form = choose(0, 1, "form");
	static Host const SIGS[9][3] = {{HINT, HFLOAT, HSTR}, {HSTR, HINT, HOBJ}, {HFLOAT, HRAW, HINT}, {HSYM, HSTR, HFLOAT}, {HBOOL, HINT, HFUNC}, {HOBJ, HOBJ, HSYM}, {HINT, HINT, HINT}, {HSTR, HSTR, HSTR}, {HBASE, HFLOAT, HFLOAT}};
	Host const* h = SIGS[sig];
	int32_t x[3]; std::string s[3]; uint32_t v[3], e[3];
	P d;
	d.classes();
	d.func("MAIN", 0, 0);
	uint32_t res = d.ivar("RES");
	uint32_t tgt = d.func("TARGET", 0, 0);
	for (unsigned i = 0; i < 3; ++i) {
		x[i] = sym<int32_t>("x"); s[i] = sym_line(2, "s");
		for (char c : s[i]) ASSUME(c != '\\');
		std::string n = std::string("V") + (char) ('0' + i), m = std::string("E") + (char) ('0' + i);
		switch (h[i]) {
		case HINT: case HBOOL: v[i] = d.ivar(n, {x[i]}); e[i] = d.ivar(m, {1, 2, x[i]}); break;
		case HFLOAT: v[i] = d.fvar(n, {fl(x[i])}); e[i] = d.fvar(m, {1.f, 2.f, fl(x[i])}); break;
		case HSTR: v[i] = d.svar(n, {s[i]}); e[i] = d.svar(m, {"a", "b", s[i]}); break;
		case HFUNC: v[i] = d.func(n, 1, tgt, TVOID, 0); e[i] = v[i]; break;
		default: v[i] = e[i] = d.inst(n); break;
		}
	}
	for (unsigned i = 0; i < 3; ++i) {
		bool num = h[i] == HINT || h[i] == HBOOL || h[i] == HFLOAT;
		unsigned how = num || h[i] == HSTR ? form : 0; // variable or array element / constant
		if (num && form && i != 1) d.pushi(x[i]);
		else if (h[i] == HFUNC) d.pushi((int32_t) (form ? tgt : v[i]));
		else if (how) d.opvv(e[i], 2);
		else if (h[i] >= HOBJ) d.op(Op::PUSHVI, v[i]);
		else d.pushv(v[i]);
	}
	uint32_t f = d.func("F", 3, 900, TINT, FCONST | (ext ? FEXTERNAL : 0u));
	for (unsigned i = 0; i < 3; ++i) d.var(std::string("F.P") + (char) ('0' + i), DECL[h[i]]);
	if (ext) d.op(Op::BE, f); else d.op(Op::BL, 900);
	d.pushv(res).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	if (h[0] == HFUNC || h[1] == HFUNC || h[2] == HFUNC) vm.find_symbol_by_index(v[2])->set_int((int32_t) tgt);
	ObjP o[3];
	host_classes(vm);
	for (unsigned i = 0; i < 3; ++i) if (h[i] >= HOBJ && h[i] <= HSYM) {
		bool null = choose(0, 1, "null");
		if (null) continue;
		o[i] = object(vm);
		vm.find_symbol_by_index(v[i])->set_instance(o[i]);
	}
	Seen z;
	switch (sig) {
	case 0: attach<int32_t, float, SV>(vm, ext, z); break;
	case 1: attach<SV, int32_t, ObjP>(vm, ext, z); break;
	case 2: attach<float, Obj*, int32_t>(vm, ext, z); break;
	case 3: attach<DaedalusSymbol*, SV, float>(vm, ext, z); break;
	case 4: attach<bool, int32_t, DaedalusFunction>(vm, ext, z); break;
	case 5: attach<ObjP, ObjP, DaedalusSymbol*>(vm, ext, z); break;
	case 6: attach<int32_t, int32_t, int32_t>(vm, ext, z); break;
	case 7: attach<SV, SV, SV>(vm, ext, z); break;
	default: attach<InstP, float, float>(vm, ext, z); break;
	}
	int32_t mark = sym<int32_t>("mark");
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	sentinel(vm, mark, 11);
	CHECK(z.calls == 1);
	CHECK(vm.find_symbol_by_index(res)->get_int() == 4711);
	for (unsigned i = 0; i < 3; ++i) switch (h[i]) {
		case HINT: CHECK(z.i[i] == x[i]); break;
		case HBOOL: CHECK(z.i[i] == (x[i] != 0)); break;
		case HFLOAT: CHECK(same(z.f[i], fl(x[i]))); break;
		case HSTR: CHECK(same(z.s[i], s[i])); break;
		case HSYM: CHECK(z.y[i] == vm.find_symbol_by_index(v[i])); break;
		case HFUNC: CHECK(z.y[i] == vm.find_symbol_by_index(tgt)); break;
		default: CHECK(z.o[i] == o[i].get()); break;
	}
}
// a host function with twelve parameters and many host functions
HARNESS(C26_many_arguments) {
	bool ext = choose(0, 1, "external");
	P d;
	d.classes();
	d.func("MAIN", 0, 0);
	uint32_t fx = FCONST | (ext ? FEXTERNAL : 0u), res = d.ivar("RES");
	int32_t x[12]; std::string s[12]; uint32_t v[12];
	uint32_t const kinds[] = {TINT, TFLOAT, TSTRING, TINST};
	for (unsigned i = 0; i < 12; ++i) {
		x[i] = sym<int32_t>("x"); s[i] = sym_line(2, "s"); for (char c : s[i]) ASSUME(c != '\\');
		std::string n = std::string("V") + (char) ('A' + i);
		switch (i % 4) {
		case 0: v[i] = d.ivar(n, {x[i]}); d.pushv(v[i]); break;
		case 1: v[i] = d.fvar(n, {fl(x[i])}); d.pushv(v[i]); break;
		case 2: v[i] = d.svar(n, {s[i]}); d.pushv(v[i]); break;
		default: v[i] = d.inst(n); d.op(Op::PUSHVI, v[i]); break;
		}
	}
	uint32_t f = d.func("F", 12, 5000, TINT, fx);
	for (unsigned i = 0; i < 12; ++i) d.var(std::string("F.P") + (char) ('A' + i), kinds[i % 4]);
	if (ext) d.op(Op::BE, f); else d.op(Op::BL, 5000);
	d.pushv(res).op(Op::MOVI).ret();
	uint32_t g[40];
	for (unsigned i = 0; i < 40; ++i) { // others, found by their own name or address
		g[i] = d.func(std::string("G") + (char) ('A' + i / 8) + (char) ('A' + i % 8), 0, 6000 + 4 * i, TINT, fx);
		(void) g[i];
	}
	unsigned q = choose(0, 39, "which");
	d.func("OTHER", 0, d.here());
	if (ext) d.op(Op::BE, g[q]); else d.op(Op::BL, 6000 + 4 * q);
	d.pushv(res).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	host_classes(vm);
	ObjP o[12];
	for (unsigned i = 3; i < 12; i += 4) { o[i] = object(vm); vm.find_symbol_by_index(v[i])->set_instance(o[i]); }
	int calls = 0;
	std::function<int32_t(int32_t, float, SV, ObjP, int32_t, float, SV, ObjP, int32_t, float, SV, ObjP)> fn = [&](int32_t a, float b, SV c, ObjP e, int32_t a1, float b1, SV c1, ObjP e1, int32_t a2, float b2, SV c2, ObjP e2) {
		++calls;
		CHECK(a == x[0]); CHECK(a1 == x[4]); CHECK(a2 == x[8]);
		CHECK(same(b, fl(x[1]))); CHECK(same(b1, fl(x[5]))); CHECK(same(b2, fl(x[9])));
		CHECK(same(std::string(c), s[2])); CHECK(same(std::string(c1), s[6])); CHECK(same(std::string(c2), s[10]));
		CHECK(e == o[3]); CHECK(e1 == o[7]); CHECK(e2 == o[11]);
		return 4711;
	};
	if (ext) vm.register_external("F", fn); else vm.override_function("F", fn);
	for (unsigned i = 0; i < 40; ++i) {
		std::string n = std::string("G") + (char) ('A' + i / 8) + (char) ('A' + i % 8);
		std::function<int32_t()> h = [i, &calls] { ++calls; return (int32_t) (100 + i); };
		if (ext) vm.register_external(n, h); else vm.override_function(n, h);
	}
	int32_t mark = sym<int32_t>("mark");
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	CHECK(calls == 1);
	CHECK(vm.find_symbol_by_index(res)->get_int() == 4711);
	vm.call_function("OTHER");
	CHECK(calls == 2);
	CHECK(vm.find_symbol_by_index(res)->get_int() == (int32_t) (100 + q));
	sentinel(vm, mark, 11);
}
HARNESS(C26_chained) {
	// F(G(a), H(s), G(b)): results of host functions are the arguments of another one
	bool ext = choose(0, 1, "external");
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), mark = sym<int32_t>("mark");
	std::string s = sym_line(3, "s"); for (char c : s) ASSUME(c != '\\');
	uint32_t fx = FCONST | (ext ? FEXTERNAL : 0u);
	P d;
	d.classes();
	uint32_t res = d.svar("RES"), v = d.svar("V", {s});
	uint32_t g = d.func("G", 1, 900, TINT, fx); d.ivar("G.P");
	uint32_t h = d.func("H", 1, 910, TSTRING, fx); d.svar("H.P");
	uint32_t k = d.func("K", 0, 920, TINST, fx);
	uint32_t f = d.func("F", 4, 930, TSTRING, fx); d.ivar("F.A"); d.svar("F.B"); d.ivar("F.C"); d.inst("F.D");
	auto call = [&](uint32_t sy, uint32_t ad) { if (ext) d.op(Op::BE, sy); else d.op(Op::BL, ad); };
	d.func("MAIN", 0, d.here());
	d.pushi(a); call(g, 900);
	d.pushv(v); call(h, 910);
	d.pushi(b); call(g, 900);
	call(k, 920);
	call(f, 930);
	d.pushv(res).op(Op::MOVS).ret();
	DaedalusVm vm {d.script()};
	host_classes(vm);
	auto obj = object(vm);
	int calls = 0;
	int32_t ra = 0, rc = 0; std::string rb; DaedalusInstance* rd = nullptr;
	auto reg = [&](SV n, auto fn) { if (ext) vm.register_external(n, std::function(fn)); else vm.override_function(n, std::function(fn)); };
	reg("G", std::function<int32_t(int32_t)>([&](int32_t x) { ++calls; return (int32_t) ~x; }));
	reg("H", std::function<std::string(SV)>([&](SV x) { ++calls; return std::string(x) + "!"; }));
	reg("K", std::function<ObjP()>([&] { ++calls; return obj; }));
	reg("F", std::function<std::string(int32_t, SV, int32_t, ObjP)>([&](int32_t x, SV y, int32_t w, ObjP q) {
		++calls; ra = x; rb = std::string(y); rc = w; rd = q.get();
		return "<" + std::string(y) + ">";
	}));
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	sentinel(vm, mark, 11);
	CHECK(calls == 5);
	CHECK(ra == ~a); CHECK(rc == ~b); CHECK(same(rb, s + "!")); CHECK(rd == obj.get());
	CHECK(same(vm.find_symbol_by_index(res)->get_string(), "<" + s + "!>"));
}
HARNESS(C26_results) {
	bool ext = choose(0, 1, "external");
	unsigned kind = choose(0, 9, "kind");
	uint64_t x = sym<uint64_t>("x");
	int32_t mark = sym<int32_t>("mark");
	std::string s = sym_raw(3, "s");
	uint32_t const T[] = {TINT, TINT, TINT, TINT, TINT, TFLOAT, TFLOAT, TSTRING, TINST, TINT};
	P d;
	uint32_t f = d.func("F", 0, 900, T[kind], FCONST | (ext ? FEXTERNAL : 0u));
	uint32_t ri = d.ivar("RI"), rf = d.fvar("RF"), rs = d.svar("RS"), ro = d.inst("RO");
	d.func("MAIN", 0, d.here());
	if (ext) d.op(Op::BE, f); else d.op(Op::BL, 900);
	if (T[kind] == TINT) d.pushv(ri).op(Op::MOVI); else if (T[kind] == TFLOAT) d.pushv(rf).op(Op::MOVF);
	else if (T[kind] == TSTRING) d.pushv(rs).op(Op::MOVS); else d.op(Op::PUSHVI, ro).op(Op::MOVVI);
	d.ret();
	DaedalusVm vm {d.script()};
	ObjP o = choose(0, 1, "null") ? nullptr : std::make_shared<Obj>();
	auto reg = [&](auto fn) { if (ext) vm.register_external("f", std::function(fn)); else vm.override_function("f", std::function(fn)); };
	auto* i = vm.find_symbol_by_index(ri);
	switch (kind) {
	case 0: reg([&] { return (int32_t) x; }); break;
	case 1: reg([&] { return (uint8_t) x; }); break;
	case 2: reg([&] { return (int16_t) x; }); break;
	case 3: reg([&] { return (bool) (x & 1); }); break;
	case 4: reg([&] { return (uint32_t) x; }); break;
	case 5: reg([&] { return fl((int32_t) x); }); break;
	case 6: reg([&] { return (double) fl((int32_t) x); }); break;
	case 7: reg([&] { return s; }); break;
	case 8: reg([&] { return o; }); break;
	default: reg([&] { return (int8_t) x; }); break;
	}
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	sentinel(vm, mark, 11);
	switch (kind) {
	case 0: CHECK(i->get_int() == (int32_t) x); break;
	case 1: CHECK(i->get_int() == (uint8_t) x); break;
	case 2: CHECK(i->get_int() == (int16_t) x); break;
	case 3: CHECK(i->get_int() == (int32_t) (x & 1)); break;
	case 4: CHECK(i->get_int() == (int32_t) x); break;
	case 5: case 6: { float e = fl((int32_t) x); ASSUME(e == e); CHECK(same(vm.find_symbol_by_index(rf)->get_float(), e)); break; }
	case 7: CHECK(same(vm.find_symbol_by_index(rs)->get_string(), s)); break;
	case 8: CHECK(vm.find_symbol_by_index(ro)->get_instance() == o); break;
	default: CHECK(i->get_int() == (int8_t) x); break;
	}
}
HARNESS(C26_only_named) {
	// only the named function is replaced, the last registration counts, others keep running
	bool ext = choose(0, 1, "external"), twice = choose(0, 1, "twice");
	unsigned which = choose(0, 2, "which");
	int32_t x = sym<int32_t>("x"), y = sym<int32_t>("y");
	uint32_t fx = FCONST | (ext ? FEXTERNAL : 0u);
	P d;
	uint32_t ids[3], res[3], fix[3];
	for (unsigned i = 0; i < 3; ++i) ids[i] = d.func(std::string("FN") + (char) ('A' + i), 0, 0, TINT, fx);
	for (unsigned i = 0; i < 3; ++i) res[i] = d.ivar(std::string("R") + (char) ('A' + i));
	d.func("MAIN", 0, d.here());
	for (unsigned i = 0; i < 3; ++i) {
		if (ext) d.op(Op::BE, ids[i]); else { d.op(Op::BL, 0); fix[i] = d.here() - 4; }
		d.pushv(res[i]).op(Op::MOVI);
	}
	d.ret();
	if (!ext) for (unsigned i = 0; i < 3; ++i) { // script bodies
		d.at(fix[i], d.here());
		d.syms[ids[i]].value.clear(); p32(d.syms[ids[i]].value, d.here());
		d.pushi(100 + (int32_t) i).ret();
	}
	DaedalusVm vm {d.script()};
	char name[4] = {'f', 'N', (char) ('a' + which), 0};
	if (ext) {
		vm.register_default_external_custom([&](DaedalusVm& m, DaedalusSymbol& s) { m.push_int(100 + (int32_t) (s.index() - ids[0])); });
		if (twice) vm.register_external(name, std::function<int32_t()>([&] { return y; }));
		vm.register_external(name, std::function<int32_t()>([&] { return x; }));
	} else {
		if (twice) vm.override_function(name, std::function<int32_t()>([&] { return y; }));
		vm.override_function(name, std::function<int32_t()>([&] { return x; }));
	}
	vm.call_function("MAIN");
	for (unsigned i = 0; i < 3; ++i) CHECK(vm.find_symbol_by_index(res[i])->get_int() == (i == which ? x : 100 + (int32_t) i));
	CHECK(throws([&] { (void) vm.pop_reference(); }));
}
HARNESS(C26_naked) {
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), mark = sym<int32_t>("mark");
	P d;
	d.func("F", 2, 900, TINT); d.ivar("F.A"); d.ivar("F.B");
	uint32_t res = d.ivar("RES");
	d.func("MAIN", 0, d.here());
	d.pushi(a).pushi(b).op(Op::BL, 900).pushv(res).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	int calls = 0;
	vm.override_function("F", std::function<DaedalusNakedCall(DaedalusVm&)>([&](DaedalusVm& m) {
		++calls;
		int32_t q = m.pop_int(), p = m.pop_int();
		CHECK(p == a); CHECK(q == b);
		m.push_int((int32_t) ((uint32_t) p - (uint32_t) q));
		return DaedalusNakedCall {};
	}));
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	sentinel(vm, mark, 11);
	CHECK(calls == 1);
	CHECK(vm.find_symbol_by_index(res)->get_int() == (int32_t) ((uint32_t) a - (uint32_t) b));
}
// ---- default handler
HARNESS(C26_default) {
	unsigned n = choose(0, 2, "params"), rk = choose(0, 5, "result"), cb = choose(0, 1, "callback");
	uint32_t rt = rk == 5 ? (uint32_t) TVOID : KINDS[rk];
	int32_t x = sym<int32_t>("x"), mark = sym<int32_t>("mark");
	P d;
	d.classes();
	uint32_t kf = d.func("K", 0, 0, TINST, FCONST | FEXTERNAL), ks = d.func("KS", 0, 0, TSTRING, FCONST | FEXTERNAL);
	uint32_t vi = d.ivar("VI", {x}), vf = d.fvar("VF", {1.5f}), vs = d.svar("VS", {"text"}), vo = d.inst("VO");
	uint32_t ri = d.ivar("RI", {5}), rf = d.fvar("RF", {5.f}), rs = d.svar("RS", {"old"}), ro = d.inst("RO");
	uint32_t types[2];
	for (unsigned i = 0; i < n; ++i) types[i] = KINDS[choose(0, 4, "kind")];
	uint32_t f = d.func("FuN", n, 0, rt, FCONST | FEXTERNAL);
	for (unsigned i = 0; i < n; ++i) d.var(std::string("FUN.P") + (char) ('0' + i), types[i]);
	d.func("MAIN", 0, d.here());
	for (unsigned i = 0; i < n; ++i) {
		bool imm = choose(0, 1, "immediate");
		if (types[i] == TINT) { if (imm) d.pushi(x); else d.pushv(vi); }
		if (types[i] == TFLOAT) { if (imm) d.pushi(x); else d.pushv(vf); }
		if (types[i] == TSTRING) { if (imm) d.op(Op::BE, ks); else d.pushv(vs); }
		if (types[i] == TINST) { if (imm) d.op(Op::BE, kf); else d.op(Op::PUSHVI, vo); }
		if (types[i] == TFUNC) d.pushi((int32_t) (imm ? f : kf));
	}
	d.op(Op::BE, f);
	if (rt == TINT || rt == TFUNC) d.pushv(ri).op(Op::MOVI);
	if (rt == TFLOAT) d.pushv(rf).op(Op::MOVF);
	if (rt == TSTRING) d.pushv(rs).op(Op::MOVS);
	if (rt == TINST) d.op(Op::PUSHVI, ro).op(Op::MOVVI);
	// nothing may be left of the arguments while the function is still running
	d.pushi(33).op(Op::BE, f + n + 2).ret();
	uint32_t probe = d.func("PROBE", 1, 0, TVOID, FCONST | FEXTERNAL);
	d.ivar("PROBE.P");
	CHECK(probe == f + n + 2);
	DaedalusVm vm {d.script()};
	host_classes(vm);
	auto o = object(vm);
	vm.find_symbol_by_index(ro)->set_instance(o);
	vm.register_external("K", std::function<ObjP()>([&] { return o; }));
	vm.register_external("KS", std::function<std::string()>([&] { return std::string("temp"); }));
	int probes = 0, calls = 0;
	vm.register_external("PROBE", std::function<void(int32_t)>([&](int32_t v) {
		++probes; CHECK(v == 33); CHECK(vm.pop_int() == mark); vm.push_int(mark);
	}));
	if (cb) vm.register_default_external([&](SV name) { ++calls; CHECK(name == SV("FuN")); });
	else vm.register_default_external([&](DaedalusSymbol const& s) { ++calls; CHECK(s.index() == f); });
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	sentinel(vm, mark, 11);
	CHECK(calls == 1); CHECK(probes == 1);
	if (rt == TINT || rt == TFUNC) CHECK(vm.find_symbol_by_index(ri)->get_int() == 0);
	if (rt == TFLOAT) CHECK(same(vm.find_symbol_by_index(rf)->get_float(), 0.f));
	if (rt == TSTRING) CHECK(vm.find_symbol_by_index(rs)->get_string().empty());
	if (rt == TINST) CHECK(vm.find_symbol_by_index(ro)->get_instance() == nullptr);
}
// ---- failing host functions leave a usable stack behind
HARNESS(C26_failing) {
	unsigned how = choose(0, 3, "how"), strategy = choose(0, 2, "strategy"); // external, override, default, wrong object
	bool keep = choose(0, 1, "result");
	int32_t mark = sym<int32_t>("mark"), x = sym<int32_t>("x");
	bool ext = how != 1;
	P d;
	d.classes();
	uint32_t f = d.func("F", 2, 900, keep ? TINT : TVOID, FCONST | (ext ? FEXTERNAL : 0u)); d.ivar("F.A"); d.var("F.B", how == 3 ? TINST : TINT);
	uint32_t ri = d.ivar("RI", {5}), vo = d.inst("VO"), after = d.ivar("AFTER");
	d.func("MAIN", 0, d.here());
	d.pushi(x); // an operand of the expression around the call
	d.pushi(1); if (how == 3) d.op(Op::PUSHVI, vo); else d.pushi(2);
	if (ext) d.op(Op::BE, f); else d.op(Op::BL, 900);
	if (keep) d.op(Op::ADD);
	d.pushv(ri).op(Op::MOVI).pushi(1).pushv(after).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	unsigned type = how == 3 ? choose(0, 1, "type") : 0;
	if (how == 3) { host_classes(vm); auto o = type ? vm.allocate_instance<Other>("OTHER") : std::make_shared<Other>(); vm.find_symbol_by_index(vo)->set_instance(o); }
	auto fail = [] { throw DaedalusVmException {"host"}; };
	if (how == 2) vm.register_default_external([&](DaedalusSymbol const&) { fail(); });
	else {
		auto reg = [&](auto fn) { if (ext) vm.register_external("F", std::function(fn)); else vm.override_function("F", std::function(fn)); };
		if (how == 3) { if (keep) reg([](int32_t, ObjP) { return 3; }); else reg([](int32_t, ObjP) {}); }
		else if (keep) reg([&](int32_t, int32_t) { fail(); return 3; }); else reg([&](int32_t, int32_t) { fail(); });
	}
	vm.register_exception_handler([&](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return (DaedalusVmExceptionStrategy) strategy; });
	vm.push_int(11); vm.push_int(mark);
	bool err = throws([&] { vm.call_function("MAIN"); });
	CHECK(err == (strategy == 2));
	sentinel(vm, mark, 11);
	CHECK(vm.find_symbol_by_index(after)->get_int() == (strategy == 0));
	CHECK(vm.find_symbol_by_index(ri)->get_int() == (strategy == 0 ? x : 5));
}
// ---- results of script functions for the host
HARNESS(C26_script_results) {
	unsigned kind = choose(0, 3, "kind");
	int32_t mark = sym<int32_t>("mark");
	P d;
	d.classes();
	uint32_t vo = d.inst("VO"), tgt = d.func("TARGET", 0, 0), vf = d.func("VF", 1, 0, TVOID, 0);
	d.func("F", 0, d.here(), kind == 0 ? TFUNC : TINST);
	if (kind == 0) d.pushi((int32_t) (choose(0, 1, "variable") ? vf : tgt)); else d.op(Op::PUSHVI, vo);
	d.ret();
	DaedalusVm vm {d.script()};
	vm.find_symbol_by_index(vf)->set_int((int32_t) tgt);
	host_classes(vm);
	unsigned type = choose(0, 2, "type");
	InstP o;
	if (type == 0) o = std::make_shared<Obj>(); else if (type == 1) o = object(vm); else o = vm.allocate_instance<Other>("OTHER");
	bool null = choose(0, 1, "null");
	if (!null) vm.find_symbol_by_index(vo)->set_instance(o);
	vm.push_int(11); vm.push_int(mark);
	if (kind == 0) CHECK(vm.call_function<DaedalusFunction>("F").value == vm.find_symbol_by_index(tgt));
	if (kind == 1) {
		InstP r; bool err = throws([&] { r = vm.call_function<ObjP>("F"); });
		CHECK(err == (!null && type != 1));
		if (!err) CHECK(r.get() == (null ? nullptr : o.get()));
	}
	if (kind == 2) CHECK(vm.call_function<InstP>("F").get() == (null ? nullptr : o.get()));
	if (kind == 3) CHECK(throws([&] { (void) vm.call_function<int32_t>("F"); }) && throws([&] { (void) vm.call_function<std::string>("F"); }));
	sentinel(vm, mark, 11);
}
HARNESS(C26_host_arguments_checked) {
	// calling a script function with arguments of the wrong kind is an error without effect
	unsigned pos = choose(0, 2, "pos"), decl = choose(0, 3, "declared");
	int32_t mark = sym<int32_t>("mark"), x = sym<int32_t>("x");
	P d;
	uint32_t ran = d.ivar("RAN");
	uint32_t f = d.func("F", 3, d.here());
	Op const MV[] = {Op::NOP, Op::MOVF, Op::MOVI, Op::MOVS, Op::NOP, Op::MOVVF, Op::NOP, Op::MOVVI};
	for (unsigned i = 0; i < 3; ++i) d.var(std::string("F.P") + (char) ('0' + i), i == pos ? KINDS[decl] : TINT);
	for (unsigned i = 3; i-- > 0;) d.pushv(f + 1 + i).op(MV[i == pos ? KINDS[decl] : TINT]);
	d.pushi(1).pushv(ran).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	vm.push_int(11); vm.push_int(mark);
	unsigned host = choose(0, 3, "host");
	auto call = [&](auto v) {
		if (pos == 0) vm.call_function("F", v, x, x);
		else if (pos == 1) vm.call_function("F", x, v, x);
		else vm.call_function("F", x, x, v);
	};
	bool err = throws([&] {
		if (host == 0) call((int32_t) 3);
		else if (host == 1) call(1.f);
		else if (host == 2) call(SV("s"));
		else call(InstP(std::make_shared<Obj>()));
	});
	CHECK(err == (host != decl));
	CHECK(vm.find_symbol_by_index(ran)->get_int() == (host == decl));
	sentinel(vm, mark, 11);
}
HARNESS(C26_access_trap) {
	// a trapped symbol asks the host for its value
	int32_t x = sym<int32_t>("x"), y = sym<int32_t>("y");
	bool inst = choose(0, 1, "op");
	P d;
	uint32_t a = d.ivar("A", {y}), b = d.ivar("B", {y}), ra = d.ivar("RA"), rb = d.ivar("RB");
	d.func("MAIN", 0, d.here());
	d.op(inst ? Op::PUSHVI : Op::PUSHV, a).pushv(ra).op(Op::MOVI).pushv(b).pushv(rb).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	int calls = 0;
	vm.find_symbol_by_index(a)->set_access_trap_enable(true);
	vm.register_access_trap([&](DaedalusSymbol& s) { ++calls; CHECK(s.index() == a); vm.push_int(x); });
	vm.call_function("MAIN");
	CHECK(calls == 1);
	CHECK(vm.find_symbol_by_index(ra)->get_int() == x);
	CHECK(vm.find_symbol_by_index(rb)->get_int() == y);
}
