// C24: script calls pass arguments, keep locals and balance the stack
//@bound all argument values; up to 3 parameters of every kind in every order; call depth up to 3; loops of up to 3 rounds; recursion to depth 3 with up to 3 parameters and 3 local variables of mixed kinds; failures at every depth by division, host errors, illegal addresses and unknown symbols, each exception strategy; two failures in a row
//@bound 20 parameters of mixed kinds; recursion to depth 40 with nine locals, one of 20 elements; 1300 calls in a row
//@assume functions pop their parameters first, last one on top, as the script compiler arranges
//@outside deeper recursion; scripts that modify the parameters of an outer activation (only declared local variables are preserved)
#include "dae.h"
#include <stdexcept>
using Op = DaedalusOpcode;
struct Obj : DaedalusInstance { int32_t n = 1; };
static Op const MOV[] = {Op::NOP, Op::MOVF, Op::MOVI, Op::MOVS, Op::NOP, Op::MOVVF, Op::NOP, Op::MOVVI};
struct P : Dat {
	// a parameter or local variable
	uint32_t var(std::string n, uint32_t type) {
		if (type == TFLOAT) return fvar(std::move(n));
		if (type == TSTRING) return svar(std::move(n));
		if (type == TINST) return inst(std::move(n));
		return ivar(std::move(n));
	}
	void take(uint32_t first, std::vector<uint32_t> const& types) {
		for (size_t i = types.size(); i-- > 0;) pushv(first + (uint32_t) i).op(MOV[types[i]]);
	}
	uint32_t bl(uint32_t target = 0) { op(Op::BL, target); return here() - 4; }
};
static void sentinel(DaedalusVm& vm, int32_t s, int32_t below) {
	CHECK(vm.pop_int() == s);
	CHECK(vm.pop_int() == below);
	CHECK(throws([&] { (void) vm.pop_reference(); })); // nothing else
}
static void arguments(bool many) {
	unsigned n = many ? 20 : choose(0, 3, "params");
	std::vector<uint32_t> types;
	uint32_t const kinds[] = {TINT, TFLOAT, TSTRING, TINST};
	for (unsigned i = 0; i < n; ++i) types.push_back(kinds[many ? i * 7 / 3 % 4 : choose(0, 3, "kind")]);
	int32_t x[20]; std::string s[20];
	P d;
	uint32_t main = d.func("MAIN", 0, 0);
	uint32_t g[20], v[20];
	for (unsigned i = 0; i < n; ++i) {
		x[i] = sym<int32_t>("x"); s[i] = sym_line(2, "s");
		for (char c : s[i]) ASSUME(c != '\\');
		g[i] = d.inst(std::string("G") + (char) ('0' + i));
		v[i] = d.svar(std::string("V") + (char) ('0' + i), {s[i]});
	}
	(void) main;
	for (unsigned i = 0; i < n; ++i) { if (types[i] == TSTRING) d.pushv(v[i]); else if (types[i] == TINST) d.op(Op::PUSHVI, g[i]); else d.pushi(x[i]); }
	uint32_t fix = d.bl();
	uint32_t after = d.ivar("AFTER");
	d.pushi(77).pushv(after).op(Op::MOVI).ret();
	uint32_t f = d.func("F", n, d.here());
	uint32_t first = f + 1;
	for (unsigned i = 0; i < n; ++i) d.var(std::string("F.P") + (char) ('0' + i), types[i]);
	d.at(fix, d.here());
	d.take(first, types);
	d.ret();
	DaedalusVm vm {d.script()};
	std::shared_ptr<DaedalusInstance> o[20];
	for (unsigned i = 0; i < n; ++i) { o[i] = std::make_shared<Obj>(); vm.find_symbol_by_index(g[i])->set_instance(o[i]); }
	int32_t mark = sym<int32_t>("mark");
	vm.push_int(11); vm.push_int(mark);
	vm.call_function("MAIN");
	sentinel(vm, mark, 11);
	CHECK(vm.find_symbol_by_index(after)->get_int() == 77);
	for (unsigned i = 0; i < n; ++i) {
		auto* p = vm.find_symbol_by_index(first + i);
		if (types[i] == TINT) CHECK(p->get_int() == x[i]);
		if (types[i] == TFLOAT) { float e; memcpy(&e, &x[i], 4); CHECK(same(p->get_float(), e)); }
		if (types[i] == TSTRING) CHECK(same(p->get_string(), s[i]));
		if (types[i] == TINST) CHECK(p->get_instance() == o[i]);
	}
}
HARNESS(C24_arguments) { arguments(false); }
HARNESS(C24_many_arguments) { arguments(true); }
HARNESS(C24_host_arguments) {
	P d;
	uint32_t f = d.func("F", 5, 0, TINT);
	std::vector<uint32_t> types {TINT, TFLOAT, TSTRING, TINST, TINT};
	for (size_t i = 0; i < 5; ++i) d.var(std::string("F.P") + (char) ('0' + i), types[i]);
	d.take(f + 1, types);
	d.pushv(f + 5).pushv(f + 1).op(Op::SUB).ret(); // p0 - p4
	DaedalusVm vm {d.script()};
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), mark = sym<int32_t>("mark");
	uint32_t bits = sym<uint32_t>("f"); float fl; memcpy(&fl, &bits, 4);
	std::string s = sym_raw(3, "s");
	std::shared_ptr<DaedalusInstance> o = std::make_shared<Obj>();
	vm.push_int(9); vm.push_int(mark);
	int32_t r = vm.call_function<int32_t>("f", a, fl, std::string_view(s), o, b);
	CHECK(r == (int32_t) ((uint32_t) a - (uint32_t) b));
	CHECK(vm.find_symbol_by_index(f + 1)->get_int() == a);
	CHECK(same(vm.find_symbol_by_index(f + 2)->get_float(), fl));
	CHECK(same(vm.find_symbol_by_index(f + 3)->get_string(), s));
	CHECK(vm.find_symbol_by_index(f + 4)->get_instance() == o);
	CHECK(vm.find_symbol_by_index(f + 5)->get_int() == b);
	sentinel(vm, mark, 9);
}
HARNESS(C24_return_values) {
	unsigned kind = choose(0, 3, "kind"), surplus = choose(0, 2, "surplus");
	bool missing = choose(0, 1, "missing"), nested = choose(0, 1, "nested"), ignore = choose(0, 1, "ignore");
	uint32_t const kinds[] = {TINT, TFLOAT, TSTRING, TINST};
	int32_t x = sym<int32_t>("x"), mark = sym<int32_t>("mark");
	std::string s = sym_line(2, "s"); for (char c : s) ASSUME(c != '\\');
	P d;
	uint32_t g = d.inst("G"), v = d.svar("V", {s});
	d.func("OUTER", 0, d.here(), kinds[kind]);
	uint32_t fix = d.bl(); d.ret();
	d.at(fix, d.here());
	d.func("F", 0, d.here(), kinds[kind]);
	if (!missing) {
		for (unsigned i = 0; i < surplus; ++i) d.pushi(1000 + (int32_t) i); // results of calls nobody used
		if (kind == 2) d.pushv(v); else if (kind == 3) d.op(Op::PUSHVI, g); else d.pushi(x);
	}
	d.ret();
	DaedalusVm vm {d.script()};
	std::shared_ptr<DaedalusInstance> o = std::make_shared<Obj>();
	vm.find_symbol_by_index(g)->set_instance(o);
	char const* name = nested ? "OUTER" : "F";
	vm.push_int(5); vm.push_int(mark);
	if (ignore) vm.call_function(name);
	else if (kind == 0) CHECK(vm.call_function<int32_t>(name) == (missing ? 0 : x));
	else if (kind == 1) { float e = 0; if (!missing) memcpy(&e, &x, 4); CHECK(same(vm.call_function<float>(name), e)); }
	else if (kind == 2) CHECK(same(vm.call_function<std::string>(name), missing ? std::string() : s));
	else { vm.unsafe_call(vm.find_symbol_by_name(name)); CHECK(vm.pop_instance() == (missing ? nullptr : o)); }
	sentinel(vm, mark, 5);
}
HARNESS(C24_nested_calls) {
	// MAIN(a,b) = a - F(b);  F(c) = G(c, 3) * 2 ... expressions keep their operands while a call runs
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), mark = sym<int32_t>("mark");
	P d;
	uint32_t m = d.func("MAIN", 2, 0, TINT); d.ivar("MAIN.A"); d.ivar("MAIN.B");
	d.take(m + 1, {TINT, TINT});
	d.pushv(m + 2); uint32_t fix1 = d.bl(); d.pushv(m + 1).op(Op::SUB).ret();
	d.at(fix1, d.here());
	uint32_t f = d.func("F", 1, d.here(), TINT); d.ivar("F.C");
	d.take(f + 1, {TINT});
	d.pushi(100).pushv(f + 1).pushi(3); uint32_t fix2 = d.bl(); d.op(Op::ADD).ret();
	d.at(fix2, d.here());
	uint32_t g = d.func("G", 2, d.here(), TINT); d.ivar("G.D"); d.ivar("G.E");
	d.take(g + 1, {TINT, TINT});
	d.pushv(g + 2).pushv(g + 1).op(Op::SUB).ret(); // d - e
	DaedalusVm vm {d.script()};
	vm.push_int(6); vm.push_int(mark);
	int32_t r = vm.call_function<int32_t>("MAIN", a, b);
	CHECK((uint32_t) r == (uint32_t) a - ((uint32_t) b - 3 + 100));
	sentinel(vm, mark, 6);
	r = vm.call_function<int32_t>("MAIN", b, a);
	CHECK((uint32_t) r == (uint32_t) b - ((uint32_t) a - 3 + 100));
}
HARNESS(C24_branches) {
	int32_t x = sym<int32_t>("x"), mark = sym<int32_t>("mark");
	P d;
	uint32_t f = d.func("F", 1, 0, TINT); d.ivar("F.X");
	d.take(f + 1, {TINT});
	d.pushv(f + 1); d.op(Op::BZ, 0); uint32_t fix = d.here() - 4;
	d.pushi(1); d.op(Op::B, 0); uint32_t fix2 = d.here() - 4;
	d.at(fix, d.here()); d.pushi(2);
	d.at(fix2, d.here()); d.ret();
	DaedalusVm vm {d.script()};
	vm.push_int(6); vm.push_int(mark);
	CHECK(vm.call_function<int32_t>("F", x) == (x == 0 ? 2 : 1));
	sentinel(vm, mark, 6);
}
HARNESS(C24_loop) {
	int32_t n = sym<int32_t>("n"), k = sym<int32_t>("k");
	ASSUME(n <= 3);
	P d;
	uint32_t f = d.func("F", 2, 0, TINT); d.ivar("F.N"); d.ivar("F.K"); uint32_t s = d.ivar("F.S"), i = d.ivar("F.I");
	d.take(f + 1, {TINT, TINT});
	d.pushi(0).pushv(s).op(Op::MOVI).pushi(0).pushv(i).op(Op::MOVI);
	uint32_t top = d.here();
	d.pushv(f + 1).pushv(i).op(Op::LT); d.op(Op::BZ, 0); uint32_t fix = d.here() - 4; // i < n
	d.pushv(f + 2).pushv(s).op(Op::ADDMOVI).pushi(1).pushv(i).op(Op::ADDMOVI).op(Op::B, top);
	d.at(fix, d.here()); d.pushv(s).ret();
	DaedalusVm vm {d.script()};
	uint32_t want = n <= 0 ? 0 : (uint32_t) n * (uint32_t) k;
	CHECK((uint32_t) vm.call_function<int32_t>("F", n, k) == want);
	CHECK((uint32_t) vm.call_function<int32_t>("F", n, k) == want);
}
// recursion with preserved local variables
static void recursion(unsigned params, unsigned locals, bool rest, bool deep = false) {
	uint32_t const lt[] = {TINT, TSTRING, TFLOAT, TINST};
	// F(n, p1, p2): l0 = n (first int local), ...; if (n) F(n - 1, p1, p2); return l0
	P d;
	uint32_t obj = d.inst("OBJ"), str = d.svar("STR", {"zero", "one", "two", "three"});
	(void) str;
	uint32_t f = d.func("F", params, d.here(), TINT);
	std::vector<uint32_t> types;
	for (unsigned i = 0; i < params; ++i) { types.push_back(TINT); d.ivar(std::string("F.P") + (char) ('0' + i)); }
	uint32_t l = f + 1 + params;
	for (unsigned i = 0; i < locals; ++i) {
		unsigned t = i == 0 ? 0 : deep ? i % 4 : choose(0, 3, "local");
		std::string n = std::string("F.L") + (char) ('0' + i);
		if (i == 0) d.ivar(n, std::vector<int32_t>(deep ? 20 : 2)); else d.var(n, lt[t]);
	}
	uint32_t log = d.ivar(rest ? "LOG" : "F.LOG", {0, 0, 0, 0}); // rest: the locals end before the end of the table
	(void) obj;
	d.take(f + 1, types);
	uint32_t n = f + 1;
	d.pushv(n).opvv(l, 1).op(Op::MOVI);                      // l0[1] = n
	for (unsigned i = 1; i < locals; ++i) {
		uint32_t v = l + i; auto& t = d.syms[v];
		if (t.type == TINT) d.pushv(n).pushv(v).op(Op::MOVI);
		else if (t.type == TFLOAT) d.pushv(n).pushv(v).op(Op::MOVI), d.text.resize(d.text.size() - 11), d.pushi(0x3F800000).pushv(v).op(Op::MOVF);
		else if (t.type == TSTRING) d.opvv(str, 2).pushv(v).op(Op::MOVS);
		else d.op(Op::PUSHVI, obj).pushv(v).op(Op::MOVVI);
	}
	// remember the remaining arguments of this activation: log[n] would need an index; sum them instead
	d.pushv(n); d.op(Op::BZ, 0); uint32_t skip = d.here() - 4;
	d.pushi(1).pushv(n).op(Op::SUB);                          // n - 1
	for (unsigned i = 1; i < params; ++i) d.pushv(f + 1 + i);
	d.op(Op::BL, d.syms[f].value.empty() ? 0 : 0); d.at(d.here() - 4, 0);
	d.opvv(log, 1).op(Op::MOVI);                              // drop the result
	d.at(skip, d.here());
	for (unsigned i = 1; i < params; ++i) d.pushv(f + 1 + i).opvv(log, 1 + i).op(Op::ADDMOVI);
	d.opvv(l, 1).ret();
	(void) 0;
	// SUB takes a from the top: n - 1 means push 1, push n
	DaedalusVm vm {d.script()};
	vm.find_symbol_by_index(f)->set_local_variables_enable(true);
	auto o = std::make_shared<Obj>();
	vm.find_symbol_by_index(obj)->set_instance(o);
	unsigned depth = deep ? 40 : choose(0, 3, "depth");
	int32_t p1 = deep ? 71 : sym<int32_t>("p1"), p2 = deep ? -72000 : sym<int32_t>("p2"), mark = sym<int32_t>("mark");
	vm.push_int(6); vm.push_int(mark);
	int32_t r;
	if (params == 1) r = vm.call_function<int32_t>("F", (int32_t) depth);
	else if (params == 2) r = vm.call_function<int32_t>("F", (int32_t) depth, p1);
	else r = vm.call_function<int32_t>("F", (int32_t) depth, p1, p2);
	CHECK(r == (int32_t) depth); // the local of the outermost activation survived
	sentinel(vm, mark, 6);
	if (rest) { // LOG is not a local: it accumulated what each activation received
		auto* lg = vm.find_symbol_by_index(log);
		if (params > 1) CHECK((uint32_t) lg->get_int(2) == (uint32_t) p1 * (depth + 1));
		if (params > 2) CHECK((uint32_t) lg->get_int(3) == (uint32_t) p2 * (depth + 1));
	}
	for (unsigned i = 1; i < locals; ++i) {
		auto* y = vm.find_symbol_by_index(l + i);
		if (y->type() == DaedalusDataType::STRING) CHECK(y->get_string() == "two");
		if (y->type() == DaedalusDataType::FLOAT) CHECK(y->get_float() == 1.f);
		if (y->type() == DaedalusDataType::INT) CHECK(y->get_int() == (int32_t) depth);
		if (y->type() == DaedalusDataType::INSTANCE) CHECK(y->get_instance() == o);
	}
}
HARNESS(C24_recursion_locals) { recursion(choose(1, 3, "params"), choose(1, 3, "locals"), true); }
HARNESS(C24_recursion_last_function) { recursion(choose(1, 3, "params"), choose(1, 2, "locals"), false); }
HARNESS(C24_recursion_deep) { recursion(3, 9, true, true); }
// many calls in a row leave nothing behind
HARNESS(C24_many_calls) {
	P d;
	int32_t x = sym<int32_t>("x"), mark = sym<int32_t>("mark");
	uint32_t f = d.func("F", 1, 0, TINT); d.ivar("F.P"); uint32_t cnt = d.ivar("CNT"), last = d.ivar("LAST"), g = 0;
	d.take(f + 1, {TINT}); d.pushi(1).pushv(cnt).op(Op::ADDMOVI).pushv(f + 1).ret();
	g = d.func("G", 1, d.here()); d.ivar("G.N");
	d.take(g + 1, {TINT});
	uint32_t top = d.here();
	d.pushv(g + 1); d.op(Op::BZ, 0); uint32_t fix = d.here() - 4;
	d.pushi(x).op(Op::BL, 0).pushv(last).op(Op::MOVI).pushi(1).pushv(g + 1).op(Op::SUBMOVI).op(Op::B, top);
	d.at(fix, d.here()); d.ret();
	DaedalusVm vm {d.script()};
	vm.push_int(6); vm.push_int(mark);
	bool locals = choose(0, 1, "locals");
	if (locals) vm.find_symbol_by_index(f)->set_local_variables_enable(true);
	for (unsigned i = 0; i < 1300; ++i) vm.call_function("F", x); // the result is not wanted
	CHECK(vm.find_symbol_by_index(cnt)->get_int() == 1300);
	vm.find_symbol_by_index(cnt)->set_int(0);
	vm.call_function("G", 700);
	CHECK(vm.find_symbol_by_index(cnt)->get_int() == 700);
	CHECK(vm.find_symbol_by_index(last)->get_int() == x);
	CHECK(vm.call_function<int32_t>("F", x) == x);
	sentinel(vm, mark, 6);
}
// a single one-element local and more parameters than locals
HARNESS(C24_recursion_few_locals) {
	P d;
	unsigned params = choose(2, 3, "params"), locals = choose(0, 2, "locals");
	uint32_t f = d.func("F", params, 0, TINT);
	std::vector<uint32_t> types;
	for (unsigned i = 0; i < params; ++i) { types.push_back(TINT); d.ivar(std::string("F.P") + (char) ('0' + i)); }
	for (unsigned i = 0; i < locals; ++i) d.ivar(std::string("F.L") + (char) ('0' + i), {(int32_t) i + 50});
	uint32_t end = d.ivar("END");
	d.take(f + 1, types);
	d.pushv(f + 1); d.op(Op::BZ, 0); uint32_t skip = d.here() - 4;
	d.pushi(0); for (unsigned i = 1; i < params; ++i) d.pushv(f + 1 + i);
	d.op(Op::BL, 0).ret();
	d.at(skip, d.here());
	d.pushv(f + params).ret(); // the innermost activation returns its last argument
	(void) end;
	DaedalusVm vm {d.script()};
	vm.find_symbol_by_index(f)->set_local_variables_enable(true);
	int32_t a = sym<int32_t>("a"), p1 = sym<int32_t>("p1"), p2 = sym<int32_t>("p2"), mark = sym<int32_t>("mark");
	vm.push_int(6); vm.push_int(mark);
	int32_t r = params == 2 ? vm.call_function<int32_t>("F", a, p1) : vm.call_function<int32_t>("F", a, p1, p2);
	CHECK(r == (params == 2 ? p1 : p2));
	CHECK(vm.find_symbol_by_index(f + 2)->get_int() == p1);
	for (unsigned i = 0; i < locals; ++i) CHECK(vm.find_symbol_by_index(f + 1 + params + i)->get_int() == (int32_t) i + 50);
	sentinel(vm, mark, 6);
}
// failing calls
struct HostError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Fail {
	P d; uint32_t ok, main, ctx, cls, out;
	unsigned depth, kind;
	Fail(unsigned depth, unsigned kind) : depth(depth), kind(kind) {
		cls = d.cls("C", 0);
		ctx = d.inst("CTX"); out = d.ivar("OUT");
		uint32_t ext = d.func("EXT", 1, 0xFFFF, TINT, FCONST | FEXTERNAL); d.ivar("EXT.P");
		ok = d.func("OK", 2, d.here(), TINT); d.ivar("OK.A"); d.ivar("OK.B");
		d.take(ok + 1, {TINT, TINT}); d.pushv(ok + 2).pushv(ok + 1).op(Op::SUB).ret();
		uint32_t prev = 0;
		for (unsigned i = 0; i < depth; ++i) {
			uint32_t f = d.func(std::string("F") + (char) ('0' + i), 1, d.here(), TINT); d.ivar(std::string("F") + (char) ('0' + i) + ".P");
			uint32_t at = d.here();
			d.take(f + 1, {TINT});
			d.pushi(123).op(Op::GMOVI, ctx); // an operand in use, and another context
			if (i == 0) {
				switch (kind) {
				case 0: d.pushi(0).pushi(5).op(Op::DIV); break;
				case 1: case 2: d.pushi(1).op(Op::BE, ext); break;
				case 3: d.op(Op::B, 0x7FFFFFFF); break;
				case 4: d.pushv(99999); break;
				case 5: d.op(Op::BL, 0x1234567); break;
				case 6: d.pushi(1).pushi(2).op(Op::MOVI); break;
				}
			} else d.pushi(7).op(Op::BL, prev);
			d.op(Op::ADD).ret();
			prev = at; main = f;
		}
	}
	void bind(DaedalusVm& vm) {
		unsigned k = kind;
		vm.register_external("EXT", std::function<int32_t(int32_t)>([k](int32_t) -> int32_t { if (k == 1) throw DaedalusVmException {"ext"}; throw HostError("host"); }));
	}
};
HARNESS(C24_failure) {
	unsigned depth = choose(1, 3, "depth"), kind = choose(0, 6, "kind"), rounds = choose(1, 2, "rounds");
	Fail w(depth, kind);
	bool locals = choose(0, 1, "locals");
	DaedalusVm vm {w.d.script()};
	w.bind(vm);
	if (locals) vm.find_symbol_by_index(w.ok)->set_local_variables_enable(true), vm.find_symbol_by_index(w.main)->set_local_variables_enable(true);
	auto gi = std::make_shared<Obj>(), other = std::make_shared<Obj>();
	vm.find_symbol_by_index(w.ctx)->set_instance(other);
	vm.unsafe_set_gi(gi);
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), mark = sym<int32_t>("mark");
	vm.push_int(6); vm.push_int(mark);
	for (unsigned i = 0; i < rounds; ++i) CHECK(throws([&] { (void) vm.call_function<int32_t>(vm.find_symbol_by_index(w.main), a); }));
	CHECK(vm.unsafe_get_gi() == gi);
	CHECK((uint32_t) vm.call_function<int32_t>("OK", a, b) == (uint32_t) a - (uint32_t) b);
	sentinel(vm, mark, 6);
}
HARNESS(C24_failure_handled) {
	// the handler decides what happens: go on after the instruction, return from the function, or fail
	unsigned depth = choose(1, 3, "depth"), kind = choose(0, 1, "kind"), strategy = choose(0, 1, "strategy");
	Fail w(depth, kind);
	DaedalusVm vm {w.d.script()};
	w.bind(vm);
	int calls = 0;
	vm.register_exception_handler([&](DaedalusVm& v, DaedalusScriptError const& e, DaedalusInstruction const& in) {
		++calls;
		if (strategy) return DaedalusVmExceptionStrategy::RETURN;
		return lenient_vm_exception_handler(v, e, in);
	});
	auto gi = std::make_shared<Obj>();
	vm.unsafe_set_gi(gi);
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), mark = sym<int32_t>("mark");
	vm.push_int(6); vm.push_int(mark);
	int32_t r = vm.call_function<int32_t>(vm.find_symbol_by_index(w.main), a);
	CHECK(calls == 1);
	// innermost: 0 + 123 when going on; on return the topmost value (the operand in use, or the substituted result) is what is left
	if (!strategy) CHECK(r == 123 * (int32_t) depth);
	CHECK(vm.unsafe_get_gi() == gi);
	CHECK((uint32_t) vm.call_function<int32_t>("OK", a, b) == (uint32_t) a - (uint32_t) b);
	sentinel(vm, mark, 6);
}
// the handler gives up on the inner function but lets its caller go on: control resumes after the call
HARNESS(C24_failure_resumed) {
	Fail w(2, choose(0, 1, "kind"));
	// MAIN: out = 0; F1(7)...; the caller goes on with the substituted result
	DaedalusVm vm {w.d.script()};
	w.bind(vm);
	vm.register_exception_handler([&](DaedalusVm& v, DaedalusScriptError const&, DaedalusInstruction const& in) {
		if (in.op == Op::BL) { v.push_int(1000); return DaedalusVmExceptionStrategy::CONTINUE; }
		return DaedalusVmExceptionStrategy::FAIL;
	});
	int32_t a = sym<int32_t>("a"), mark = sym<int32_t>("mark");
	vm.push_int(6); vm.push_int(mark);
	CHECK(vm.call_function<int32_t>("F1", a) == 1123);
	sentinel(vm, mark, 6);
}
// objects: the script that fills an object sees it as its own and as self; afterwards everything is as before
HARNESS(C24_init_instance) {
	P d;
	bool has_self = choose(0, 1, "self"), proto = choose(0, 1, "proto"), fail = choose(0, 1, "fail");
	int32_t x = sym<int32_t>("x"), y = sym<int32_t>("y"), mark = sym<int32_t>("mark");
	uint32_t c = d.cls("C", 1), m = d.member("C.N", TINT, c), self = 0;
	if (has_self) self = d.inst("SELF");
	uint32_t parent = c, fix = 0;
	if (proto) parent = d.proto("PROTO", c, 0);
	uint32_t seen = d.inst("SEEN");
	if (proto) d.pushi(y).pushv(m).op(Op::MOVI).ret();
	uint32_t i = d.inst("I", parent, d.here(), FCONST);
	if (proto) d.op(Op::BL, 0);
	d.pushi(x).pushv(m).op(Op::ADDMOVI);
	if (has_self) d.op(Op::PUSHVI, self).pushv(seen).op(Op::MOVVI);
	if (fail) d.pushi(0).pushi(1).op(Op::DIV);
	d.ret();
	(void) fix;
	DaedalusVm vm {d.script()};
	vm.register_member("C.N", &Obj::n);
	auto gi = std::make_shared<Obj>();
	vm.unsafe_set_gi(gi);
	if (has_self) vm.global_self()->set_instance(gi);
	vm.push_int(6); vm.push_int(mark);
	std::shared_ptr<Obj> o = std::make_shared<Obj>();
	bool failed = throws([&] { vm.init_instance<Obj>(o, "I"); });
	CHECK(failed == fail);
	CHECK(o->n == (int32_t) ((uint32_t) x + (proto ? (uint32_t) y : 1u)));
	CHECK(gi->n == 1);
	CHECK(vm.unsafe_get_gi() == gi);
	if (has_self) { CHECK(vm.global_self()->get_instance() == gi); CHECK(vm.find_symbol_by_index(seen)->get_instance() == o); }
	CHECK(vm.find_symbol_by_index(i)->get_instance() == o);
	CHECK(o->symbol_index() == i);
	sentinel(vm, mark, 6);
}
HARNESS(C24_context_restored) { // a callee that selects another object leaves the caller's selection alone
	P d;
	int32_t x = sym<int32_t>("x");
	uint32_t c = d.cls("C", 1), m = d.member("C.N", TINT, c), a = d.inst("A", c), b = d.inst("B", c);
	uint32_t main = d.func("MAIN", 0, 0); (void) main;
	d.op(Op::GMOVI, a); uint32_t fix = d.bl(); d.pushi(x).pushv(m).op(Op::MOVI).ret();
	d.at(fix, d.here());
	d.func("F", 0, d.here());
	d.op(Op::GMOVI, b).pushi(5).pushv(m).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	vm.register_member("C.N", &Obj::n);
	auto oa = vm.allocate_instance<Obj>("A"), ob = vm.allocate_instance<Obj>("B");
	vm.call_function("MAIN");
	CHECK(oa->n == x); CHECK(ob->n == 5);
	CHECK(vm.unsafe_get_gi() == nullptr);
}
// many strings on the stack at once
HARNESS(C24_many_strings) {
	P d;
	d.func("F", 0, 0); d.ret();
	DaedalusVm vm {d.script()};
	unsigned n = 300;
	std::string s = sym_raw(2, "s");
	for (unsigned i = 0; i < n; ++i) vm.push_string(i == 280 ? std::string_view(s) : i % 2 ? "odd" : "even");
	for (unsigned i = n; i-- > 0;) {
		std::string const& g = vm.pop_string();
		CHECK(same(std::string(g), i == 280 ? s : std::string(i % 2 ? "odd" : "even")));
	}
}
HARNESS(C24_ignored_strings) { // results nobody reads do not disturb later ones
	P d;
	std::string s = sym_line(2, "s"); for (char c : s) ASSUME(c != '\\');
	d.func("EXT", 0, 0xFFFF, TSTRING, FCONST | FEXTERNAL);
	d.func("F", 0, d.here(), TSTRING); d.op(Op::BE, 0).ret();
	uint32_t v = d.svar("V");
	d.func("G", 0, d.here()); d.op(Op::BE, 0).pushv(v).op(Op::MOVS).ret();
	DaedalusVm vm {d.script()};
	vm.register_external("EXT", std::function<std::string()>([&]() { return s; }));
	for (unsigned i = 0; i < 260; ++i) vm.call_function("F");
	vm.call_function("G");
	CHECK(same(vm.find_symbol_by_index(v)->get_string(), s));
	CHECK(same(vm.call_function<std::string>("F"), s));
}
// whatever is on the stack when a script fails, the failure is reported to the host and nothing else happens
HARNESS(C24_failure_report) {
	P d;
	unsigned what = choose(0, 8, "what");
	int32_t x = sym<int32_t>("x");
	uint32_t c = d.cls("C", 1), m = d.member("C.N", TINT, c), mf = d.member("C.F", TFLOAT, c), ms = d.member("C.S", TSTRING, c);
	uint32_t fv = d.func("FV", 1, 0, TVOID, 0), fc = d.func("FC", 1, 0xFFFF), fp = d.ivar("FC.P"), in = d.inst("IN"), self = d.inst("SELF"), arr = d.ivar("ARR", {1, 2});
	(void) fp;
	d.func("F", 0, d.here());
	if (what == 0) { d.pushi(x).pushv(fv).op(Op::MOVVF).pushv(fv); }
	else if (what == 1) d.pushv(m);
	else if (what == 2) d.pushv(mf);
	else if (what == 3) d.pushv(ms);
	else if (what == 4) d.op(Op::PUSHVI, in);
	else if (what == 5) d.opvv(arr, 200);
	else if (what == 6) d.pushv(c);
	else if (what == 7) d.pushv(fc);
	d.op(Op::B, 0x7FFFFFFF).ret();
	DaedalusVm vm {d.script()};
	auto o = std::make_shared<Obj>(); // an object the machine has not initialised
	vm.find_symbol_by_index(in)->set_instance(o);
	if (what == 8) { vm.push_instance(o); vm.find_symbol_by_index(self)->set_instance(o); vm.unsafe_set_gi(o); }
	bool jump = false;
	try { vm.call_function("F"); } catch (DaedalusVmException& e) { jump = std::string_view(e.what()).find("illegal address") != std::string_view::npos; } catch (DaedalusScriptError&) {}
	CHECK(jump);
}
// calls with too few arguments on the stack (the script is wrong, the machine must survive)
HARNESS(C24_missing_arguments) {
	P d;
	bool ret = choose(0, 1, "ret"), locals = choose(0, 1, "locals");
	unsigned given = choose(0, 2, "given");
	int32_t x = sym<int32_t>("x");
	d.func("MAIN", 0, 0);
	for (unsigned i = 0; i < given; ++i) d.pushi(x);
	uint32_t fix = d.bl(); d.ret();
	d.at(fix, d.here());
	uint32_t f = d.func("F", 3, d.here(), ret ? TINT : TVOID); for (int i = 0; i < 3; ++i) d.ivar(std::string("F.P") + (char) ('0' + i));
	d.take(f + 1, {TINT, TINT, TINT});
	d.ret();
	d.func("OK", 0, d.here(), TINT); d.pushi(4).ret();
	DaedalusVm vm {d.script()};
	if (locals) vm.find_symbol_by_index(f)->set_local_variables_enable(true);
	(void) throws([&] { vm.call_function("MAIN"); });
	(void) throws([&] { vm.unsafe_call(vm.find_symbol_by_index(f)); });
	CHECK(vm.call_function<int32_t>("OK") == 4);
	CHECK(throws([&] { (void) vm.call_function<int32_t>("F", x); }));
	CHECK(throws([&] { (void) vm.call_function<int32_t>("F", x, x, x, x); }));
	CHECK(vm.call_function<int32_t>("OK") == 4);
}
