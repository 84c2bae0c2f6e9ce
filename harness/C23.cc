// C23: script arithmetic, comparison and assignment compute what they mean
//@bound all 32-bit operand values for every operator and both operand orders, operands given as immediates, variables, array elements and object members; all assignment kinds with arbitrary values, array lengths up to 3 with every element index (and element 300 of 400), strings of up to 3 arbitrary bytes; programs of one operator and two-operator compositions
//@assume shift counts between 0 and 31
//@outside longer programs (each instruction's effect on the machine is decided separately)
#include "dae.h"
#include <functional>
using Op = DaedalusOpcode;
static Op const BIN[] = {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::MOD, Op::OR, Op::ANDB, Op::LT, Op::GT, Op::ORR, Op::AND, Op::LSL, Op::LSR, Op::LTE, Op::EQ, Op::NEQ, Op::GTE};
static Op const UN[] = {Op::PLUS, Op::NEGATE, Op::NOT, Op::CMPL};
static int32_t binary(Op o, int32_t a, int32_t b) {
	uint32_t x = (uint32_t) a, y = (uint32_t) b;
	switch (o) {
	case Op::ADD: return (int32_t) (x + y);
	case Op::SUB: return (int32_t) (x - y);
	case Op::MUL: return (int32_t) (x * y);
	case Op::DIV: return b == -1 ? (int32_t) (0u - x) : a / b;
	case Op::MOD: return b == -1 ? 0 : a % b;
	case Op::OR: return (int32_t) (x | y);
	case Op::ANDB: return (int32_t) (x & y);
	case Op::LT: return a < b;
	case Op::GT: return a > b;
	case Op::ORR: return (a != 0) | (b != 0);
	case Op::AND: return (a != 0) & (b != 0);
	case Op::LSL: return (int32_t) (x << (y & 31));
	case Op::LSR: return a < 0 ? (int32_t) ~(~x >> (y & 31)) : (int32_t) (x >> (y & 31));
	case Op::LTE: return a <= b;
	case Op::EQ: return a == b;
	case Op::NEQ: return a != b;
	case Op::GTE: return a >= b;
	default: return 0;
	}
}
static int32_t unary(Op o, int32_t a) {
	return o == Op::PLUS ? a : o == Op::NEGATE ? (int32_t) (0u - (uint32_t) a) : o == Op::NOT ? a == 0 : (int32_t) ~(uint32_t) a;
}
static void call(DaedalusVm& vm, int32_t& out, bool& failed) {
	failed = false;
	try { out = vm.call_function<int32_t>("F"); } catch (DaedalusScriptError&) { failed = true; }
}
static void run_binary(unsigned how, Op op) {
	int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b");
	if (op == Op::LSL || op == Op::LSR) ASSUME((b >= 0) & (b <= 31));
	Dat d;
	d.func("F", 0, 0, TINT);
	uint32_t va = d.ivar("A", {a}), vb = d.ivar("B", {5, 6, b});
	if (how == 0) d.pushi(b).pushi(a);
	else if (how == 1) d.opvv(vb, 2).pushv(va);
	else d.opvv(vb, 2).pushi(a);
	d.op(op).ret();
	DaedalusVm vm {d.script()};
	int32_t r = 0; bool failed;
	call(vm, r, failed);
	bool zero = (op == Op::DIV || op == Op::MOD) && b == 0;
	CHECK(failed == zero);
	if (!zero) CHECK(r == binary(op, a, b));
	CHECK(vm.find_symbol_by_index(va)->get_int() == a);
	CHECK(vm.find_symbol_by_index(vb)->get_int(2) == b);
}
HARNESS(C23_binary_cheap) {
	unsigned k = choose(0, 16, "op");
	Op op = BIN[k];
	ASSUME((op != Op::MUL) & (op != Op::DIV) & (op != Op::MOD));
	run_binary(choose(0, 2, "how"), op);
}
HARNESS(C23_multiply) { run_binary(choose(0, 2, "how"), Op::MUL); }
HARNESS(C23_divide) { run_binary(choose(0, 2, "how"), Op::DIV); }
HARNESS(C23_remainder) { run_binary(choose(0, 2, "how"), Op::MOD); }
HARNESS(C23_unary) {
	Op op = UN[choose(0, 3, "op")];
	int32_t a = sym<int32_t>("a");
	Dat d;
	d.func("F", 0, 0, TINT);
	uint32_t va = d.ivar("A", {a});
	if (choose(0, 1, "how")) d.pushi(a); else d.pushv(va);
	d.op(op).op(Op::NOP).ret();
	DaedalusVm vm {d.script()};
	int32_t r = 0; bool failed;
	call(vm, r, failed);
	CHECK(!failed);
	CHECK(r == unary(op, a));
	CHECK(vm.find_symbol_by_index(va)->get_int() == a);
}
// x op (y op z) and (x op y) op z: operands of nested expressions stay apart
HARNESS(C23_nested) {
	Op p = BIN[choose(0, 16, "p")], q = BIN[choose(0, 16, "q")];
	for (Op o : {p, q}) ASSUME((o != Op::MUL) & (o != Op::DIV) & (o != Op::MOD) & (o != Op::LSL) & (o != Op::LSR));
	int32_t x = sym<int32_t>("x"), y = sym<int32_t>("y"), z = sym<int32_t>("z");
	bool left = choose(0, 1, "left");
	Dat d;
	d.func("F", 0, 0, TINT);
	if (left) d.pushi(z).pushi(y).pushi(x).op(p).op(q); // (x p y) q z
	else d.pushi(z).pushi(y).op(q).pushi(x).op(p);      // x p (y q z)
	d.ret();
	DaedalusVm vm {d.script()};
	int32_t r = 0; bool failed;
	call(vm, r, failed);
	CHECK(!failed);
	CHECK(r == (left ? binary(q, binary(p, x, y), z) : binary(p, x, binary(q, y, z))));
}
static void run_compound(unsigned k) {
	Op const op[] = {Op::ADDMOVI, Op::SUBMOVI, Op::MULMOVI, Op::DIVMOVI, Op::MOVI};
	Op const eq[] = {Op::ADD, Op::SUB, Op::MUL, Op::DIV};
	int32_t x = sym<int32_t>("x"), b = sym<int32_t>("b"), o0 = sym<int32_t>("o0"), o1 = sym<int32_t>("o1");
	unsigned i = choose(0, 2, "index");
	bool konst = choose(0, 1, "const"), ignore = choose(0, 1, "ignore");
	std::vector<int32_t> v {o0, o1, o1};
	v[i] = x;
	Dat d;
	d.func("F", 0, 0);
	uint32_t va = d.ivar("A", v, konst ? FCONST : 0), vb = d.ivar("B", {b});
	if (choose(0, 1, "how")) d.pushi(b); else d.pushv(vb);
	if (i == 0) d.pushv(va); else d.opvv(va, i);
	d.op(op[k]).ret();
	DaedalusVm vm {d.script(), ignore ? DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER : DaedalusVmExecutionFlag::NONE};
	bool failed = false;
	try { vm.call_function("F"); } catch (DaedalusScriptError&) { failed = true; }
	bool bad = (konst && !ignore) || (k == 3 && b == 0);
	CHECK(failed == bad);
	for (unsigned j = 0; j < 3; ++j) {
		int32_t want = v[j];
		if (j == i && !bad) want = k == 4 ? b : binary(eq[k], x, b);
		CHECK(vm.find_symbol_by_index(va)->get_int((uint16_t) j) == want);
	}
	CHECK(vm.find_symbol_by_index(vb)->get_int() == b);
}
HARNESS(C23_compound_add) { run_compound(choose(0, 1, "op")); }
HARNESS(C23_compound_multiply) { run_compound(2); }
HARNESS(C23_compound_divide) { run_compound(3); }
HARNESS(C23_assign_int) { run_compound(4); }
HARNESS(C23_assign_function) { // function variables hold the index of a function
	int32_t b = sym<int32_t>("b");
	Dat d;
	d.func("F", 0, 0);
	uint32_t va = d.func("G", 1, 0, TVOID, 0), vb = d.ivar("B", {b});
	if (choose(0, 1, "how")) d.pushi(b); else d.pushv(vb);
	d.pushv(va).op(Op::MOVVF).ret();
	DaedalusVm vm {d.script()};
	vm.call_function("F");
	CHECK(vm.find_symbol_by_index(va)->get_int() == b);
	CHECK(vm.find_symbol_by_index(vb)->get_int() == b);
}
HARNESS(C23_assign_float) {
	uint32_t bits = sym<uint32_t>("bits"), old = sym<uint32_t>("old");
	float f, o; memcpy(&f, &bits, 4); memcpy(&o, &old, 4);
	unsigned i = choose(0, 2, "index"), how = choose(0, 2, "how");
	bool konst = choose(0, 1, "const");
	Dat d;
	d.func("F", 0, 0);
	uint32_t va = d.fvar("A", {o, o, o}, konst ? FCONST : 0), vb = d.fvar("B", {1.f, f});
	if (how == 0) d.pushi((int32_t) bits); else d.opvv(vb, 1);
	if (how == 2) d.pushv(va); else d.opvv(va, i);
	d.op(Op::MOVF).ret();
	DaedalusVm vm {d.script()};
	bool failed = throws([&] { vm.call_function("F"); });
	CHECK(failed == konst);
	for (unsigned j = 0; j < 3; ++j) CHECK(same(vm.find_symbol_by_index(va)->get_float((uint16_t) j), !konst && j == (how == 2 ? 0 : i) ? f : o));
	CHECK(same(vm.find_symbol_by_index(vb)->get_float(1), f));
}
HARNESS(C23_assign_string) {
	unsigned n = choose(0, 3, "len"), i = choose(0, 2, "index");
	std::string s = sym_raw(n, "s");
	for (char c : s) ASSUME((c != 0) & (c != '\n') & (c != '\r') & (c != '\\'));
	bool konst = choose(0, 1, "const"), chain = choose(0, 1, "chain");
	Dat d;
	d.func("F", 0, 0);
	uint32_t va = d.svar("A", {"p", "q", "a long string which does not fit in place"}, konst ? FCONST : 0), vb = d.svar("B", {"z", s}), vc = d.svar("C", {"old"});
	if (chain) { // c = b[1]; a[i] = c
		d.opvv(vb, 1).pushv(vc).op(Op::MOVS);
		d.pushv(vc);
	} else d.opvv(vb, 1);
	d.opvv(va, i).op(Op::MOVS).ret();
	DaedalusVm vm {d.script()};
	bool failed = throws([&] { vm.call_function("F"); });
	CHECK(failed == konst);
	char const* old[] = {"p", "q", "a long string which does not fit in place"};
	for (unsigned j = 0; j < 3; ++j) CHECK(same(vm.find_symbol_by_index(va)->get_string((uint16_t) j), !konst && j == i ? s : std::string(old[j])));
	CHECK(same(vm.find_symbol_by_index(vb)->get_string(1), s));
	CHECK(same(vm.find_symbol_by_index(vc)->get_string(), chain ? s : std::string("old")));
}
HARNESS(C23_assign_self) { // a = a
	std::string s = sym_line(2, "s");
	for (char c : s) ASSUME(c != '\\');
	int32_t x = sym<int32_t>("x");
	Dat d;
	d.func("F", 0, 0);
	uint32_t va = d.svar("A", {s}), vb = d.ivar("B", {x});
	d.pushv(va).pushv(va).op(Op::MOVS).pushv(vb).pushv(vb).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	vm.call_function("F");
	CHECK(same(vm.find_symbol_by_index(va)->get_string(), s));
	CHECK(vm.find_symbol_by_index(vb)->get_int() == x);
}
struct Obj : DaedalusInstance { int32_t n = 1; float f = 2.f; std::string s = "s"; int32_t arr[3] = {10, 20, 30}; };
struct World2 {
	Dat d; uint32_t c, mn, mf, ms, ma, i1, i2;
	World2() {
		c = d.cls("C", 4);
		mn = d.member("C.N", TINT, c); mf = d.member("C.F", TFLOAT, c); ms = d.member("C.S", TSTRING, c); ma = d.member("C.ARR", TINT, c, 3);
		i1 = d.inst("I1", c, 0, FCONST); i2 = d.inst("I2", c, 0, 0);
	}
	static void bind(DaedalusVm& vm) {
		vm.register_member("C.N", &Obj::n); vm.register_member("C.F", &Obj::f); vm.register_member("C.S", &Obj::s); vm.register_member("C.ARR", &Obj::arr);
	}
};
HARNESS(C23_assign_instance) {
	World2 w;
	w.d.func("F", 0, 0);
	bool null = choose(0, 1, "null");
	w.d.op(Op::PUSHVI, w.i1).op(Op::PUSHVI, w.i2).op(Op::MOVVI).ret();
	DaedalusVm vm {w.d.script()};
	World2::bind(vm);
	std::shared_ptr<Obj> o;
	if (!null) o = vm.allocate_instance<Obj>("I1");
	vm.call_function("F");
	CHECK(vm.find_symbol_by_index(w.i2)->get_instance() == o);
	CHECK(vm.find_symbol_by_index(w.i1)->get_instance() == o);
}
// members: the object chosen last by the script is the one read and written
HARNESS(C23_members) {
	World2 w;
	int32_t x = sym<int32_t>("x"), y = sym<int32_t>("y");
	unsigned k = choose(0, 3, "kind"), idx = choose(0, 2, "index");
	w.d.func("F", 0, 0);
	uint32_t tmp = w.d.ivar("T");
	// i1.<m> = x; t = i1.<m> read while i2 is selected afterwards
	w.d.pushi(x).op(Op::GMOVI, w.i1);
	if (k == 0) w.d.pushv(w.mn).op(Op::MOVI);
	else if (k == 1) w.d.pushv(w.mf).op(Op::MOVF);
	else if (k == 2) w.d.opvv(w.ma, idx).op(Op::MOVI);
	else w.d.pushv(w.mn).op(Op::ADDMOVI);
	w.d.pushv(w.mn);                 // reference to i1.n
	w.d.op(Op::GMOVI, w.i2);
	w.d.pushv(w.mn).op(Op::ADD).pushv(tmp).op(Op::MOVI).ret(); // t = i2.n + i1.n
	DaedalusVm vm {w.d.script()};
	World2::bind(vm);
	auto a = vm.allocate_instance<Obj>("I1"), b = vm.allocate_instance<Obj>("I2");
	b->n = y;
	vm.call_function("F");
	float f; memcpy(&f, &x, 4);
	int32_t n = k == 0 ? x : k == 3 ? (int32_t) (1u + (uint32_t) x) : 1;
	CHECK(a->n == n);
	CHECK(same(a->f, k == 1 ? f : 2.f));
	for (unsigned j = 0; j < 3; ++j) CHECK(a->arr[j] == (k == 2 && j == idx ? x : (int32_t) (10 * (j + 1))));
	CHECK(a->s == "s");
	CHECK(b->n == y); CHECK(b->f == 2.f); CHECK(b->arr[0] == 10 && b->arr[1] == 20 && b->arr[2] == 30);
	CHECK(vm.find_symbol_by_index(tmp)->get_int() == (int32_t) ((uint32_t) n + (uint32_t) y));
}
HARNESS(C23_far_element) { // elements beyond 255 are not reachable by PUSHVV, those below are exact
	int32_t x = sym<int32_t>("x");
	unsigned const at[] = {0, 127, 128, 255};
	unsigned i = at[choose(0, 3, "index")];
	Dat d;
	d.func("F", 0, 0);
	std::vector<int32_t> v(400, 3);
	uint32_t va = d.ivar("A", v);
	d.pushi(x).opvv(va, i).op(Op::MOVI).ret();
	DaedalusVm vm {d.script()};
	vm.call_function("F");
	for (unsigned j : {0u, 127u, 128u, 255u, 256u, 383u}) CHECK(vm.find_symbol_by_index(va)->get_int((uint16_t) j) == (j == i ? x : 3));
}
