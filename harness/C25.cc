// C25: script symbol access is checked: kind, index, constness and owner
//@bound all 16-bit indices and all values; element counts 0-3 (and 300); every symbol kind with every accessor; members bound to host objects (single and array members), to script-only objects with up to 3 members of mixed kinds, and to transient objects; contexts: none, right class, other class, uninitialised
//@assume members are registered with the host field of the object they are used with
//@outside larger classes
#include "dae.h"
using Op = DaedalusOpcode;
struct Obj : DaedalusInstance { int32_t pre = 111; int32_t n = 1; float f = 2.f; std::string s = "s"; int32_t arr[300] = {}; float fa[300] = {}; std::string sa[3]; int32_t fn = 4; int32_t post = 222; };
struct Other : DaedalusInstance { int32_t n = 7; };
struct Trans : DaedalusTransientInstance {
	mutable std::string log_s; mutable DaedalusSymbol const* at = nullptr; mutable unsigned idx = 999; mutable int what = 0;
	int32_t i = 0; float f = 0; std::string s;
	void note(DaedalusSymbol const& y, uint16_t k, int w) const { at = &y; idx = k; what = w; }
	void set_int(DaedalusSymbol const& y, uint16_t k, int32_t v) override { note(y, k, 1); i = v; }
	int32_t get_int(DaedalusSymbol const& y, uint16_t k) const override { note(y, k, 2); return i; }
	void set_float(DaedalusSymbol const& y, uint16_t k, float v) override { note(y, k, 3); f = v; }
	float get_float(DaedalusSymbol const& y, uint16_t k) const override { note(y, k, 4); return f; }
	void set_string(DaedalusSymbol const& y, uint16_t k, std::string_view v) override { note(y, k, 5); s = v; }
	std::string const& get_string(DaedalusSymbol const& y, uint16_t k) const override { note(y, k, 6); return s; }
};
template <typename F> bool script_error(F&& f) {
	try { f(); } catch (DaedalusScriptError&) { return true; }
	return false;
}
HARNESS(C25_globals) {
	unsigned n = choose(0, 3, "count"), kind = choose(0, 3, "kind");
	Dat d;
	std::vector<int32_t> iv; std::vector<float> fv; std::vector<std::string> sv;
	uint32_t bits[3];
	for (unsigned i = 0; i < n; ++i) { bits[i] = sym<uint32_t>("old"); iv.push_back((int32_t) bits[i]); float f; memcpy(&f, &bits[i], 4); fv.push_back(f); sv.push_back(std::string(1 + i, (char) ('a' + i))); }
	uint32_t left = d.ivar("LEFT", {71, 72}), v;
	if (kind == 0) v = d.ivar("V", iv, sym<bool>("const") ? FCONST : 0);
	else if (kind == 1) v = d.fvar("V", fv, sym<bool>("const") ? FCONST : 0);
	else if (kind == 2) v = d.svar("V", sv, 0);
	else v = d.add({"V", TFUNC, 0, n, 0, std::string(4, '\0')}), iv.assign(n, 0);
	uint32_t right = d.ivar("RIGHT", {73, 74});
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(v);
	uint16_t i = sym<uint16_t>("index");
	uint32_t nb = sym<uint32_t>("new"); float nf; memcpy(&nf, &nb, 4);
	std::string ns = sym_raw(2, "str");
	// reading
	if (i >= n) {
		if (kind == 0 || kind == 3) CHECK(script_error([&] { (void) y->get_int(i); }));
		if (kind == 1) CHECK(script_error([&] { (void) y->get_float(i); }));
		if (kind == 2) CHECK(script_error([&] { (void) y->get_string(i); }));
	}
	// writing
	bool failed = script_error([&] {
		if (kind == 0 || kind == 3) y->set_int((int32_t) nb, i);
		if (kind == 1) y->set_float(nf, i);
		if (kind == 2) y->set_string(ns, i);
	});
	CHECK(failed == (i >= n));
	for (unsigned j = 0; j < n; ++j) {
		if (kind == 0 || kind == 3) CHECK(y->get_int((uint16_t) j) == (j == i ? (int32_t) nb : iv[j]));
		if (kind == 1) CHECK(same(y->get_float((uint16_t) j), j == i ? nf : fv[j]));
		if (kind == 2) CHECK(same(y->get_string((uint16_t) j), j == i ? ns : sv[j]));
	}
	for (unsigned j = 0; j < 2; ++j) { CHECK(sc.find_symbol_by_index(left)->get_int((uint16_t) j) == (int32_t) (71 + j)); CHECK(sc.find_symbol_by_index(right)->get_int((uint16_t) j) == (int32_t) (73 + j)); }
}
HARNESS(C25_kinds) { // accessors only work on symbols of their kind
	unsigned type = choose(0, 7, "type"), count = choose(0, 2, "count");
	bool member = choose(0, 1, "member"), konst = choose(0, 1, "const");
	Dat d;
	DSym s {"V", type, (member ? FMEMBER : 0u) | (konst ? FCONST : 0u), count};
	s.parent = 1;
	if (type == TFLOAT || type == TINT) s.value = std::string(4 * count, '\0');
	else if (type == TSTRING) for (unsigned i = 0; i < count; ++i) s.value += "x\n";
	else if (type != TVOID) s.value = std::string(4, '\0');
	d.add(s); d.cls("C", 1);
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(0);
	bool ok = count > 0 && !member;
	CHECK(script_error([&] { (void) y->get_int(); }) == !(ok && (type == TINT || (type == TFUNC && !konst))));
	CHECK(script_error([&] { y->set_int(1); }) == !(ok && (type == TINT || (type == TFUNC && !konst))));
	CHECK(script_error([&] { (void) y->get_float(); }) == !(ok && type == TFLOAT));
	CHECK(script_error([&] { y->set_float(1.f); }) == !(ok && type == TFLOAT));
	CHECK(script_error([&] { (void) y->get_string(); }) == !(ok && type == TSTRING));
	CHECK(script_error([&] { y->set_string("x"); }) == !(ok && type == TSTRING));
	if (!(type == TINST && member)) { // instances are not members of classes
		CHECK(script_error([&] { (void) y->get_instance(); }) == (type != TINST));
		CHECK(script_error([&] { y->set_instance(nullptr); }) == (type != TINST));
	}
}
HARNESS(C25_const_in_machine) { // scripts cannot change constants, unless told to ignore this
	unsigned kind = choose(0, 2, "kind");
	bool konst = choose(0, 1, "const"), ignore = choose(0, 1, "ignore");
	Dat d;
	uint32_t i = d.ivar("I", {5}, konst ? FCONST : 0), f = d.fvar("F", {6.f}, konst ? FCONST : 0), s = d.svar("S", {"seven"}, konst ? FCONST : 0);
	DaedalusVm vm {d.script(), ignore ? DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER : DaedalusVmExecutionFlag::NONE};
	int32_t x = sym<int32_t>("x"); float y; memcpy(&y, &x, 4);
	std::string z = sym_raw(2, "z");
	bool failed = script_error([&] {
		if (kind == 0) vm.set_int(nullptr, vm.find_symbol_by_index(i), 0, x);
		if (kind == 1) vm.set_float(nullptr, vm.find_symbol_by_index(f), 0, y);
		if (kind == 2) vm.set_string(nullptr, vm.find_symbol_by_index(s), 0, z);
	});
	bool bad = konst && !ignore;
	CHECK(failed == bad);
	CHECK(vm.find_symbol_by_index(i)->get_int() == (kind == 0 && !bad ? x : 5));
	CHECK(same(vm.find_symbol_by_index(f)->get_float(), kind == 1 && !bad ? y : 6.f));
	CHECK(same(vm.find_symbol_by_index(s)->get_string(), kind == 2 && !bad ? z : std::string("seven")));
}
struct Cls {
	Dat d; uint32_t c, n, f, s, arr, fa, sa, fn, un, o, on, i1, i2, i3;
	Cls() {
		c = d.cls("C", 7);
		n = d.member("C.N", TINT, c); f = d.member("C.F", TFLOAT, c); s = d.member("C.S", TSTRING, c);
		arr = d.member("C.ARR", TINT, c, 300); fa = d.member("C.FA", TFLOAT, c, 300); sa = d.member("C.SA", TSTRING, c, 3);
		fn = d.member("C.FN", TFUNC, c); un = d.member("C.UNBOUND", TINT, c);
		o = d.cls("O", 1); on = d.member("O.N", TINT, o);
		i1 = d.inst("I1", c); i2 = d.inst("I2", o); i3 = d.inst("I3", c);
	}
	static void bind(DaedalusScript& sc) {
		sc.register_member("C.N", &Obj::n); sc.register_member("C.F", &Obj::f); sc.register_member("C.S", &Obj::s);
		sc.register_member("C.ARR", &Obj::arr); sc.register_member("C.FA", &Obj::fa); sc.register_member("C.SA", &Obj::sa);
		sc.register_member("C.FN", &Obj::fn); sc.register_member("O.N", &Other::n);
	}
};
HARNESS(C25_members) {
	Cls w;
	DaedalusVm vm {w.d.script()};
	Cls::bind(vm);
	auto a = vm.allocate_instance<Obj>("I1"), b = vm.allocate_instance<Obj>("I3");
	unsigned k = choose(0, 6, "member");
	uint32_t const ids[] = {w.n, w.f, w.s, w.arr, w.fa, w.sa, w.fn};
	unsigned const counts[] = {1, 1, 1, 300, 300, 3, 1};
	auto* y = vm.find_symbol_by_index(ids[k]);
	uint16_t i = sym<uint16_t>("index");
	uint32_t nb = sym<uint32_t>("new"); float nf; memcpy(&nf, &nb, 4);
	std::string ns = sym_raw(2, "str");
	unsigned n = counts[k];
	if (n == 300) { unsigned const at[] = {0, 1, 127, 128, 255, 256, 299, 300, 65535}; ASSUME(i == at[choose(0, 8, "at")]); }
	i = (uint16_t) zse_concretize(i >= n && n != 300 ? n : i);
	bool isf = k == 1 || k == 4, iss = k == 2 || k == 5;
	bool failed = script_error([&] {
		if (isf) y->set_float(nf, i, a.get()); else if (iss) y->set_string(ns, i, a.get()); else y->set_int((int32_t) nb, i, a.get());
	});
	CHECK(failed == (i >= n));
	CHECK(script_error([&] { if (isf) (void) y->get_float(i, a.get()); else if (iss) (void) y->get_string(i, a.get()); else (void) y->get_int(i, a.get()); }) == (i >= n));
	if (i < n) {
		if (isf) CHECK(same(y->get_float(i, a.get()), nf)); else if (iss) CHECK(same(y->get_string(i, a.get()), ns)); else CHECK(y->get_int(i, a.get()) == (int32_t) nb);
	}
	// the host sees exactly that change and the other object none
	CHECK(a->pre == 111 && a->post == 222);
	CHECK(a->n == (k == 0 && i < n ? (int32_t) nb : 1));
	CHECK(same(a->f, k == 1 && i < n ? nf : 2.f));
	CHECK(same(a->s, k == 2 && i < n ? ns : std::string("s")));
	CHECK(a->fn == (k == 6 && i < n ? (int32_t) nb : 4));
	for (unsigned j : {0u, 1u, 127u, 128u, 255u, 256u, 299u, 43u}) { CHECK(a->arr[j] == (k == 3 && j == i ? (int32_t) nb : 0)); CHECK(same(a->fa[j], k == 4 && j == i ? nf : 0.f)); }
	for (unsigned j = 0; j < 3; ++j) CHECK(same(a->sa[j], k == 5 && j == i ? ns : std::string()));
	CHECK(b->n == 1 && b->f == 2.f && b->s == "s" && b->arr[i < 300 ? i : 0] == 0 && b->fn == 4);
}
HARNESS(C25_contexts) { // members need an object of the class they belong to
	Cls w;
	DaedalusVm vm {w.d.script()};
	Cls::bind(vm);
	unsigned ctx = choose(0, 3, "context"), k = choose(0, 4, "member");
	uint32_t const ids[] = {w.n, w.f, w.s, w.arr, w.un};
	auto* y = vm.find_symbol_by_index(ids[k]);
	auto a = vm.allocate_instance<Obj>("I1"); auto b = vm.allocate_instance<Other>("I2"); auto fresh = std::make_shared<Obj>();
	DaedalusInstance* c = ctx == 0 ? (DaedalusInstance*) a.get() : ctx == 1 ? (DaedalusInstance*) b.get() : ctx == 2 ? (DaedalusInstance*) fresh.get() : nullptr;
	bool ok = ctx == 0 && k != 4;
	bool set = choose(0, 1, "set");
	bool failed = script_error([&] {
		if (set) { if (k == 1) y->set_float(9.f, 0, c); else if (k == 2) y->set_string("nine", 0, c); else y->set_int(9, 0, c); }
		else { if (k == 1) (void) y->get_float(0, c); else if (k == 2) (void) y->get_string(0, c); else (void) y->get_int(0, c); }
	});
	CHECK(failed == !ok);
	if (!ok || !set) CHECK(a->n == 1 && a->f == 2.f && a->s == "s" && a->arr[0] == 0 && b->n == 7 && fresh->n == 1 && fresh->s == "s");
}
HARNESS(C25_null_access_allowed) { // with the compatibility flag, members of nothing read as zero and ignore writes
	Cls w;
	bool allow = choose(0, 1, "allow");
	int32_t x = sym<int32_t>("x");
	unsigned k = choose(0, 5, "kind");
	uint32_t t = w.d.ivar("T", {9}), tf = w.d.fvar("TF", {9.f}), ts = w.d.svar("TS", {"nine"});
	w.d.func("F", 0, w.d.here());
	switch (k) {
	case 0: w.d.pushi(x).pushv(w.n).op(Op::MOVI); break;
	case 1: w.d.pushv(w.n).pushv(t).op(Op::MOVI); break;
	case 2: w.d.pushv(w.f).pushv(tf).op(Op::MOVF); break;
	case 3: w.d.pushv(w.s).pushv(ts).op(Op::MOVS); break;
	case 4: w.d.pushi(x).pushv(w.n).op(Op::ADDMOVI); break;
	case 5: w.d.pushv(ts).pushv(w.s).op(Op::MOVS); break;
	}
	w.d.ret();
	DaedalusVm vm {w.d.script(), allow ? DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : DaedalusVmExecutionFlag::NONE};
	Cls::bind(vm);
	CHECK(script_error([&] { vm.call_function("F"); }) == !allow);
	CHECK(vm.find_symbol_by_index(t)->get_int() == (allow && k == 1 ? 0 : 9));
	CHECK(vm.find_symbol_by_index(tf)->get_float() == (allow && k == 2 ? 0.f : 9.f));
	CHECK(vm.find_symbol_by_index(ts)->get_string() == (allow && k == 3 ? "" : "nine"));
}
HARNESS(C25_transient) {
	Cls w;
	DaedalusVm vm {w.d.script()};
	if (choose(0, 1, "bound")) Cls::bind(vm);
	Trans t;
	unsigned k = choose(0, 4, "member");
	uint32_t const ids[] = {w.n, w.f, w.s, w.arr, w.sa};
	unsigned const counts[] = {1, 1, 1, 300, 3};
	auto* y = vm.find_symbol_by_index(ids[k]);
	uint16_t i = sym<uint16_t>("index");
	uint32_t nb = sym<uint32_t>("new"); float nf; memcpy(&nf, &nb, 4);
	std::string ns = sym_raw(2, "str");
	bool isf = k == 1, iss = k == 2 || k == 4;
	bool failed = script_error([&] { if (isf) y->set_float(nf, i, &t); else if (iss) y->set_string(ns, i, &t); else y->set_int((int32_t) nb, i, &t); });
	CHECK(failed == (i >= counts[k]));
	if (failed) { CHECK(t.at == nullptr); return; }
	CHECK(t.at == y); CHECK(t.idx == i); CHECK(t.what == (isf ? 3 : iss ? 5 : 1));
	if (isf) CHECK(same(y->get_float(i, &t), nf)); else if (iss) CHECK(same(y->get_string(i, &t), ns)); else CHECK(y->get_int(i, &t) == (int32_t) nb);
	CHECK(t.idx == i); CHECK(t.what == (isf ? 4 : iss ? 6 : 2));
}
// objects that exist only for the script
HARNESS(C25_opaque) {
	Dat d;
	unsigned n = choose(1, 3, "members");
	uint32_t const kinds[] = {TINT, TFLOAT, TSTRING, TFUNC};
	uint32_t c = d.cls("C", n);
	unsigned t[3], cnt[3]; uint32_t id[3];
	for (unsigned i = 0; i < n; ++i) {
		t[i] = choose(0, 3, "kind"); cnt[i] = choose(1, 2, "count");
		id[i] = d.member(std::string("C.M") + (char) ('0' + i), kinds[t[i]], c, cnt[i], sym<uint32_t>("offset"));
	}
	uint32_t i1 = d.inst("I", c, d.here(), FCONST), i2 = d.inst("J", c, d.here(), FCONST);
	d.ret();
	DaedalusVm vm {d.script()};
	vm.register_as_opaque("C");
	auto a = vm.init_opaque_instance(vm.find_symbol_by_index(i1)), b = vm.init_opaque_instance(vm.find_symbol_by_index(i2));
	CHECK(vm.find_symbol_by_index(i1)->get_instance() == a);
	CHECK(a->symbol_index() == i1);
	// fresh members are zero or empty
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < cnt[i]; ++j) {
		auto* y = vm.find_symbol_by_index(id[i]);
		if (t[i] == 1) CHECK(y->get_float((uint16_t) j, a.get()) == 0.f);
		else if (t[i] == 2) CHECK(y->get_string((uint16_t) j, a.get()).empty());
		else CHECK(y->get_int((uint16_t) j, a.get()) == 0);
	}
	std::string const longs = choose(0, 1, "long") ? "a string that is too long to be stored in place" : "fourteen bytes";
	uint32_t val[3][2];
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < cnt[i]; ++j) {
		auto* y = vm.find_symbol_by_index(id[i]);
		val[i][j] = sym<uint32_t>("v"); float f; memcpy(&f, &val[i][j], 4);
		if (t[i] == 1) y->set_float(f, (uint16_t) j, a.get());
		else if (t[i] == 2) y->set_string(longs + (char) ('0' + 2 * i + j), (uint16_t) j, a.get());
		else y->set_int((int32_t) val[i][j], (uint16_t) j, a.get());
	}
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < cnt[i]; ++j) {
		auto* y = vm.find_symbol_by_index(id[i]);
		float f; memcpy(&f, &val[i][j], 4);
		if (t[i] == 1) { CHECK(same(y->get_float((uint16_t) j, a.get()), f)); CHECK(y->get_float((uint16_t) j, b.get()) == 0.f); }
		else if (t[i] == 2) { CHECK(y->get_string((uint16_t) j, a.get()) == longs + (char) ('0' + 2 * i + j)); CHECK(y->get_string((uint16_t) j, b.get()).empty()); }
		else { CHECK(y->get_int((uint16_t) j, a.get()) == (int32_t) val[i][j]); CHECK(y->get_int((uint16_t) j, b.get()) == 0); }
	}
}
struct Small : DaedalusInstance { int32_t one; int32_t two[2]; float fl; std::string st; };
HARNESS(C25_registration) { // a host field is accepted exactly if it fits the member
	Dat d;
	unsigned type = choose(TVOID, TINST, "type"), count = choose(0, 3, "count");
	bool member = choose(0, 1, "member");
	uint32_t c = d.cls("C", 1);
	if (member) d.member("C.M", type, c, count, 0);
	else {
		DSym s {"C.M", type, 0, count};
		s.parent = (int32_t) c;
		if (type == TFLOAT || type == TINT) s.value = std::string(4 * count, '\0');
		else if (type == TSTRING) for (unsigned i = 0; i < count; ++i) s.value += "x\n";
		else if (type != TVOID) s.value = std::string(4, '\0');
		d.add(s);
	}
	d.member("D.ORPHAN", TINT, 99);
	DaedalusScript sc = d.script();
	unsigned f = choose(0, 3, "field");
	bool failed = script_error([&] {
		if (f == 0) sc.register_member("c.m", &Small::one);
		if (f == 1) sc.register_member("C.M", &Small::two);
		if (f == 2) sc.register_member("C.M", &Small::fl);
		if (f == 3) sc.register_member("C.M", &Small::st);
	});
	bool fits = f <= 1 ? type == TINT || type == TFUNC : f == 2 ? type == TFLOAT : type == TSTRING;
	CHECK(failed == !(member && fits && count <= (f == 1 ? 2u : 1u)));
	CHECK(script_error([&] { sc.register_member("C.NONE", &Small::one); }));
	CHECK(script_error([&] { sc.register_member("D.ORPHAN", &Small::one); }));
	if (!failed) CHECK(script_error([&] { sc.register_member("C.M", &Other::n); }) == true); // one class, one host type
}
HARNESS(C25_allocate) { // objects are only made for instances of a class registered with that host type
	Dat d;
	unsigned chain = choose(0, 2, "chain"), what = choose(0, 4, "what");
	bool bound = choose(0, 1, "bound"), other = choose(0, 1, "other");
	uint32_t c = d.cls("C", 1); d.member("C.N", TINT, c);
	uint32_t parent = c;
	for (unsigned i = 0; i < chain; ++i) parent = d.proto(std::string("P") + (char) ('0' + i), what == 4 && i == 0 ? 12345u : parent, 5);
	uint32_t in = d.inst("I", what == 3 ? (uint32_t) -1 : parent, 0, FCONST);
	uint32_t iv = d.ivar("V"); (void) iv; (void) in;
	DaedalusVm vm {d.script()};
	if (bound) vm.register_member("C.N", &Obj::n);
	bool failed = script_error([&] {
		if (what == 1) (void) vm.allocate_instance<Obj>("NOTHING");
		else if (what == 2) (void) vm.allocate_instance<Obj>("V");
		else if (other) (void) vm.allocate_instance<Other>("I");
		else { auto o = vm.allocate_instance<Obj>("I"); CHECK(vm.find_symbol_by_name("I")->get_instance() == o); CHECK(vm.find_symbol_by_name("I")->is_instance_of<Obj>()); CHECK(!vm.find_symbol_by_name("I")->is_instance_of<Other>()); }
	});
	bool broken = what == 1 || what == 2 || what == 3 || (what == 4 && chain > 0);
	CHECK(failed == (broken || other || !bound));
	if (failed) CHECK(vm.find_symbol_by_name("I")->get_instance() == nullptr);
}
