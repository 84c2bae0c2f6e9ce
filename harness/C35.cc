// C35: damaged scripts never make the loader or the script machine touch foreign memory or hang
//@bound compiled scripts: a small valid script with every kind of symbol, (a) cut off after every number of bytes, (b) with a window of 4 bytes at every even offset (thorough: every offset) of the symbol table replaced by arbitrary bytes; after loading all symbols are looked up, classes registered, functions called and objects initialised
//@bound script machine: any instruction with any operand, executed with up to two stack entries of every kind (numbers, strings, objects, references to any symbol and element), with any selected object, all execution flags and three ways of handling script errors, and on a stack with up to two free places
//@bound model scripts: a valid text (2-byte windows) and a valid binary (4-byte windows) cut off and damaged like above
//@assume lists whose length comes from the damaged bytes are explored up to 1 KiB of memory and 400 reads past the end of the file
//@outside damage in more than one place; scripts which loop or recurse without end; memory and time proportional to a damaged list length
#include "dae.h"
#include "rob.h"
#include <zenkit/ModelScript.hh>
using Op = DaedalusOpcode;
using File = std::vector<std::byte>;
struct Obj : DaedalusInstance { int32_t n = 1; std::string s = "s"; int32_t a[2] = {10, 20}; };
struct Vm : DaedalusVm { using DaedalusVm::DaedalusVm; using DaedalusVm::exec; using DaedalusVm::jump; };
enum { K, V, F, S, FV, C, CN, CS, CA, O, ON, OS, P, PA, SELF, I1, I2, I3, PROTO, EXT, EXTP, EXT2, FN, FNP, FNL, NSYM };
static Dat table(uint32_t fn, uint32_t init) {
	Dat d;
	d.ivar("K", {5}, FCONST); d.ivar("V", {1, 2}); d.fvar("F", {1.5f}); d.svar("S", {"AB"}); d.func("FV", 1, 0, TVOID, 0);
	d.cls("C", 3); d.member("C.N", TINT, C); d.member("C.S", TSTRING, C); d.member("C.A", TINT, C, 2);
	d.cls("O", 2, 24); d.member("O.N", TINT, O); d.member("O.S", TSTRING, O);
	d.cls("P", 1, 32); d.member("P.A", TINT, P, 64);
	d.inst("SELF", C); d.inst("I1", PROTO, init, FCONST); d.inst("I2", O, init + 11, FCONST); d.inst("I3", P, init + 11, FCONST); d.proto("PROTO", C, init);
	d.func("EXT", 1, 0, TINT, FCONST | FEXTERNAL); d.ivar("EXT.P"); d.func("EXT2", 0, 0, TSTRING, FCONST | FEXTERNAL);
	d.func("FN", 1, fn, TINT); d.ivar("FN.P"); d.ivar("FN.L");
	return d;
}
static std::string code(uint32_t& fn, uint32_t& init) {
	Dat d;
	fn = d.here(); d.pushv(FNP).op(Op::MOVI).pushv(FNP).op(Op::BE, EXT).ret();
	init = d.here(); d.pushi(3).pushv(CN).op(Op::MOVI).ret();
	return d.text;
}
static void bind(DaedalusVm& vm) {
	try { vm.register_member("C.N", &Obj::n); vm.register_member("C.S", &Obj::s); vm.register_member("C.A", &Obj::a); } catch (DaedalusScriptError&) {}
	try { vm.register_as_opaque("O"); vm.register_as_opaque("P"); } catch (DaedalusScriptError&) {}
	try { vm.register_external("EXT", [](int32_t x) { return x + 1; }); } catch (DaedalusScriptError&) {}
}
// ------------------------------------------------------------------ one instruction
static void entry(Vm& vm, std::shared_ptr<DaedalusInstance>* inst, bool any) {
	switch (choose(0, 4, "entry")) {
	case 0: vm.push_int(sym<int32_t>("int")); break;
	case 1: vm.push_float(1.f); break;
	case 2: vm.push_string("T"); break;
	case 3: vm.push_instance(inst[2]); break;
	default: vm.push_reference(vm.find_symbol_by_index(any ? choose(0, NSYM, "ref") : (uint32_t) V), sym<uint16_t>("idx")); break;
	}
}
// executes one of the given instructions in any state
static void step(std::initializer_list<Op> ops, bool both, bool handlers, bool full = false, unsigned part = 2) {
	uint32_t fn, init;
	std::string text = code(fn, init), instr;
	uint8_t op = sym<uint8_t>("op");
	uint32_t operand = part ? sym<uint32_t>("operand") : choose(0, ops.begin()[0] == Op::BL ? 40 : NSYM + 2, "operand");
	if (part != 2) { op = (uint8_t) ops.begin()[choose(0, (unsigned) ops.size() - 1, "which")]; }
	if (part == 1) ASSUME(operand > NSYM + 2);
	p8(instr, op); p32(instr, operand); p8(instr, sym<uint8_t>("element")); instr += std::string(2, (char) Op::RSR);
	uint32_t n = (uint32_t) instr.size();
	Dat d = table(fn + n, init + n);
	d.text = instr + text;
	Vm vm {d.script(), (uint8_t) (choose(0, 1, "flags") * 6)};
	bind(vm);
	std::shared_ptr<DaedalusInstance> inst[4];
	inst[1] = vm.init_instance<Obj>("I1"); inst[2] = vm.init_opaque_instance(vm.find_symbol_by_name("I2")); inst[3] = std::make_shared<Obj>();
	switch (handlers ? choose(0, 2, "handler") : 0) {
	case 1: vm.register_exception_handler(lenient_vm_exception_handler); break;
	case 2: vm.register_exception_handler([](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return DaedalusVmExceptionStrategy::RETURN; }); break;
	default: break;
	}
	if (handlers && choose(0, 1, "default")) vm.register_default_external([](DaedalusSymbol const&) {});
	vm.find_symbol_by_index(FN)->set_local_variables_enable(handlers && choose(0, 1, "locals"));
	vm.unsafe_set_gi(inst[full ? 0 : choose(0, handlers ? 1 : 3, "context")]);
	unsigned depth = full ? 0 : choose(0, part == 2 ? 2 : 1, "depth");
	if (full) for (unsigned i = DaedalusVm::stack_size - choose(0, 2, "free"); i--;) vm.push_int(1);
	if (depth == 2) entry(vm, inst, both);
	if (depth) entry(vm, inst, part != 1);
	ASSUME((op != (uint8_t) Op::BL) | (operand >= n)); // not itself
	if (part == 2 && ops.size()) {
		unsigned i = choose(0, (unsigned) ops.size() - 1, "which");
		ASSUME(op == (uint8_t) ops.begin()[i]);
	}
	try { vm.jump(0); vm.exec(); } catch (std::exception&) {}
	try { vm.print_stack_trace(); } catch (std::exception&) {}
	try { (void) vm.pop_int(); vm.push_float(1); vm.push_string("U"); (void) vm.pop_string(); } catch (std::exception&) {}
}
//@entry C35_step_arith time=150
HARNESS(C35_step_arith) { step({Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::MOD, Op::LSL, Op::NEGATE, Op::BZ}, false, false); }
//@entry C35_step_assign time=150
HARNESS(C35_step_assign) { step({Op::MOVI, Op::ADDMOVI, Op::DIVMOVI, Op::MOVF, Op::MOVS, Op::MOVVI}, false, false); }
//@entry C35_step_call time=150
HARNESS(C35_step_call) { step({Op::BL}, false, true, false, 0); }
//@entry C35_step_external time=150
HARNESS(C35_step_external) { step({Op::BE}, false, true, false, 0); }
//@entry C35_step_control time=150
HARNESS(C35_step_control) { step({Op::B, Op::GMOVI, Op::PUSHV, Op::PUSHVV}, false, false, false, 0); }
//@entry C35_step_far time=150
HARNESS(C35_step_far) { step({Op::BL, Op::BE, Op::B, Op::GMOVI, Op::PUSHV, Op::PUSHVV}, false, false, false, 1); }
//@entry C35_step_full time=150
HARNESS(C35_step_full) { step({Op::BE, Op::B, Op::GMOVI, Op::PUSHV, Op::PUSHVV}, false, true, true, 0); }
//@entry C35_step_full_call time=150
HARNESS(C35_step_full_call) { step({Op::BL}, false, true, true, 0); }
//@entry C35_step_full_rest time=150
HARNESS(C35_step_full_rest) { step({Op::ADD, Op::NEGATE, Op::MOVI, Op::ADDMOVI, Op::MOVF, Op::MOVS, Op::MOVVI, Op::BZ, Op::PUSHI, Op::NOP, Op::RSR, Op::MOVSS}, false, true, true); }
// ------------------------------------------------------------------ compiled scripts
static File file(Dat const& d) {
	std::string b = d.bytes();
	File f(b.size());
	memcpy(f.data(), b.data(), b.size());
	return f;
}
static File script() {
	uint32_t fn, init;
	std::string text = code(fn, init);
	Dat d = table(fn, init);
	d.text = text;
	return file(d);
}
// one symbol of each kind, in two halves
static File part_a() {
	Dat d;
	d.pushi(3).pushv(2).op(Op::MOVI).ret(); uint32_t init = 0; uint32_t none = d.here() - 1;
	d.svar("S", {"A"}, FCONST); d.cls("C", 1); d.member("C.N", TINT, 1); d.inst("SELF", 1); d.inst("I1", 5, init, FCONST); d.proto("P", 1, init);
	d.cls("O", 1, 24); d.member("O.S", TSTRING, 6); d.inst("I2", 6, none, FCONST);
	return file(d);
}
static File part_b() {
	Dat d;
	d.pushv(5).op(Op::MOVI).pushv(5).op(Op::BE, 2).ret();
	d.fvar("F"); d.func("V", 1, 0, TVOID, 0); d.func("EXT", 1, 0, TINT, FCONST | FEXTERNAL); d.ivar("EXT.P"); d.func("FN", 1, 0, TINT); d.ivar("FN.P", {1, 2}); d.ivar("FN.L");
	return file(d);
}
static void run(Read* r) {
	DaedalusScript s;
	s.load(r);
	Vm vm {std::move(s), DaedalusVmExecutionFlag::NONE};
	(void) vm.find_symbol_by_name("nothing"); (void) vm.find_symbol_by_address(0); (void) vm.find_symbol_by_index(NSYM + 9);
	for (uint32_t i = 0; i < NSYM; ++i) {
		auto* y = vm.find_symbol_by_index(i);
		if (y == nullptr) continue;
		(void) vm.find_class_members(*y);
		for (auto& p : vm.find_parameters_for_function(y)) (void) p.type();
		for (auto& p : vm.find_locals_for_function(y)) (void) p.type();
		try { (void) y->get_int(0, nullptr); } catch (std::exception&) {}
		try { (void) y->get_float(0, nullptr); } catch (std::exception&) {}
		try { (void) y->get_string(0, nullptr); } catch (std::exception&) {}
		try { (void) y->get_instance(); } catch (std::exception&) {}
	}
	vm.enumerate_instances_by_class_name("C", [](DaedalusSymbol&) {});
	bind(vm);
	try { vm.call_function("FN", 3); } catch (std::exception&) {}
	try { (void) vm.call_function<int>("FN", 3); } catch (std::exception&) {}
	try { (void) vm.init_instance<Obj>("I1"); } catch (std::exception&) {}
	try { (void) vm.init_opaque_instance(vm.find_symbol_by_name("I2")); } catch (std::exception&) {}
	try { (void) vm.init_opaque_instance(vm.find_symbol_by_name("I3")); } catch (std::exception&) {}
	try { vm.push_int(1); vm.push_string("U"); (void) vm.pop_string(); (void) vm.pop_int(); vm.print_stack_trace(); } catch (std::exception&) {}
}
//@entry C35_cut_script time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_cut_script) { truncated(script(), run); }
#define DAMAGE(name, f, n, lo, hi) HARNESS(C35_damage_##name) { damaged(f, n, 2, run, lo, hi); } HARNESS(C35_deep_##name) { damaged(f, n, 1, run, lo, hi); }
//@entry C35_damage_objects_1 time=150 conc-limit=20000 sym-alloc=1024
//@entry C35_deep_objects_1 conc-limit=20000 sym-alloc=1024 tier=thorough
DAMAGE(objects_1, part_a(), 4, 0, 200)
//@entry C35_damage_objects_2 time=150 conc-limit=20000 sym-alloc=1024
//@entry C35_deep_objects_2 conc-limit=20000 sym-alloc=1024 tier=thorough
DAMAGE(objects_2, part_a(), 4, 200, (unsigned) part_a().size() - 15)
//@entry C35_damage_functions_1 time=150 conc-limit=20000 sym-alloc=1024
//@entry C35_deep_functions_1 conc-limit=20000 sym-alloc=1024 tier=thorough
DAMAGE(functions_1, part_b(), 4, 0, 150)
//@entry C35_damage_functions_2 time=150 conc-limit=20000 sym-alloc=1024
//@entry C35_deep_functions_2 conc-limit=20000 sym-alloc=1024 tier=thorough
DAMAGE(functions_2, part_b(), 4, 150, (unsigned) part_b().size() - 20)
// a symbol whose type, flags, size, result, parent and address are all arbitrary, called as function and object
static void fields(unsigned lo, unsigned hi) {
	Dat d;
	d.pushi(3).pushv(1).op(Op::MOVI).ret(); // sets the member
	d.ret();
	d.cls("C", 1); d.member("C.N", TINT, 0);
	DSym y {"FN", choose(lo, hi, "type"), choose(0, 31, "flags"), choose(0, hi == 5 ? 1 : 2, "count"), sym<uint32_t>("result")};
	unsigned n = y.count;
	if (y.type == TINT || y.type == TFLOAT) for (unsigned i = 0; i < n; ++i) p32(y.value, 7);
	else if (y.type == TSTRING) for (unsigned i = 0; i < n; ++i) y.value += "a\n";
	else if (y.type == TCLASS || y.type == TFUNC || y.type == TPROTO || y.type == TINST) p32(y.value, choose(0, 1, "address") ? 11 : sym<uint32_t>("far"));
	y.parent = (int32_t) sym<uint32_t>("parent");
	if (choose(0, 1, "near")) y.parent = (int32_t) choose(0, 2, "parent"); else ASSUME((uint32_t) y.parent > 2);
	d.add(y);
	if (choose(0, 1, "follow")) d.ivar("FN.P", {1, 2});
	std::vector<std::byte> f = file(d);
	Watch r(f, f.size(), 400, false);
	attempt(&r, [](Read* r) {
		DaedalusScript s;
		s.load(r);
		Vm vm {std::move(s), DaedalusVmExecutionFlag::NONE};
		vm.register_member("C.N", &Obj::n);
		auto* y = vm.find_symbol_by_index(2);
		for (auto& p : vm.find_parameters_for_function(y)) (void) p.type();
		for (auto& p : vm.find_locals_for_function(y)) (void) p.type();
		try { vm.call_function(y); } catch (std::exception&) {}
		try { vm.call_function(y, 1); } catch (std::exception&) {}
		try { vm.push_int(5); (void) vm.pop_int(); } catch (std::exception&) {}
		try { vm.call_function<void>(y); } catch (std::exception&) {}
		try { (void) vm.call_function<int>(y); } catch (std::exception&) {}
		try { (void) vm.call_function<std::string>(y); } catch (std::exception&) {}
		try { (void) vm.call_function<std::shared_ptr<Obj>>(y); } catch (std::exception&) {}
		try { vm.register_external("FN", [](int32_t x) { return x + 1; }); } catch (std::exception&) {}
		try { vm.override_function("FN", [](int32_t x) { return x + 1; }); } catch (std::exception&) {}
		try { (void) vm.init_instance<Obj>(y); } catch (std::exception&) {}
		try { vm.register_as_opaque(y); (void) vm.init_opaque_instance(y); } catch (std::exception&) {}
		try { vm.push_int(5); (void) vm.pop_int(); vm.push_string("x"); (void) vm.pop_string(); vm.print_stack_trace(); } catch (std::exception&) {}
	});
}
//@entry C35_fields_values time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_fields_values) { fields(0, 3); }
//@entry C35_fields_objects time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_fields_objects) { fields(6, 7); }
//@entry C35_fields_functions time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_fields_functions) { fields(4, 5); }
//@entry C35_fields_unknown time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_fields_unknown) { fields(8, 15); }
//@entry C35_fields_locals time=150
HARNESS(C35_fields_locals) { // a function which calls itself once, with local variables and any kind of result
	Dat d;
	d.pushv(0).op(Op::BZ, 26).pushi(0).pushv(0).op(Op::MOVI).op(Op::BL, 0).ret();
	d.ivar("V", {1});
	DSym y {"FN", TFUNC, FCONST | (choose(0, 1, "return") ? FRETURN : 0u), choose(0, 2, "count"), sym<uint32_t>("result")};
	p32(y.value, 0);
	d.add(y);
	for (unsigned i = choose(0, 2, "locals"); i--;) {
		DSym l {std::string("FN.") + (char) ('A' + i), choose(0, 8, "type"), choose(0, 1, "const") * FCONST, choose(0, 2, "size")};
		if (l.type == TINT || l.type == TFLOAT) for (unsigned j = 0; j < l.count; ++j) p32(l.value, 7);
		else if (l.type == TSTRING) for (unsigned j = 0; j < l.count; ++j) l.value += "a\n";
		else if (l.type == TCLASS || l.type == TFUNC || l.type == TPROTO || l.type == TINST) p32(l.value, 3);
		d.add(l);
	}
	Vm vm {d.script(), (uint8_t) 0};
	auto* f = vm.find_symbol_by_index(1);
	f->set_local_variables_enable(true);
	if (choose(0, 1, "arg")) vm.push_int(4);
	try { vm.unsafe_call(f); } catch (std::exception&) {}
	try { vm.push_int(5); (void) vm.pop_int(); } catch (std::exception&) {}
}
// ------------------------------------------------------------------ model scripts
static void pl(std::string& o, char const* s) { o += s; o += '\n'; }
static void chunk(std::string& o, uint32_t type, std::string const& body) { p8(o, type); p8(o, type >> 8); p32(o, (uint32_t) body.size()); o += body; }
static File raw(std::string const& b) { File f(b.size()); if (!b.empty()) memcpy(f.data(), b.data(), b.size()); return f; }
static File compiled(bool anim) {
	std::string o, b;
	p32(b, 1); pl(b, "A"); chunk(o, 0xF000, b);
	b.clear(); p32(b, 2002); b.append(12, '\1'); pl(b, "P"); chunk(o, 0xF100, b);
	b.clear(); p32(b, 0); pl(b, "S"); chunk(o, 0xF300, b);
	if (anim) { b.clear(); pl(b, "A"); p32(b, 1); pl(b, "N"); p32(b, 0); p32(b, 0); pl(b, "MRE"); pl(b, "M"); pl(b, "F"); p32(b, 0); p32(b, 1); p32(b, 0); p32(b, 0); chunk(o, 0xF520, b); }
	b.clear(); p32(b, 1); chunk(o, 0xF5A0, b);
	b.clear(); p32(b, 1); pl(b, "DEF_PAR_FRAME"); pl(b, "3"); pl(b, ""); chunk(o, 0xF5A3, b);
	b.clear(); p32(b, 1); pl(b, "X"); p32(b, 0); p32(b, 1); chunk(o, 0xF5A1, b);
	chunk(o, 0xF5AF, "");
	b.clear(); pl(b, "T"); pl(b, "a"); chunk(o, 0xF590, b);
	chunk(o, 0xFFFF, "");
	return raw(o);
}
static File written() {
	return raw("Model(\"a\"){meshAndTree(\"m\" DONT_USE_MESH) aniEnum{ani(\"A\" 1 \"N\" 0.0 0.1 M. \"x\" F 0 9){*eventSFX(1 \"s\" R:9 EMPTY_SLOT) *eventTag(2 \"DEF_PAR_FRAME\" \"3\")} aniAlias(\"B\" 1 \"\" 0 0 M \"A\" R)}}");
}
static void load_mds(Read* r) { ModelScript s; s.load(r); }
//@entry C35_cut_model_scripts time=150 conc-limit=20000 sym-alloc=65536
HARNESS(C35_cut_model_scripts) { switch (choose(0, 2, "which")) { case 0: truncated(compiled(true), load_mds); break; case 1: truncated(compiled(false), load_mds); break; default: truncated(written(), load_mds); } }
//@entry C35_damage_model_binary time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_damage_model_binary) { damaged(compiled(choose(0, 1, "animation")), 4, 2, load_mds); }
//@entry C35_deep_model_binary conc-limit=20000 sym-alloc=1024 tier=thorough
HARNESS(C35_deep_model_binary) { damaged(compiled(choose(0, 1, "animation")), 4, 1, load_mds); }
//@entry C35_damage_model_text time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C35_damage_model_text) { damaged(written(), 2, 1, load_mds); }
//@entry C35_deep_model_text conc-limit=20000 sym-alloc=1024 tier=thorough
HARNESS(C35_deep_model_text) { damaged(written(), 3, 1, load_mds); }
