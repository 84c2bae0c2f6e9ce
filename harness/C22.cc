// C22: compiled scripts load with every symbol and instruction intact
//@bound one fully symbolic symbol of every type and flag combination (element counts 0-3, and 300 and 4095 with marker values; names up to 3 arbitrary bytes and 300 bytes) followed by a sentinel symbol; up to 3 symbols with arbitrary distinct upper-case names of 2 characters looked up in every letter case; arbitrary code of 8 bytes decoded at every 32-bit address; arbitrary 32-bit indices and addresses
//@assume names are stored in upper case and are distinct; strings of a constant without line breaks inside, apart from the known stray-byte form the loader repairs
//@outside bigger tables
#include "dae.h"
#include <cctype>
static DSym sym_symbol(unsigned type, unsigned count, bool member) {
	DSym s;
	s.type = type; s.count = count;
	s.flags = sym<uint8_t>("flags") & 0x3F;
	ASSUME(((s.flags & FMEMBER) != 0) == member);
	if (member) s.flags |= FMEMBER; else s.flags &= ~(uint32_t) FMEMBER;
	s.vary = sym<uint32_t>("vary");
	s.spare = sym<uint16_t>("spare") & 0x3FF;
	s.parent = sym<int32_t>("parent");
	for (auto& l : s.loc) l = sym<uint32_t>("loc");
	return s;
}
static void header(DaedalusSymbol const& y, DSym const& s, uint32_t index) {
	CHECK(y.index() == index);
	CHECK(y.count() == s.count);
	CHECK((uint32_t) y.type() == s.type);
	CHECK(y.is_const() == ((s.flags & FCONST) != 0));
	CHECK(y.has_return() == ((s.flags & FRETURN) != 0));
	CHECK(y.is_member() == ((s.flags & FMEMBER) != 0));
	CHECK(y.is_external() == ((s.flags & FEXTERNAL) != 0));
	CHECK(y.is_merged() == ((s.flags & FMERGED) != 0));
	CHECK(!y.has_access_trap());
	CHECK(!y.has_local_variables_enabled());
	CHECK(y.parent() == (uint32_t) s.parent);
	CHECK(y.file_index() == (s.loc[0] & 0x7FFFF));
	CHECK(y.line_start() == (s.loc[1] & 0x7FFFF));
	CHECK(y.line_count() == (s.loc[2] & 0x7FFFF));
	CHECK(y.char_start() == (s.loc[3] & 0xFFFFFF));
	CHECK(y.char_count() == (s.loc[4] & 0xFFFFFF));
	if (s.flags & FMEMBER) CHECK(y.offset_as_member() == s.vary);
	else if (s.type == TCLASS) CHECK(y.class_size() == s.vary);
	else if (s.type == TFUNC) CHECK((uint32_t) y.rtype() == s.vary);
}
static DSym sentinel() {
	DSym e {"SENTINEL", TINT, FCONST, 1};
	p32(e.value, 0x12345678);
	e.parent = 77;
	e.loc[0] = 5;
	return e;
}
static void rest(DaedalusScript& s, std::string const& text) {
	auto* e = s.find_symbol_by_name("sentinel");
	CHECK(e != nullptr);
	if (!e) return;
	CHECK(e->index() == 1);
	CHECK(e->get_int() == 0x12345678);
	CHECK(e->parent() == 77);
	CHECK(e->file_index() == 5);
	CHECK(s.symbols().size() == 2);
	CHECK(s.size() == text.size());
	CHECK((uint8_t) s.instruction_at(0).op == (uint8_t) DaedalusOpcode::NOP);
	CHECK((uint8_t) s.instruction_at(1).op == (uint8_t) DaedalusOpcode::RSR);
}
static std::string const TEXT {(char) 45, (char) 60};
HARNESS(C22_number_symbol) {
	unsigned type = choose(TFLOAT, TINT, "type"), n = choose(0, 3, "count");
	DSym s = sym_symbol(type, n, choose(0, 1, "member"));
	s.name = "N";
	s.value = sym_raw(4 * n, "value");
	Dat d; d.add(s); d.add(sentinel()); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(0);
	CHECK(y != nullptr); if (!y) return;
	CHECK(y->name() == "N");
	header(*y, s, 0);
	if (!y->is_member()) for (unsigned i = 0; i < n; ++i) {
		int32_t x; memcpy(&x, s.value.data() + 4 * i, 4);
		float f; memcpy(&f, &x, 4);
		if (type == TINT) CHECK(y->get_int((uint16_t) i) == x); else CHECK(same(y->get_float((uint16_t) i), f));
	}
	rest(sc, d.text);
}
HARNESS(C22_string_symbol) {
	unsigned n = choose(0, 2, "count"), len = choose(0, 3, "len");
	DSym s = sym_symbol(TSTRING, n, choose(0, 1, "member"));
	s.name = "S";
	std::vector<std::string> want;
	for (unsigned i = 0; i < n; ++i) {
		std::string v = i ? std::string("x") : sym_line(len, "text"), w;
		s.value += v; s.value += '\n';
		for (size_t k = 0; k < v.size(); ++k) {
			if (v[k] == '\\' && k + 1 < v.size() && v[k + 1] == 'n') { w += '\n'; ++k; }
			else if (v[k] == '\\' && k + 1 < v.size() && v[k + 1] == 't') { w += '\t'; ++k; }
			else w += v[k];
		}
		want.push_back(w);
	}
	Dat d; d.add(s); d.add(sentinel()); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(0);
	CHECK(y != nullptr); if (!y) return;
	header(*y, s, 0);
	if (!y->is_member()) for (unsigned i = 0; i < n; ++i) CHECK(same(y->get_string((uint16_t) i), want[i]));
	rest(sc, d.text);
}
// a string constant with a line break inside: the stray bytes before its parent are skipped
HARNESS(C22_string_line_break) {
	unsigned stray = choose(1, 4, "stray");
	DSym s {"S", TSTRING, FCONST, 1};
	s.value = "ab\n";
	for (unsigned i = 0; i < stray; ++i) { char c = (char) sym<uint8_t>("c"); ASSUME((c == ' ') | ((c >= 9) & (c <= 13))); s.value += c; }
	s.parent = -1;
	Dat d; d.add(s); d.add(sentinel()); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(0);
	CHECK(y != nullptr); if (!y) return;
	CHECK(y->get_string() == "ab");
	CHECK(y->parent() == (uint32_t) -1);
	rest(sc, d.text);
}
HARNESS(C22_code_symbol) {
	unsigned k = choose(0, 3, "type"), n = choose(0, 3, "count");
	unsigned const types[] = {TCLASS, TFUNC, TPROTO, TINST};
	unsigned type = types[k];
	DSym s = sym_symbol(type, n, choose(0, 1, "member"));
	s.name = "C";
	uint32_t address = sym<uint32_t>("address");
	p32(s.value, address);
	if (type == TFUNC) ASSUME(s.vary <= 7);
	Dat d; d.add(s); d.add(sentinel()); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(0);
	CHECK(y != nullptr); if (!y) return;
	CHECK(y->name() == "C");
	header(*y, s, 0);
	bool member = (s.flags & FMEMBER) != 0;
	if (!member && type != TCLASS) CHECK(y->address() == address);
	bool code = !member && (type == TPROTO || type == TINST || (type == TFUNC && (s.flags & FCONST)));
	if (code) CHECK(sc.find_symbol_by_address(address) == y);
	uint32_t other = sym<uint32_t>("other");
	if (!code || other != address) if (!member) CHECK(sc.find_symbol_by_address(other) == nullptr);
	if (type == TINST && !member) CHECK(y->get_instance() == nullptr);
	rest(sc, d.text);
}
HARNESS(C22_plain_symbol) { // no value: void, and the unused type codes
	unsigned type = choose(0, 8, "type");
	type = type == 0 ? 0 : 7 + type;
	DSym s = sym_symbol(type, choose(0, 3, "count"), choose(0, 1, "member"));
	s.named = choose(0, 1, "named");
	s.name = "V";
	Dat d; d.add(s); d.add(sentinel()); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(0);
	CHECK(y != nullptr); if (!y) return;
	CHECK(y->name() == (s.named ? "V" : ""));
	header(*y, s, 0);
	rest(sc, d.text);
}
HARNESS(C22_large_counts) {
	unsigned k = choose(0, 5, "case");
	unsigned n = k & 1 ? 4095 : 300;
	Dat d;
	int32_t mark = sym<int32_t>("mark");
	unsigned at = k & 1 ? 4094 : 299;
	if (k < 2) { std::vector<int32_t> v(n, 7); v[at] = mark; d.ivar("B", v); }
	else if (k < 4) { std::vector<float> v(n, 7.f); memcpy(&v[at], &mark, 4); d.fvar("B", v); }
	else { std::vector<std::string> v(n == 300 ? 300 : 600, "q"); at = (unsigned) v.size() - 1; v[at] = "last"; d.svar("B", v); n = (unsigned) v.size(); }
	d.add(sentinel()); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_name("b");
	CHECK(y != nullptr); if (!y) return;
	CHECK(y->count() == n);
	if (k < 2) { CHECK(y->get_int((uint16_t) at) == mark); CHECK(y->get_int((uint16_t) (at - 256)) == 7); }
	else if (k < 4) { float f; memcpy(&f, &mark, 4); CHECK(same(y->get_float((uint16_t) at), f)); CHECK(y->get_float((uint16_t) (at - 256)) == 7.f); }
	else { CHECK(y->get_string((uint16_t) at) == "last"); CHECK(y->get_string((uint16_t) (at - 256)) == "q"); }
	CHECK(throws([&] { if (k < 2) (void) y->get_int((uint16_t) n); else if (k < 4) (void) y->get_float((uint16_t) n); else (void) y->get_string((uint16_t) n); }));
	rest(sc, d.text);
}
HARNESS(C22_names) {
	Dat d;
	std::string n[3];
	for (auto& x : n) {
		x = sym_raw(2, "name");
		for (char c : x) ASSUME((c != 0) & (c != '\n') & (c != '\r') & !((c >= 'a') & (c <= 'z')));
		d.ivar(x);
	}
	bool gen[3];
	for (int i = 0; i < 3; ++i) { gen[i] = n[i][0] == '\xFF'; if (gen[i]) n[i][0] = '$'; }
	ASSUME(!same(n[0], n[1])); ASSUME(!same(n[0], n[2])); ASSUME(!same(n[1], n[2]));
	DaedalusScript sc = d.script();
	std::string q = sym_raw(2, "query"), up = q;
	for (auto& c : up) if (c >= 'a' && c <= 'z') c = (char) (c - 32);
	int hit = -1;
	for (int i = 0; i < 3; ++i) {
		auto* y = sc.find_symbol_by_index((uint32_t) i);
		CHECK(same(y->name(), n[i]));
		CHECK(y->is_generated() == gen[i]);
		if (same(up, n[i])) hit = i;
	}
	auto* f = sc.find_symbol_by_name(q);
	if (hit < 0) CHECK(f == nullptr); else CHECK(f == sc.find_symbol_by_index((uint32_t) hit));
	CHECK(((DaedalusScript const&) sc).find_symbol_by_name(q) == f);
}
HARNESS(C22_long_name) {
	std::string a(300, 'A'), b(300, 'A');
	a[299] = 'X'; b[299] = 'Y';
	char c = (char) sym<uint8_t>("c");
	ASSUME((c > ' ') & (c < 127) & !((c >= 'a') & (c <= 'z')));
	a[150] = c; b[150] = c;
	Dat d; d.ivar(a, {1}); d.ivar(b, {2}); d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_name(b);
	CHECK(y != nullptr && y->get_int() == 2 && same(y->name(), b));
	y = sc.find_symbol_by_name(a);
	CHECK(y != nullptr && y->get_int() == 1);
}
HARNESS(C22_index_lookup) {
	Dat d;
	for (int i = 0; i < 4; ++i) d.func(std::string(1, (char) ('A' + i)), 0, 10u * (unsigned) i + 3);
	d.func("X", 0, 100, TVOID, 0);          // a function variable has no code of its own
	d.add({"M", TFUNC, FMEMBER | FCONST, 1, 7});
	d.text = TEXT;
	DaedalusScript sc = d.script();
	uint32_t i = sym<uint32_t>("index"), a = sym<uint32_t>("address");
	auto* y = sc.find_symbol_by_index(i);
	CHECK((y != nullptr) == (i < 6));
	if (y) CHECK(y->index() == i);
	CHECK(((DaedalusScript const&) sc).find_symbol_by_index(i) == y);
	auto* z = sc.find_symbol_by_address(a);
	uint32_t want = a == 3 ? 0 : a == 13 ? 1 : a == 23 ? 2 : a == 33 ? 3 : 99;
	CHECK((z != nullptr) == (want != 99));
	if (z) CHECK(z->index() == want);
	CHECK(((DaedalusScript const&) sc).find_symbol_by_address(a) == z);
}
HARNESS(C22_decode) {
	Dat d;
	d.text = sym_raw(8, "code");
	DaedalusScript sc = d.script();
	CHECK(sc.size() == 8);
	unsigned at = choose(0, 2, "at");
	auto b = [&](unsigned i) { return (uint32_t) (uint8_t) d.text[i]; };
	auto w = [&](unsigned i) { return b(i) | b(i + 1) << 8 | b(i + 2) << 16 | b(i + 3) << 24; };
	uint32_t op = b(at);
	// looking elsewhere first does not matter
	(void) sc.instruction_at(choose(0, 7, "before"));
	auto in = sc.instruction_at(at);
	CHECK((uint32_t) in.op == op);
	bool addr = op == 61 || op == 75 || op == 76, imm = op == 64, syml = op == 62 || op == 65 || op == 67 || op == 80, vv = op == 245;
	CHECK(in.size == (vv ? 6 : (addr || imm || syml) ? 5 : 1));
	if (addr) CHECK(in.address == w(at + 1));
	if (imm) CHECK((uint32_t) in.immediate == w(at + 1));
	if (syml || vv) CHECK(in.symbol == w(at + 1));
	if (vv) CHECK(in.index == b(at + 5));
	CHECK(sc.size() == 8);
}
HARNESS(C22_outside_code) {
	Dat d;
	d.text = std::string("\x2d\x2d\x2d\x3c", 4);
	DaedalusScript sc = d.script();
	(void) sc.instruction_at(choose(0, 3, "before"));
	uint32_t a = sym<uint32_t>("address");
	bool failed = throws([&] { (void) sc.instruction_at(a); });
	CHECK(failed == (a >= 4));
	CHECK((uint8_t) sc.instruction_at(3).op == 60);
}
HARNESS(C22_parameters) {
	// parameters follow their function; locals follow the parameters and carry the function's name
	Dat d;
	d.ivar("BEFORE");
	unsigned params = choose(0, 2, "params"), locals = choose(0, 2, "locals"), tail = choose(0, 2, "tail");
	uint32_t f = d.func("FUN", params, 0);
	for (unsigned i = 0; i < params; ++i) d.ivar(std::string("FUN.P") + (char) ('0' + i));
	for (unsigned i = 0; i < locals; ++i) d.ivar(std::string("FUN.L") + (char) ('0' + i));
	if (tail == 1) d.ivar("FUNNY.L0");
	if (tail == 2) d.ivar("FUN");
	d.text = TEXT;
	DaedalusScript sc = d.script();
	auto* y = sc.find_symbol_by_index(f);
	auto p = sc.find_parameters_for_function(y);
	CHECK(p.size() == params);
	for (unsigned i = 0; i < params; ++i) CHECK(&p[i] == sc.find_symbol_by_index(f + 1 + i));
	auto cp = ((DaedalusScript const&) sc).find_parameters_for_function(y);
	CHECK(cp.size() == params);
	auto l = sc.find_locals_for_function(y);
	CHECK(l.size() == locals);
	for (unsigned i = 0; i < l.size() && i < locals; ++i) CHECK(&l[i] == sc.find_symbol_by_index(f + 1 + params + i));
}
HARNESS(C22_instances_of_class) {
	Dat d;
	uint32_t a = d.cls("CA", 0), b = d.cls("CB", 0);
	uint32_t pa = d.proto("PA", a, 1), pb = d.proto("PB", b, 2);
	uint32_t const parents[] = {a, b, pa, pb};
	unsigned which[3]; bool konst[3];
	for (int i = 0; i < 3; ++i) {
		which[i] = choose(0, 3, "parent"); konst[i] = choose(0, 1, "const");
		d.inst(std::string("I") + (char) ('0' + i), parents[which[i]], 10u + (unsigned) i, konst[i] ? FCONST : 0);
	}
	d.text = TEXT;
	DaedalusScript sc = d.script();
	std::vector<uint32_t> got, want;
	sc.enumerate_instances_by_class_name("ca", [&](DaedalusSymbol& s) { got.push_back(s.index()); });
	for (uint32_t i = 0; i < 3; ++i) if (konst[i] && (which[i] == 0 || which[i] == 2)) want.push_back(4 + i);
	CHECK(got == want);
	sc.enumerate_instances_by_class_name("nothing", [&](DaedalusSymbol&) { CHECK(false); });
}
