// C36: the standard script classes are bound to their own host fields
//@bound all 21 standard classes with all 710 members, all array elements, all 32-bit integer and float values, 2-byte strings; optional members (Gothic 1 scripts, demos) present or absent in every group combination; one standard class per script
//@assume members have the type and the element count which the Gothic scripts declare (table harness/C36_table.h)
//@outside scripts which declare several standard classes at once beyond the pairs tried
#include "dae.h"
#include "C36_table.h"
#include <zenkit/addon/daedalus.hh>
#undef var
#undef string
#undef func
using Op = DaedalusOpcode;
struct Val { uint32_t bits = 0; std::string str; };
inline void put(DaedalusSymbol* y, uint32_t type, uint16_t i, DaedalusInstance* o, Val const& v) {
	if (type == TSTRING) y->set_string(v.str, i, o);
	else if (type == TFLOAT) { float f; memcpy(&f, &v.bits, 4); y->set_float(f, i, o); }
	else y->set_int((int32_t) v.bits, i, o);
}
inline void fresh(uint32_t type, Val& v) { if (type == TSTRING) v.str = sym_raw(2, "str"); else v.bits = sym<uint32_t>("val"); }
// the table's view of one element
template <typename T> void expect(T const* field, uint32_t i, Val const& v) {
	if constexpr (std::is_same_v<T, std::string>) CHECK(same(field[i], v.str));
	else { static_assert(sizeof(T) == 4); uint32_t b; memcpy(&b, &field[i], 4); CHECK(b == v.bits); }
}
template <typename T> void reread(DaedalusSymbol* y, T const*, uint16_t i, DaedalusInstance* o, Val const& v) {
	if constexpr (std::is_same_v<T, std::string>) CHECK(same(y->get_string(i, o), v.str));
	else if constexpr (std::is_same_v<T, float>) { float f = y->get_float(i, o); uint32_t b; memcpy(&b, &f, 4); CHECK(b == v.bits); }
	else CHECK((uint32_t) y->get_int(i, o) == v.bits);
}
template <typename T, size_t N> T const* first(T const (&a)[N]) { return a; }
template <typename T> T const* first(T const& a) { return &a; }
struct Mem { char const* name; uint32_t type, count, opt; };
template <typename C> void bind(char const* cname, std::vector<Mem> const& ms, unsigned absent, void (*verify)(C const&, std::vector<DaedalusSymbol*> const&, std::vector<std::vector<Val>> const&, C&)) {
	Dat d;
	uint32_t cls = d.cls(cname, (uint32_t) ms.size());
	std::vector<int> at;
	for (auto& m : ms) at.push_back((m.opt != 0 && (absent & m.opt)) ? -1 : (int) d.member(m.name, m.type, cls, m.count));
	uint32_t in = d.inst("OBJ", cls, 0, FCONST);
	d.ret();
	DaedalusVm vm {d.script()};
	register_all_script_classes(vm);
	auto o = vm.init_instance<C>(vm.find_symbol_by_index(in));
	std::vector<DaedalusSymbol*> ys; std::vector<std::vector<Val>> vals;
	for (size_t k = 0; k < ms.size(); ++k) {
		vals.emplace_back(ms[k].count);
		ys.push_back(at[k] < 0 ? nullptr : vm.find_symbol_by_index((uint32_t) at[k]));
	}
	verify(*o, ys, vals, *o); // a new object is empty
	for (size_t k = 0; k < ms.size(); ++k)
		if (ys[k]) for (uint32_t i = 0; i < ms[k].count; ++i) { fresh(ms[k].type, vals[k][i]); put(ys[k], ms[k].type, (uint16_t) i, o.get(), vals[k][i]); }
	verify(*o, ys, vals, *o); // every value is in its own field, and nothing else changed
}
#define C36_MEM(n, f, t, k, o) Mem {n, t, k, o},
#define C36_VER(n, f, t, k, o) { auto* p = first(c.f); for (uint32_t i = 0; i < k; ++i) { expect(p, i, vals[at][i]); if (ys[at]) reread(ys[at], p, (uint16_t) i, &obj, vals[at][i]); } ++at; }
#define C36_BIND(cn, cc, groups) { \
	using T = zenkit::cc; unsigned absent = choose(0, groups, "absent"); \
	bind<T>(#cn, {TAB_##cn(C36_MEM)}, absent, [](T const& c, std::vector<DaedalusSymbol*> const& ys, std::vector<std::vector<Val>> const& vals, T& obj) { size_t at = 0; TAB_##cn(C36_VER) }); }
//@entry C36_C_GILVALUES time=240
HARNESS(C36_C_GILVALUES) C36_BIND(C_GILVALUES, IGuildValues, 1)
HARNESS(C36_C_NPC) C36_BIND(C_NPC, INpc, 3)
HARNESS(C36_C_MISSION) C36_BIND(C_MISSION, IMission, 0)
HARNESS(C36_C_ITEM) C36_BIND(C_ITEM, IItem, 3)
HARNESS(C36_C_FOCUS) C36_BIND(C_FOCUS, IFocus, 0)
HARNESS(C36_C_INFO) C36_BIND(C_INFO, IInfo, 0)
HARNESS(C36_C_ITEMREACT) C36_BIND(C_ITEMREACT, IItemReact, 0)
HARNESS(C36_C_SPELL) C36_BIND(C_SPELL, ISpell, 0)
//@entry C36_C_SVM time=240
HARNESS(C36_C_SVM) C36_BIND(C_SVM, ISvm, 2)
HARNESS(C36_C_MENU) C36_BIND(C_MENU, IMenu, 0)
HARNESS(C36_C_MENU_ITEM) C36_BIND(C_MENU_ITEM, IMenuItem, 3)
HARNESS(C36_CCAMSYS) C36_BIND(CCAMSYS, ICamera, 0)
HARNESS(C36_C_MUSICSYS_CFG) C36_BIND(C_MUSICSYS_CFG, IMusicSystem, 0)
HARNESS(C36_C_MUSICTHEME) C36_BIND(C_MUSICTHEME, IMusicTheme, 0)
HARNESS(C36_C_MUSICJINGLE) C36_BIND(C_MUSICJINGLE, IMusicJingle, 0)
HARNESS(C36_C_PARTICLEFX) C36_BIND(C_PARTICLEFX, IParticleEffect, 1)
HARNESS(C36_CFX_BASE) C36_BIND(CFX_BASE, IEffectBase, 1)
HARNESS(C36_C_PARTICLEFXEMITKEY) C36_BIND(C_PARTICLEFXEMITKEY, IParticleEffectEmitKey, 0)
HARNESS(C36_C_FIGHTAI) C36_BIND(C_FIGHTAI, IFightAi, 0)
HARNESS(C36_C_SFX) C36_BIND(C_SFX, ISoundEffect, 0)
HARNESS(C36_C_SNDSYS_CFG) C36_BIND(C_SNDSYS_CFG, ISoundSystem, 0)
HARNESS(C36_missing) { // a script which lacks a member all games have is refused, not half bound
	std::vector<Mem> ms {TAB_C_INFO(C36_MEM)};
	unsigned gone = choose(0, (unsigned) ms.size(), "gone");
	Dat d;
	uint32_t cls = d.cls("C_INFO", (uint32_t) ms.size());
	for (unsigned k = 0; k < ms.size(); ++k) if (k != gone) d.member(ms[k].name, ms[k].type, cls, ms[k].count);
	DaedalusScript s = d.script();
	bool failed = false;
	try { register_all_script_classes(s); } catch (DaedalusSymbolNotFound&) { failed = true; }
	CHECK(failed == (gone < ms.size()));
}
HARNESS(C36_mistyped) { // nor one which declares a member differently
	std::vector<Mem> ms {TAB_C_INFO(C36_MEM)};
	unsigned k = choose(0, (unsigned) ms.size() - 1, "member"), type = choose(0, 7, "type");
	unsigned count = choose(0, 2, "count"); bool member = choose(0, 1, "ismember");
	Dat d;
	uint32_t cls = d.cls("C_INFO", (uint32_t) ms.size());
	for (unsigned j = 0; j < ms.size(); ++j) {
		if (j != k) { d.member(ms[j].name, ms[j].type, cls, ms[j].count); continue; }
		DSym s {ms[j].name, type, member ? FMEMBER : 0u, count};
		s.parent = (int32_t) cls;
		if (type == TFLOAT || type == TINT) s.value = std::string(4 * count, '\0');
		else if (type == TSTRING) for (unsigned i = 0; i < count; ++i) s.value += "x\n";
		else if (type != TVOID) s.value = std::string(4, '\0');
		d.add(s);
	}
	DaedalusScript s = d.script();
	bool failed = false;
	try { register_all_script_classes(s); } catch (DaedalusScriptError&) { failed = true; }
	bool fits = ms[k].type == TSTRING ? type == TSTRING : (type == TINT || type == TFUNC);
	CHECK(failed == !(fits && member && count <= 1));
}
HARNESS(C36_running) { // a script's constructor fills the host object
	Dat d;
	uint32_t cls = d.cls("C_ITEM", 44);
	std::vector<Mem> ms {TAB_C_ITEM(C36_MEM)};
	uint32_t id = 0, name = 0, damage = 0, value = 0, state = 0;
	for (auto& m : ms) {
		uint32_t s = d.member(m.name, m.type, cls, m.count);
		std::string n = m.name;
		if (n == "C_ITEM.ID") id = s; else if (n == "C_ITEM.NAME") name = s; else if (n == "C_ITEM.DAMAGE") damage = s;
		else if (n == "C_ITEM.VALUE") value = s; else if (n == "C_ITEM.ON_STATE") state = s;
	}
	std::string txt = sym_word(2, "text"); ASSUME(txt[0] != 0x5c); // no escapes
	uint32_t lit = d.svar("LIT", {txt}, FCONST);
	uint32_t fn = d.func("F", 0, 0);
	d.ret();
	int32_t a = sym<int32_t>("id"), b = sym<int32_t>("damage"), c = sym<int32_t>("value");
	unsigned ix = choose(0, 7, "index"), sx = choose(0, 3, "state");
	uint32_t code = d.here();
	d.pushi(a).pushv(id).op(Op::MOVI);
	d.pushv(lit).pushv(name).op(Op::MOVS);
	d.pushi(b).opvv(damage, ix).op(Op::MOVI);
	d.pushi((int32_t) fn).opvv(state, sx).op(Op::MOVVF);
	d.pushi(c).pushv(value).op(Op::MOVI);
	d.pushv(id).pushv(value).op(Op::ADDMOVI);
	d.ret();
	uint32_t in = d.inst("IT", cls, code, FCONST);
	DaedalusVm vm {d.script()};
	register_all_script_classes(vm);
	auto o = vm.init_instance<IItem>(vm.find_symbol_by_index(in));
	CHECK(o->id == a); CHECK(same(o->name, txt));
	CHECK((uint32_t) o->value == (uint32_t) a + (uint32_t) c);
	for (unsigned j = 0; j < 8; ++j) CHECK(o->damage[j] == (j == ix ? b : 0));
	for (unsigned j = 0; j < 4; ++j) CHECK((uint32_t) o->on_state[j] == (j == sx ? fn : 0u));
	CHECK(o->hp == 0); CHECK(o->description.empty());
}
HARNESS(C36_several) { // classes of one script do not get into each other's way
	Dat d;
	std::vector<Mem> as {TAB_C_MENU(C36_MEM)}, bs {TAB_C_SFX(C36_MEM)}, cs {TAB_C_ITEMREACT(C36_MEM)};
	uint32_t c1 = d.cls("C_MENU", 13), c2 = d.cls("C_SFX", 9), c3 = d.cls("C_ITEMREACT", 7);
	std::vector<uint32_t> s1, s2, s3;
	for (auto& m : cs) s3.push_back(d.member(m.name, m.type, c3, m.count));
	for (auto& m : as) s1.push_back(d.member(m.name, m.type, c1, m.count));
	for (auto& m : bs) s2.push_back(d.member(m.name, m.type, c2, m.count));
	uint32_t i1 = d.inst("A", c1, 0, FCONST), i2 = d.inst("B", c2, 0, FCONST), i3 = d.inst("C", c3, 0, FCONST);
	d.ret();
	DaedalusVm vm {d.script()};
	register_all_script_classes(vm);
	auto a = vm.init_instance<IMenu>(vm.find_symbol_by_index(i1));
	auto b = vm.init_instance<ISoundEffect>(vm.find_symbol_by_index(i2));
	auto c = vm.init_instance<IItemReact>(vm.find_symbol_by_index(i3));
	int32_t x = sym<int32_t>("x"), y = sym<int32_t>("y"), z = sym<int32_t>("z");
	vm.find_symbol_by_name("C_MENU.FLAGS")->set_int(x, 0, a.get());
	vm.find_symbol_by_name("C_SFX.LOOP")->set_int(y, 0, b.get());
	vm.find_symbol_by_name("C_ITEMREACT.REQUESTED_ITEM")->set_int(z, 0, c.get());
	CHECK((int32_t) a->flags == x); CHECK(b->loop == y); CHECK(c->requested_item == z);
	bool refused = false;
	try { vm.find_symbol_by_name("C_SFX.LOOP")->set_int(1, 0, a.get()); } catch (DaedalusScriptError&) { refused = true; }
	CHECK(refused); CHECK((int32_t) a->flags == x);
}
HARNESS(C36_choices) { // dialogue choices: newest first, removal by position
	IInfo info {};
	unsigned n = choose(0, 3, "n");
	std::vector<int32_t> fn; std::vector<std::string> tx;
	for (unsigned i = 0; i < n; ++i) {
		IInfoChoice c; c.text = sym_raw(1, "text"); c.function = sym<int32_t>("fn");
		fn.insert(fn.begin(), c.function); tx.insert(tx.begin(), c.text);
		info.add_choice(c);
	}
	if (n > 0) {
		unsigned k = choose(0, n - 1, "remove");
		info.remove_choice((size_t) k);
		CHECK(info.choices.size() == n - 1);
		for (unsigned i = 0; i + 1 < n; ++i) {
			unsigned src = i < k ? i : i + 1;
			CHECK(info.choices[i].function == fn[src]); CHECK(same(info.choices[i].text, tx[src]));
		}
	} else CHECK(info.choices.empty());
}
