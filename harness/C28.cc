// C28: model scripts mean the same as text and as compiled binary
//@bound binary form: all values of every numeric field, all flag letters, names of up to 3 arbitrary line bytes, two animations with every kind of event, all event types; text form: every statement with every combination of its optional parts, numbers of up to 3 arbitrary digits with sign, names of up to 2 arbitrary characters, letter case of keywords arbitrary, separators of every kind (blanks, line breaks of both kinds, parentheses, semicolons, comments) in every pair of gaps, the end of the file after every complete statement
//@bound scripts of 60 animations with 40 events each, 40 meshes and 40 of each other statement, names of 100 and 300 characters, in both forms
//@assume names in text contain neither quotation marks nor line breaks; floating point numbers in text are taken from a list of forms, their conversion is the C library's
//@outside statements the parser documents as unsupported; text that is not a model script (see C27); animation speed, which the text form does not have
#include "zse.h"
#include <zenkit/ModelScript.hh>
#include <zenkit/Stream.hh>
using namespace zenkit;
using Sc = ModelScript;
static void p32(std::string& o, uint32_t v) { for (int i = 0; i < 4; ++i) o.push_back((char) (v >> (8 * i))); }
static void p16(std::string& o, uint32_t v) { o.push_back((char) v); o.push_back((char) (v >> 8)); }
static void pf(std::string& o, float v) { o.append((char const*) &v, 4); }
static void pl(std::string& o, std::string const& s) { o += s; o += '\n'; }
static void chunk(std::string& o, uint32_t type, std::string const& body) { p16(o, type); p32(o, (uint32_t) body.size()); o += body; }
static Sc load(std::string const& b) {
	std::vector<std::byte> v(b.size());
	if (!b.empty()) memcpy(v.data(), b.data(), b.size());
	auto r = Read::from(std::move(v));
	Sc s;
	s.load(r.get());
	return s;
}
static float symf(char const* n) { uint32_t b = sym<uint32_t>(n); float f; memcpy(&f, &b, 4); return f; }
static uint8_t flagval(std::string const& s) {
	uint8_t f = 0;
	for (char c : s) f |= c == 'M' ? 1 : c == 'R' ? 2 : c == 'E' ? 4 : c == 'F' ? 8 : c == 'I' ? 16 : c == 'P' ? 32 : 0;
	return f;
}
static std::string flags(unsigned n) { // flag letters and dots
	std::string s;
	static char const L[] = "MREFIP.";
	for (unsigned i = 0; i < n; ++i) s += L[choose(0, 6, "flag")];
	return s;
}
// ------------------------------------------------------------------ comparison
static void same_ani(MdsAnimation const& a, MdsAnimation const& b, bool speed = true) {
	CHECK(same(a.name, b.name)); CHECK(a.layer == b.layer); CHECK(same(a.next, b.next));
	CHECK(same(a.blend_in, b.blend_in)); CHECK(same(a.blend_out, b.blend_out)); CHECK(a.flags == b.flags);
	CHECK(same(a.model, b.model)); CHECK(a.direction == b.direction); CHECK(a.first_frame == b.first_frame); CHECK(a.last_frame == b.last_frame);
	CHECK(same(a.fps, b.fps)); if (speed) CHECK(same(a.speed, b.speed)); CHECK(same(a.collision_volume_scale, b.collision_volume_scale));
	CHECK(a.events.size() == b.events.size()); CHECK(a.pfx.size() == b.pfx.size()); CHECK(a.pfx_stop.size() == b.pfx_stop.size());
	CHECK(a.sfx.size() == b.sfx.size()); CHECK(a.sfx_ground.size() == b.sfx_ground.size()); CHECK(a.morph.size() == b.morph.size()); CHECK(a.tremors.size() == b.tremors.size());
	for (size_t i = 0; i < a.events.size(); ++i) {
		auto &x = a.events[i], &y = b.events[i];
		CHECK(x.frame == y.frame); CHECK(x.type == y.type); CHECK(same(x.slot, y.slot)); CHECK(same(x.slot2, y.slot2)); CHECK(same(x.item, y.item));
		CHECK(x.frames == y.frames); CHECK(x.fight_mode == y.fight_mode); CHECK(x.attached == y.attached);
	}
	for (size_t i = 0; i < a.pfx.size(); ++i) { auto &x = a.pfx[i], &y = b.pfx[i]; CHECK(x.frame == y.frame); CHECK(x.index == y.index); CHECK(same(x.name, y.name)); CHECK(same(x.position, y.position)); CHECK(x.attached == y.attached); }
	for (size_t i = 0; i < a.pfx_stop.size(); ++i) { auto &x = a.pfx_stop[i], &y = b.pfx_stop[i]; CHECK(x.frame == y.frame); CHECK(x.index == y.index); }
	for (size_t i = 0; i < a.sfx.size(); ++i) { auto &x = a.sfx[i], &y = b.sfx[i]; CHECK(x.frame == y.frame); CHECK(same(x.name, y.name)); CHECK(same(x.range, y.range)); CHECK(x.empty_slot == y.empty_slot); }
	for (size_t i = 0; i < a.sfx_ground.size(); ++i) { auto &x = a.sfx_ground[i], &y = b.sfx_ground[i]; CHECK(x.frame == y.frame); CHECK(same(x.name, y.name)); CHECK(same(x.range, y.range)); CHECK(x.empty_slot == y.empty_slot); }
	for (size_t i = 0; i < a.morph.size(); ++i) { auto &x = a.morph[i], &y = b.morph[i]; CHECK(x.frame == y.frame); CHECK(same(x.animation, y.animation)); CHECK(same(x.node, y.node)); }
	for (size_t i = 0; i < a.tremors.size(); ++i) { auto &x = a.tremors[i], &y = b.tremors[i]; CHECK(x.frame == y.frame); CHECK(x.field1 == y.field1); CHECK(x.field2 == y.field2); CHECK(x.field3 == y.field3); CHECK(x.field4 == y.field4); }
}
static void same_script(Sc const& a, Sc const& b, bool speed = true) {
	CHECK(same(a.skeleton.name, b.skeleton.name)); CHECK(a.skeleton.disable_mesh == b.skeleton.disable_mesh);
	CHECK(a.meshes.size() == b.meshes.size()); for (size_t i = 0; i < a.meshes.size(); ++i) CHECK(same(a.meshes[i], b.meshes[i]));
	CHECK(a.disabled_animations.size() == b.disabled_animations.size()); for (size_t i = 0; i < a.disabled_animations.size(); ++i) CHECK(same(a.disabled_animations[i], b.disabled_animations[i]));
	CHECK(a.model_tags.size() == b.model_tags.size()); for (size_t i = 0; i < a.model_tags.size(); ++i) CHECK(same(a.model_tags[i].bone, b.model_tags[i].bone));
	CHECK(a.blends.size() == b.blends.size());
	for (size_t i = 0; i < a.blends.size(); ++i) { auto &x = a.blends[i], &y = b.blends[i]; CHECK(same(x.name, y.name)); CHECK(same(x.next, y.next)); CHECK(same(x.blend_in, y.blend_in)); CHECK(same(x.blend_out, y.blend_out)); }
	CHECK(a.aliases.size() == b.aliases.size());
	for (size_t i = 0; i < a.aliases.size(); ++i) { auto &x = a.aliases[i], &y = b.aliases[i]; CHECK(same(x.name, y.name)); CHECK(x.layer == y.layer); CHECK(same(x.next, y.next)); CHECK(same(x.blend_in, y.blend_in)); CHECK(same(x.blend_out, y.blend_out)); CHECK(x.flags == y.flags); CHECK(same(x.alias, y.alias)); CHECK(x.direction == y.direction); }
	CHECK(a.combinations.size() == b.combinations.size());
	for (size_t i = 0; i < a.combinations.size(); ++i) { auto &x = a.combinations[i], &y = b.combinations[i]; CHECK(same(x.name, y.name)); CHECK(x.layer == y.layer); CHECK(same(x.next, y.next)); CHECK(same(x.blend_in, y.blend_in)); CHECK(same(x.blend_out, y.blend_out)); CHECK(x.flags == y.flags); CHECK(same(x.model, y.model)); CHECK(x.last_frame == y.last_frame); }
	CHECK(a.animations.size() == b.animations.size());
	for (size_t i = 0; i < a.animations.size(); ++i) same_ani(a.animations[i], b.animations[i], speed);
}
// ------------------------------------------------------------------ compiled form
static void bin_ani(std::string& o, MdsAnimation const& a, std::string const& fl) {
	std::string b;
	pl(b, a.name); p32(b, a.layer); pl(b, a.next); pf(b, a.blend_in); pf(b, a.blend_out); pl(b, fl); pl(b, a.model);
	pl(b, a.direction == AnimationDirection::BACKWARD ? "R" : "F");
	p32(b, (uint32_t) a.first_frame); p32(b, (uint32_t) a.last_frame); pf(b, a.fps); pf(b, a.speed); pf(b, a.collision_volume_scale);
	chunk(o, 0xF520, b);
}
static void prologue(std::string& o) {
	{ std::string b; p32(b, 1); pl(b, "A.MDS"); chunk(o, 0xF000, b); }
	{ std::string b; p32(b, 2002); b.append(12, '\1'); pl(b, "PATH"); chunk(o, 0xF100, b); }
	chunk(o, 0xF200, "X\n");
}
static void epilogue(std::string& o) { chunk(o, 0xF5FF, ""); chunk(o, 0xF2FF, ""); chunk(o, 0xFFFF, ""); }
static MdsAnimation sym_ani(std::string& fl, unsigned nflags) {
	MdsAnimation a {};
	a.name = sym_line(2, "name"); a.layer = sym<uint32_t>("layer"); a.next = sym_line(1, "next"); a.blend_in = symf("in"); a.blend_out = symf("out");
	fl = flags(nflags); a.flags = (AnimationFlags) flagval(fl); a.model = sym_line(2, "model");
	a.direction = choose(0, 1, "direction") ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
	a.first_frame = sym<int32_t>("first"); a.last_frame = sym<int32_t>("last"); a.fps = symf("fps"); a.speed = symf("speed"); a.collision_volume_scale = symf("cvs");
	return a;
}
HARNESS(C28_binary_animation) {
	std::string o, fl;
	Sc e;
	prologue(o);
	e.animations.push_back(sym_ani(fl, choose(0, 3, "flags")));
	bin_ani(o, e.animations[0], fl);
	epilogue(o);
	same_script(load(o), e);
}
HARNESS(C28_binary_model) {
	std::string o;
	Sc e;
	prologue(o);
	unsigned n = choose(0, 2, "meshes");
	uint32_t dis = sym<uint32_t>("disable");
	e.skeleton.disable_mesh = dis != 0; e.skeleton.name = sym_line(3, "skeleton");
	{ std::string b; p32(b, dis); pl(b, e.skeleton.name); chunk(o, 0xF300, b); }
	for (unsigned i = 0; i < n; ++i) { e.meshes.push_back(sym_line(choose(0, 2, "len"), "mesh")); std::string b; pl(b, e.meshes[i]); chunk(o, 0xF400, b); }
	epilogue(o);
	same_script(load(o), e);
}
HARNESS(C28_binary_statements) {
	// every order of two of the other statements
	std::string o;
	Sc e;
	prologue(o);
	for (unsigned k = 0; k < 2; ++k) {
		unsigned which = choose(0, 4, "statement");
		std::string b;
		if (which == 0) {
			std::string f = flags(1);
			MdsAnimationAlias a {}; a.name = sym_line(2, "name"); a.layer = sym<uint32_t>("layer"); a.next = sym_line(1, "next"); a.blend_in = symf("in"); a.blend_out = symf("out");
			a.flags = (AnimationFlags) flagval(f); a.alias = sym_line(2, "alias"); a.direction = choose(0, 1, "direction") ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
			pl(b, a.name); p32(b, a.layer); pl(b, a.next); pf(b, a.blend_in); pf(b, a.blend_out); pl(b, f); pl(b, a.alias); pl(b, a.direction == AnimationDirection::BACKWARD ? "R" : "F");
			chunk(o, 0xF530, b); e.aliases.push_back(a);
		} else if (which == 1) {
			MdsAnimationBlend a {}; a.name = sym_line(2, "name"); a.next = sym_line(1, "next"); a.blend_in = symf("in"); a.blend_out = symf("out");
			pl(b, a.name); pl(b, a.next); pf(b, a.blend_in); pf(b, a.blend_out);
			chunk(o, 0xF540, b); e.blends.push_back(a);
		} else if (which == 2) {
			std::string f = flags(1);
			MdsAnimationCombine a {}; a.name = sym_line(2, "name"); a.layer = sym<uint32_t>("layer"); a.next = sym_line(1, "next"); a.blend_in = symf("in"); a.blend_out = symf("out");
			a.flags = (AnimationFlags) flagval(f); a.model = sym_line(2, "model"); a.last_frame = sym<int32_t>("last");
			pl(b, a.name); p32(b, a.layer); pl(b, a.next); pf(b, a.blend_in); pf(b, a.blend_out); pl(b, f); pl(b, a.model); p32(b, (uint32_t) a.last_frame);
			chunk(o, 0xF570, b); e.combinations.push_back(a);
		} else if (which == 3) {
			e.disabled_animations.push_back(sym_line(2, "disabled")); pl(b, e.disabled_animations.back());
			chunk(o, 0xF580, b);
		} else {
			MdsModelTag t; t.bone = sym_line(2, "bone");
			p32(b, sym<uint32_t>("frame")); pl(b, choose(0, 1, "tag") ? "HIT_LIMB" : "DEF_HIT_LIMB"); pl(b, t.bone);
			chunk(o, 0xF590, b); e.model_tags.push_back(t);
		}
	}
	epilogue(o);
	same_script(load(o), e);
}
static MdsAnimation plain_ani(std::string name) {
	MdsAnimation a {};
	a.name = std::move(name); a.layer = 1; a.next = "N"; a.blend_in = .5f; a.blend_out = .25f; a.flags = AnimationFlags::MOVE; a.model = "M"; a.direction = AnimationDirection::FORWARD;
	a.first_frame = 1; a.last_frame = 9; a.fps = 25; a.speed = 0; a.collision_volume_scale = 1;
	return a;
}
// one event of a kind with symbolic contents, in compiled form
static void bin_event(std::string& o, MdsAnimation& a, unsigned kind) {
	std::string b;
	switch (kind) {
	case 0: { MdsCameraTremor t; t.frame = sym<int32_t>("frame"); t.field1 = sym<int32_t>("f1"); t.field2 = sym<int32_t>("f2"); t.field3 = sym<int32_t>("f3"); t.field4 = sym<int32_t>("f4");
		for (int32_t v : {t.frame, t.field1, t.field2, t.field3, t.field4}) p32(b, (uint32_t) v); chunk(o, 0xF5AA, b); a.tremors.push_back(t); break; }
	case 1: case 2: {
		MdsSoundEffect t {}; t.frame = sym<int32_t>("frame"); t.name = sym_line(2, "sfx"); t.range = symf("range"); uint32_t em = sym<uint32_t>("empty"); t.empty_slot = em != 0;
		p32(b, (uint32_t) t.frame); pl(b, t.name); pf(b, t.range); p32(b, em); chunk(o, kind == 1 ? 0xF5A1 : 0xF5A2, b);
		if (kind == 1) a.sfx.push_back(t); else a.sfx_ground.push_back({t.frame, t.name, t.range, t.empty_slot});
		break; }
	case 3: { MdsParticleEffect t {}; t.frame = sym<int32_t>("frame"); t.index = sym<int32_t>("index"); t.name = sym_line(2, "pfx"); t.position = sym_line(1, "pos"); uint32_t at = sym<uint32_t>("attached"); t.attached = at != 0;
		p32(b, (uint32_t) t.frame); p32(b, (uint32_t) t.index); pl(b, t.name); pl(b, t.position); p32(b, at); chunk(o, 0xF5A4, b); a.pfx.push_back(t); break; }
	case 4: { MdsParticleEffectStop t {}; t.frame = sym<int32_t>("frame"); t.index = sym<int32_t>("index"); p32(b, (uint32_t) t.frame); p32(b, (uint32_t) t.index); chunk(o, 0xF5A5, b); a.pfx_stop.push_back(t); break; }
	case 5: { MdsMorphAnimation t {}; t.frame = sym<int32_t>("frame"); t.animation = sym_line(2, "ani"); t.node = sym_line(choose(0, 1, "node"), "node");
		p32(b, (uint32_t) t.frame); pl(b, t.animation); pl(b, t.node); pf(b, 1.f); pf(b, 2.f); chunk(o, 0xF5A9, b); a.morph.push_back(t); break; }
	default: { MdsEventTag t {}; t.frame = sym<int32_t>("frame"); t.type = MdsEventType::ITEM_CREATE; t.slot = sym_line(choose(0, 1, "slot"), "slot"); t.item = sym_line(choose(0, 2, "item"), "item");
		p32(b, (uint32_t) t.frame); pl(b, "DEF_CREATE_ITEM"); pl(b, t.slot); pl(b, t.item); chunk(o, 0xF5A3, b); a.events.push_back(t); break; }
	}
}
HARNESS(C28_binary_events) {
	// events belong to the animation before them; every pair of events on two animations
	std::string o;
	Sc e;
	prologue(o);
	unsigned k1 = choose(0, 6, "first"), k2 = choose(0, 6, "second"), split = choose(0, 2, "split"); // how many of the two go to the first one
	e.animations.push_back(plain_ani("A")); e.animations.push_back(plain_ani("B"));
	for (unsigned i = 0; i < 2; ++i) {
		bin_ani(o, e.animations[i], "M");
		std::string b; p32(b, 1); chunk(o, 0xF5A0, b);
		if (i == 0 ? split >= 1 : split == 0) bin_event(o, e.animations[i], k1);
		if (i == 0 ? split == 2 : split <= 1) bin_event(o, e.animations[i], k2);
		chunk(o, 0xF5AF, "");
	}
	epilogue(o);
	same_script(load(o), e);
}
struct Ev { char const* name; MdsEventType type; };
static Ev const EVENTS[] = {
    {"DEF_CREATE_ITEM", MdsEventType::ITEM_CREATE}, {"DEF_INSERT_ITEM", MdsEventType::ITEM_INSERT}, {"DEF_REMOVE_ITEM", MdsEventType::ITEM_REMOVE}, {"DEF_DESTROY_ITEM", MdsEventType::ITEM_DESTROY},
    {"DEF_PLACE_ITEM", MdsEventType::ITEM_PLACE}, {"DEF_EXCHANGE_ITEM", MdsEventType::ITEM_EXCHANGE}, {"DEF_FIGHTMODE", MdsEventType::SET_FIGHT_MODE}, {"DEF_PLACE_MUNITION", MdsEventType::MUNITION_PLACE},
    {"DEF_REMOVE_MUNITION", MdsEventType::MUNITION_REMOVE}, {"DEF_DRAWSOUND", MdsEventType::SOUND_DRAW}, {"DEF_UNDRAWSOUND", MdsEventType::SOUND_UNDRAW}, {"DEF_SWAPMESH", MdsEventType::MESH_SWAP},
    {"DEF_DRAWTORCH", MdsEventType::TORCH_DRAW}, {"DEF_INV_TORCH", MdsEventType::TORCH_INVENTORY}, {"DEF_DROP_TORCH", MdsEventType::TORCH_DROP}, {"DEF_HIT_LIMB", MdsEventType::HIT_LIMB}, {"HIT_LIMB", MdsEventType::HIT_LIMB},
    {"DEF_HIT_DIR", MdsEventType::HIT_DIRECTION}, {"DEF_DIR", MdsEventType::HIT_DIRECTION}, {"DEF_DAM_MULTIPLY", MdsEventType::DAMAGE_MULTIPLIER}, {"DEF_PAR_FRAME", MdsEventType::PARRY_FRAME}, {"DEF_OPT_FRAME", MdsEventType::OPTIMAL_FRAME},
    {"DEF_HIT_END", MdsEventType::HIT_END}, {"DEF_WINDOW", MdsEventType::COMBO_WINDOW}, {"DEF_NO_SUCH_THING", MdsEventType::UNKNOWN}};
// gives an event its arguments, returns whether it takes them
static unsigned arguments(MdsEventTag& t, std::string& a, std::string& b, bool text) {
	switch (t.type) {
	case MdsEventType::ITEM_CREATE: case MdsEventType::ITEM_EXCHANGE: case MdsEventType::MESH_SWAP:
		a = sym_line(2, "a"); b = sym_line(2, "b");
		t.slot = a; (t.type == MdsEventType::MESH_SWAP ? t.slot2 : t.item) = b;
		return 2;
	case MdsEventType::SET_FIGHT_MODE: {
		static char const* const M[] = {"FIST", "1H", "1h", "2H", "2h", "BOW", "CBOW", "MAG", "", "XYZ"};
		static uint8_t const V[] = {0, 1, 1, 2, 2, 3, 4, 5, 6, 6};
		unsigned i = choose(0, 9, "mode");
		a = M[i]; t.fight_mode = (MdsFightMode) V[i];
		return 1; }
	case MdsEventType::DAMAGE_MULTIPLIER: case MdsEventType::PARRY_FRAME: case MdsEventType::OPTIMAL_FRAME: case MdsEventType::HIT_END: case MdsEventType::COMBO_WINDOW: {
		unsigned n = choose(0, 3, "frames"), sp = choose(0, 3, "blanks");
		if (sp == 1) a += ' ';
		for (unsigned i = 0; i < n; ++i) {
			if (i) a += sp == 2 ? "  " : " ";
			unsigned d = sym_in<unsigned>(0, 9, "digit"), h = sym_in<unsigned>(1, 9, "digit");
			a += (char) ('0' + h); a += (char) ('0' + d); t.frames.push_back((int32_t) (h * 10 + d));
		}
		if (sp == 3) a += ' ';
		return 1; }
	case MdsEventType::UNKNOWN: case MdsEventType::ITEM_PLACE: case MdsEventType::TORCH_DRAW: case MdsEventType::TORCH_DROP: return 0;
	default: (void) text; a = sym_line(2, "a"); t.slot = a; return 1;
	}
}
HARNESS(C28_binary_event_types) {
	std::string o, a, b;
	Sc e;
	prologue(o);
	e.animations.push_back(plain_ani("A"));
	bin_ani(o, e.animations[0], "M");
	MdsEventTag t {};
	auto& ev = EVENTS[choose(0, 24, "type")];
	t.frame = sym<int32_t>("frame"); t.type = ev.type;
	arguments(t, a, b, false);
	std::string c;
	p32(c, (uint32_t) t.frame); pl(c, ev.name); pl(c, a); pl(c, b);
	chunk(o, 0xF5A3, c);
	e.animations[0].events.push_back(t);
	epilogue(o);
	same_script(load(o), e);
}
// ------------------------------------------------------------------ text form
static std::string kw(char const* s) { // a keyword in arbitrary letter case
	std::string r = s;
	uint32_t m = sym<uint32_t>("case");
	for (size_t i = 0; i < r.size(); ++i) if ((r[i] | 32) >= 'a' && (r[i] | 32) <= 'z') r[i] = (char) ((r[i] & ~32) | ((m >> i & 1) << 5));
	return r;
}
static std::string name(size_t n, char const* what) { // contents of a quoted string
	std::string r = sym_line(n, what);
	for (char c : r) ASSUME(c != '"');
	return r;
}
static std::string q(std::string const& s) { return "\"" + s + "\""; }
static std::string num(int32_t& v, bool neg = true) {
	unsigned n = choose(1, 2, "digits");
	bool minus = neg && choose(0, 1, "sign");
	std::string r = minus ? "-" : "";
	v = 0;
	for (unsigned i = 0; i < n; ++i) { unsigned d = sym_in<unsigned>(0, 9, "digit"); r += (char) ('0' + d); v = v * 10 + (int32_t) d; }
	if (minus) v = -v;
	return r;
}
static std::string numf(float& v) {
	static char const* const T[] = {"0", "1.5", "-0.25", "100.125", "7"};
	static float const V[] = {0.f, 1.5f, -.25f, 100.125f, 7.f};
	unsigned i = choose(0, 4, "number");
	v = V[i];
	return T[i];
}
static std::string const HEAD = "Model (\"HuS\")\n{\n", ENUM = "aniEnum\n{\n";
HARNESS(C28_text_model) {
	Sc e;
	bool dis = choose(0, 1, "disable"), cr = choose(0, 1, "crlf");
	char const* nl = cr ? "\r\n" : "\n";
	e.skeleton.name = name(2, "skeleton"); e.skeleton.disable_mesh = dis;
	std::string t = kw("Model") + " (\"HuS\")" + nl + "{" + nl;
	t += kw("meshAndTree") + "(" + q(e.skeleton.name) + (dis ? " " + kw("DONT_USE_MESH") : std::string()) + ")" + nl;
	e.meshes.push_back(name(2, "mesh")); e.meshes.push_back("B(6)"); e.meshes.push_back("C.ASC");
	t += kw("registerMesh") + " (" + q(e.meshes[0]) + ")" + nl;
	t += "registerMesh (\"B(6)\")"; t += nl;
	// forms of unterminated strings some scripts contain
	static char const* const F[] = {"registerMesh (\"C.ASC\")", "registerMesh (\"C.ASC\"", "registerMesh (\"C.ASC)", "registerMesh (\"C.ASC", "registerMesh (\"C.ASC) ", "registerMesh \"C.ASC\";"};
	t += F[choose(0, 5, "form")]; t += nl;
	t += "}"; if (choose(0, 1, "end")) t += nl;
	same_script(load(t), e);
}
static std::string text_ani(MdsAnimation& a) { // all parts but the events
	std::string t = kw("ani");
	int32_t layer;
	a.name = name(1, "name"); a.next = name(1, "next"); a.model = name(1, "model");
	t += " (" + q(a.name) + " " + num(layer, false) + " " + q(a.next) + " ";
	a.layer = (uint32_t) layer;
	t += "1.5 0.25 ";
	a.blend_in = 1.5f; a.blend_out = .25f;
	t += "M." + std::string(" ") + q(a.model) + " ";
	a.flags = AnimationFlags::MOVE; a.speed = 0;
	bool back = choose(0, 1, "direction");
	t += kw(back ? "R" : "F") + " "; a.direction = back ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
	t += num(a.first_frame) + " " + num(a.last_frame);
	a.fps = 25; a.collision_volume_scale = 1;
	return t;
}
HARNESS(C28_text_animation) {
	Sc e;
	MdsAnimation a {};
	std::string t = HEAD + ENUM + text_ani(a);
	if (choose(0, 1, "fps")) t += " " + kw("FPS") + ":" + numf(a.fps);
	if (choose(0, 1, "cvs")) t += " " + kw("CVS") + ":" + numf(a.collision_volume_scale);
	t += ")\n}\n}\n";
	e.animations.push_back(a);
	same_script(load(t), e);
}
HARNESS(C28_text_numbers) {
	Sc e;
	MdsAnimation a = plain_ani("A");
	std::string f = flags(choose(1, 3, "flags"));
	a.flags = (AnimationFlags) flagval(f);
	std::string t = HEAD + ENUM + "ani (\"A\" 1 \"N\" " + numf(a.blend_in) + " ";
	t += numf(a.blend_out) + " " + f + " \"M\" F 1 9)\n}\n}";
	e.animations.push_back(a);
	same_script(load(t), e);
}
// one further statement with all its optional parts
static std::string statement(Sc& e, unsigned which) {
	switch (which) {
	case 0: {
		MdsAnimationBlend b {};
		b.name = name(1, "name"); b.next = name(1, "next");
		int32_t ignored;
		std::string t = kw("aniBlend") + " (" + q(b.name) + " " + (choose(0, 1, "layer") ? num(ignored) + " " : std::string()) + q(b.next);
		unsigned n = choose(0, 2, "times");
		if (n > 0) t += " " + numf(b.blend_in);
		if (n > 1) { t += " 0.5"; b.blend_out = .5f; }
		e.blends.push_back(b);
		return t + ")"; }
	case 1: {
		MdsAnimationAlias b {};
		b.name = name(1, "name"); b.next = name(1, "next"); b.alias = name(1, "alias");
		int32_t layer;
		std::string t = kw("aniAlias") + " (" + q(b.name) + " " + num(layer, false) + " " + q(b.next) + " 0.5 1.5 ME " + q(b.alias);
		b.layer = (uint32_t) layer; b.blend_in = .5f; b.blend_out = 1.5f; b.flags = (AnimationFlags) 5;
		unsigned d = choose(0, 2, "direction");
		if (d) t += " " + kw(d == 1 ? "F" : "R");
		b.direction = d == 2 ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
		e.aliases.push_back(b);
		return t + ")"; }
	case 2: {
		MdsAnimationCombine b {};
		b.name = name(1, "name"); b.next = name(1, "next"); b.model = name(1, "model");
		int32_t layer;
		std::string t = kw("aniComb") + " (" + q(b.name) + " " + num(layer, false) + " " + q(b.next) + " 0.5 1.5 .I " + q(b.model) + " " + num(b.last_frame) + ")";
		b.layer = (uint32_t) layer; b.blend_in = .5f; b.blend_out = 1.5f; b.flags = AnimationFlags::IDLE;
		if (choose(0, 1, "block")) t += " { *eventTag (0 \"DEF_DROP_TORCH\") }";
		e.combinations.push_back(b);
		return t; }
	case 3: e.disabled_animations.push_back(name(1, "disabled")); return kw("aniDisable") + " (" + q(e.disabled_animations.back()) + ")";
	case 4: e.model_tags.push_back({name(1, "bone")}); return kw("modelTag") + " (\"DEF_HIT_LIMB\" " + q(e.model_tags.back().bone) + ")";
	default: e.animations.push_back(plain_ani("Z")); return kw("ani") + " (\"Z\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9 FPS:25 CVS:1)";
	}
}
HARNESS(C28_text_statements) {
	Sc e;
	std::string t = HEAD + ENUM;
	unsigned a = choose(0, 5, "first");
	t += statement(e, a) + "\n" + kw("modelTag") + "(\"DEF_HIT_LIMB\" \"LAST\")\n}\n}";
	e.model_tags.push_back({"LAST"});
	same_script(load(t), e);
}
HARNESS(C28_text_sequence) {
	// statements in every order, with plain contents
	static char const* const S[] = {"ani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9)", "aniBlend (\"B\" \"C\")", "aniAlias (\"D\" 1 \"N\" 0.5 0.25 M \"E\")", "aniComb (\"F\" 1 \"N\" 0.5 0.25 M \"G\" 3)", "aniDisable (\"H\")", "modelTag (\"DEF_HIT_LIMB\" \"I\")",
	    "ani (\"J\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9) { *eventPFXStop (1 2) }", "aniBlend (\"K\" \"L\" 0.5 0.25)"};
	Sc e;
	std::string t = HEAD;
	bool late = choose(0, 1, "late");
	if (!late) t += "registerMesh (\"X\")\n";
	t += ENUM;
	e.meshes.push_back("X");
	for (unsigned i = 0; i < 3; ++i) {
		unsigned w = choose(0, 7, "which");
		t += S[w]; t += "\n";
		if (w == 0) e.animations.push_back(plain_ani("A"));
		if (w == 1) e.blends.push_back({"B", "C", 0, 0});
		if (w == 2) e.aliases.push_back({"D", 1, "N", .5f, .25f, AnimationFlags::MOVE, "E", AnimationDirection::FORWARD});
		if (w == 3) e.combinations.push_back({"F", 1, "N", .5f, .25f, AnimationFlags::MOVE, "G", 3});
		if (w == 4) e.disabled_animations.push_back("H");
		if (w == 5) e.model_tags.push_back({"I"});
		if (w == 6) { e.animations.push_back(plain_ani("J")); e.animations.back().pfx_stop.push_back({1, 2}); }
		if (w == 7) e.blends.push_back({"K", "L", .5f, .25f});
	}
	t += "}\n";
	if (late) t += "registerMesh (\"X\")\n";
	t += "}\n";
	same_script(load(t), e);
}
// one event with its optional parts
static std::string text_event(MdsAnimation& a, unsigned kind) {
	switch (kind) {
	case 0: { MdsSoundEffect s {}; s.name = name(1, "sfx"); s.range = 1000;
		std::string t = kw("*eventSFX") + " (" + num(s.frame) + " " + q(s.name);
		if (choose(0, 1, "range")) t += " " + kw("R") + ":" + numf(s.range);
		if (choose(0, 1, "slot")) { t += " " + kw("EMPTY_SLOT"); s.empty_slot = true; }
		a.sfx.push_back(s); return t + ")"; }
	case 1: { MdsSoundEffectGround s {}; s.name = name(1, "sfx"); std::string t = kw("*eventSFXGrnd") + " (" + num(s.frame) + " " + q(s.name) + ")"; a.sfx_ground.push_back(s); return t; }
	case 2: { MdsParticleEffect s {}; s.name = name(1, "pfx"); s.position = name(1, "pos");
		std::string t = kw("*eventPFX") + " (" + num(s.frame) + " ";
		if (choose(0, 1, "index")) t += num(s.index) + " ";
		t += q(s.name) + " " + q(s.position);
		if (choose(0, 1, "attach")) { t += " " + kw("ATTACH"); s.attached = true; }
		a.pfx.push_back(s); return t + ")"; }
	case 3: { MdsParticleEffectStop s {}; std::string t = kw("*eventPFXStop") + " (" + num(s.frame) + " "; t += num(s.index) + ")"; a.pfx_stop.push_back(s); return t; }
	case 4: { MdsMorphAnimation s {}; s.animation = name(1, "ani");
		std::string t = kw("*eventMMStartAni") + " (" + num(s.frame) + " " + q(s.animation);
		if (choose(0, 1, "node")) { s.node = name(1, "node"); t += " " + q(s.node); }
		a.morph.push_back(s); return t + ")"; }
	default: { MdsCameraTremor s; std::string t = kw("*eventCamTremor") + " (" + num(s.frame); int32_t* f[] = {&s.field1, &s.field2, &s.field3, &s.field4};
		for (auto p : f) { unsigned d = sym_in<unsigned>(0, 9, "digit"); *p = (int32_t) d; t += " "; t += (char) ('0' + d); }
		a.tremors.push_back(s); return t + ")"; }
	}
}
HARNESS(C28_text_events) {
	Sc e;
	unsigned braces = choose(0, 1, "braces"), k = choose(0, 5, "event");
	e.animations.push_back(plain_ani("A"));
	std::string t = HEAD + ENUM + "ani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9)\n";
	if (braces) t += "{\n";
	t += text_event(e.animations[0], k) + "\n*eventPFXStop (7 8)\n";
	e.animations[0].pfx_stop.push_back({7, 8});
	if (braces) t += "}\n";
	t += "ani (\"B\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9)\n{ *eventPFXStop (5 6) }\naniDisable (\"D\")\n}\n}\n";
	e.animations.push_back(plain_ani("B")); e.animations[1].pfx_stop.push_back({5, 6});
	e.disabled_animations.push_back("D");
	same_script(load(t), e);
}
HARNESS(C28_text_event_types) {
	Sc e;
	std::string a, b;
	e.animations.push_back(plain_ani("A"));
	MdsEventTag g {};
	auto& ev = EVENTS[choose(0, 24, "type")];
	g.type = ev.type;
	g.fight_mode = MdsFightMode::NONE;
	std::string t = HEAD + ENUM + "ani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9) {\n" + kw("*eventTag") + " (";
	if (choose(0, 1, "frame")) t += num(g.frame) + " "; else g.frame = 0;
	unsigned n = arguments(g, a, b, true);
	for (char c : a) ASSUME(c != '"');
	for (char c : b) ASSUME(c != '"');
	t += q(ev.name);
	if (n > 0) t += " " + q(a);
	if (n > 1) t += " " + q(b);
	if (choose(0, 1, "attach")) { t += " " + kw("ATTACH"); g.attached = true; }
	t += ")\n}\n}\n}\n";
	e.animations[0].events.push_back(g);
	same_script(load(t), e);
}
HARNESS(C28_text_layout) {
	// separators in two arbitrary gaps
	static char const* const T[] = {"Model", "\"HuS\"", "{", "registerMesh", "\"X\"", "aniEnum", "{", "ani", "\"A\"", "1", "\"N\"", "0.5", "0.25", "M", "\"M\"", "F", "1", "9", "FPS", ":", "25", "{", "*eventPFX", "3", "\"P\"", "\"Q\"", "ATTACH", "}", "aniBlend", "\"B\"", "\"C\"", "0.5", "0.25", "aniAlias", "\"D\"", "1", "\"N\"", "0.5", "0.25", "M.", "\"E\"", "R", "}", "}"};
	static char const* const SEP[] = {"\n", "\t ", " // c\n", "//\n", " ( ", " ) ", ";", "\r\n", "\n\n// a \"b\" {\n// c }\n", "/* c\n"};
	unsigned const n = sizeof T / sizeof *T;
	unsigned g1 = choose(0, n - 1, "gap"), s1 = choose(0, 9, "separator"), s2 = choose(0, 9, "separator2"), w = choose(0, 1, "width");
	ASSUME(g1 + w < n);
	std::string t;
	for (unsigned i = 0; i < n; ++i) { t += T[i]; t += i == g1 ? SEP[s1] : i == g1 + w ? SEP[s2] : " "; }
	Sc e;
	e.meshes.push_back("X");
	e.animations.push_back(plain_ani("A"));
	e.animations[0].pfx.push_back({3, 0, "P", "Q", true});
	e.blends.push_back({"B", "C", .5f, .25f});
	e.aliases.push_back({"D", 1, "N", .5f, .25f, AnimationFlags::MOVE, "E", AnimationDirection::BACKWARD});
	same_script(load(t), e);
}
HARNESS(C28_text_end) {
	// the file may end after any complete statement, with or without a final line break, comment or closing braces
	static char const* const S[] = {"registerMesh (\"X\"", "aniEnum\n{\naniDisable (\"D\"", "aniEnum\n{\naniBlend (\"B\" \"C\" 0.5 0.25", "aniEnum\n{\naniBlend (\"B\" \"C\"", "aniEnum\n{\nani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9", "aniEnum\n{\nani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9 FPS:25 CVS:1",
	    "aniEnum\n{\nani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9) {\n*eventTag (1 \"DEF_CREATE_ITEM\" \"S\" \"I\"", "aniEnum\n{\nani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9) {\n*eventTag (1 \"DEF_DROP_TORCH\" ATTACH", "aniEnum\n{\nani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9) {\n*eventSFX (1 \"S\" R:5",
	    "aniEnum\n{\naniComb (\"F\" 1 \"N\" 0.5 0.25 M \"G\" 3", "aniEnum\n{\naniComb (\"F\" 1 \"N\" 0.5 0.25 M \"G\" 3) { *eventTag (0 \"X\")", "aniEnum\n{\nmodelTag (\"DEF_HIT_LIMB\" \"I\"", "aniEnum\n{\naniAlias (\"D\" 1 \"N\" 0.5 0.25 M \"E\" R", "meshAndTree (\"X\" DONT_USE_MESH"};
	static char const* const E[] = {"", ")", ")\n", ")\n// end", ")\n//", ") //\n", ")\n}", ")\n}\n}", ")\n}\n}\n", ")\n}\n}\n// end", " ", ")\n}\n}\n}\n"};
	unsigned s = choose(0, 13, "statement");
	std::string t = HEAD + S[s] + E[choose(0, 11, "end")];
	Sc e;
	switch (s) {
	case 0: e.meshes.push_back("X"); break;
	case 1: e.disabled_animations.push_back("D"); break;
	case 2: e.blends.push_back({"B", "C", .5f, .25f}); break;
	case 3: e.blends.push_back({"B", "C", 0, 0}); break;
	case 9: case 10: e.combinations.push_back({"F", 1, "N", .5f, .25f, AnimationFlags::MOVE, "G", 3}); break;
	case 11: e.model_tags.push_back({"I"}); break;
	case 12: e.aliases.push_back({"D", 1, "N", .5f, .25f, AnimationFlags::MOVE, "E", AnimationDirection::BACKWARD}); break;
	case 13: e.skeleton = {"X", true}; break;
	default: e.animations.push_back(plain_ani("A")); break;
	}
	if (s == 6) { MdsEventTag g {}; g.frame = 1; g.type = MdsEventType::ITEM_CREATE; g.slot = "S"; g.item = "I"; e.animations[0].events.push_back(g); }
	if (s == 7) { MdsEventTag g {}; g.frame = 1; g.type = MdsEventType::TORCH_DROP; g.attached = true; e.animations[0].events.push_back(g); }
	if (s == 8) e.animations[0].sfx.push_back({1, "S", 5, false});
	same_script(load(t), e);
}
HARNESS(C28_same_meaning) {
	// text and compiled form of the same script
	std::string a, b, t = HEAD + ENUM, o;
	prologue(o);
	MdsAnimation ani = plain_ani("A");
	bin_ani(o, ani, "M");
	auto& ev = EVENTS[choose(0, 24, "type")];
	MdsEventTag g {}; g.type = ev.type;
	unsigned n = arguments(g, a, b, true);
	for (char c : a) ASSUME(c != '"');
	for (char c : b) ASSUME(c != '"');
	unsigned d = sym_in<unsigned>(0, 9, "frame");
	t += "ani (\"A\" 1 \"N\" 0.5 0.25 M \"M\" F 1 9) {\n*eventTag ("; t += (char) ('0' + d); t += " " + q(ev.name);
	if (n > 0) t += " " + q(a);
	if (n > 1) t += " " + q(b);
	t += ")\n*eventMMStartAni (4 \"MM\" \"NO\")\n*eventCamTremor (1 2 3 4 5)\n}\n}\n}\n";
	std::string c;
	p32(c, d); pl(c, ev.name); pl(c, a); pl(c, b); chunk(o, 0xF5A3, c);
	c.clear(); p32(c, 4); pl(c, "MM"); pl(c, "NO"); pf(c, 0); pf(c, 0); chunk(o, 0xF5A9, c);
	c.clear(); for (uint32_t v = 1; v < 6; ++v) p32(c, v); chunk(o, 0xF5AA, c);
	epilogue(o);
	same_script(load(t), load(o), false);
}
// a large script, in both forms
HARNESS(C28_large) {
	auto word = [](size_t n, unsigned k) { std::string s(n, 'q'); for (size_t i = 0; i < n; ++i) s[i] = (char) ('A' + (i * 7 + k * 3) % 26); return s; };
	std::string t = HEAD, o, x = sym_word(2, "x"); char d[8]; size_t const L = choose(0, 1, "long") ? 300 : 100;
	for (char c : x) ASSUME(c != '"');
	Sc e;
	prologue(o);
	unsigned v = sym_in<unsigned>(0, 9, "digit");
	(void) d;
	for (unsigned i = 0; i < 40; ++i) { e.meshes.push_back(word(i == 20 ? L : 3, i) + x); t += "registerMesh (" + q(e.meshes[i]) + ")\n"; std::string b; pl(b, e.meshes[i]); chunk(o, 0xF400, b); }
	t += ENUM;
	for (unsigned i = 0; i < 40; ++i) {
		std::string b, n = word(i == 33 ? L : 4, i) + x, f = "FMEZ";
		if (i == 5) f = "";
		e.disabled_animations.push_back(n); t += "aniDisable (" + q(n) + ")\n"; pl(b, n); chunk(o, 0xF580, b); b.clear();
		e.model_tags.push_back({n}); t += "modelTag (\"DEF_HIT_LIMB\" " + q(n) + ")\n"; p32(b, 0); pl(b, "DEF_HIT_LIMB"); pl(b, n); chunk(o, 0xF590, b); b.clear();
		e.blends.push_back({n, "NEXT", .5f, .25f}); t += "aniBlend (" + q(n) + " \"NEXT\" 0.5 0.25)\n"; pl(b, n); pl(b, "NEXT"); pf(b, .5f); pf(b, .25f); chunk(o, 0xF540, b); b.clear();
		e.aliases.push_back({n, i + 1, "N", .5f, .25f, AnimationFlags::MOVE, x, AnimationDirection::BACKWARD});
		t += "aniAlias (" + q(n) + " " + std::to_string(i + 1) + " \"N\" 0.5 0.25 M " + q(x) + " R)\n"; pl(b, n); p32(b, i + 1); pl(b, "N"); pf(b, .5f); pf(b, .25f); pl(b, "M"); pl(b, x); pl(b, "R"); chunk(o, 0xF530, b); b.clear();
		e.combinations.push_back({n, i + 1, "N", .5f, .25f, AnimationFlags::MOVE, x, (int32_t) (i * 30)});
		t += "aniComb (" + q(n) + " " + std::to_string(i + 1) + " \"N\" 0.5 0.25 M " + q(x) + " " + std::to_string(i * 30) + ")\n"; pl(b, n); p32(b, i + 1); pl(b, "N"); pf(b, .5f); pf(b, .25f); pl(b, "M"); pl(b, x); p32(b, i * 30); chunk(o, 0xF570, b);
	}
	for (unsigned i = 0; i < 60; ++i) {
		MdsAnimation a = plain_ani(word(i == 17 ? L : 5, i) + x);
		bool busy = i == 1 || i == 58;
		t += "ani (" + q(a.name) + " 1 \"N\" 0.5 0.25 M \"M\" F 1 9)\n{\n";
		bin_ani(o, a, "M");
		{ std::string b; p32(b, 1); chunk(o, 0xF5A0, b); }
		for (unsigned k = 0; k < (busy ? 40u : 1u); ++k) {
			std::string fr = std::to_string(k * 13) + (char) ('0' + v), b; int32_t f = (int32_t) (k * 130 + v);
			std::string n = word(k == 9 ? L : 2, k) + x;
			a.sfx.push_back({f, n, 1000, false}); t += "*eventSFX (" + fr + " " + q(n) + ")\n"; p32(b, (uint32_t) f); pl(b, n); pf(b, 1000); p32(b, 0); chunk(o, 0xF5A1, b); b.clear();
			a.pfx_stop.push_back({f, (int32_t) k}); t += "*eventPFXStop (" + fr + " " + std::to_string(k) + ")\n"; p32(b, (uint32_t) f); p32(b, k); chunk(o, 0xF5A5, b); b.clear();
			MdsMorphAnimation m {}; m.frame = f; m.animation = n; m.node = "NO"; a.morph.push_back(m); t += "*eventMMStartAni (" + fr + " " + q(n) + " \"NO\")\n"; p32(b, (uint32_t) f); pl(b, n); pl(b, "NO"); pf(b, 0); pf(b, 0); chunk(o, 0xF5A9, b);
		}
		chunk(o, 0xF5AF, ""); t += "}\n";
		e.animations.push_back(a);
	}
	t += "}\n}\n";
	epilogue(o);
	if (choose(0, 1, "form")) same_script(load(t), e); else same_script(load(o), e);
}
