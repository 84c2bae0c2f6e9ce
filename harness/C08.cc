// C08: world objects keep their common attributes across save and load
//@bound one object with every attribute arbitrary (floats bit for bit; sprite alignment, shadow and animation mode 0..3, bias 0..31 in the packed layout), names of 0..2 arbitrary bytes other than NUL, CR, LF in every combination of empty and non-empty, both game versions, packed and unpacked layout, BINARY and BINSAFE, and ASCII with fixed values outside the raw block
//@bound every visual kind (none, name only, seven kinds) and every combination of AI object present or not, event manager present or not, rigid body present or not, in world and save-game archives
//@outside unpacked layout in save-games (the loader expects a rigid body there), names longer than two characters
#include "vob.h"

static void fillv(Ctx& c, VirtualObject& o, bool packed) {
	Fill v {c};
	common(v, o, o);
	uint8_t lim = packed ? 4 : 3;
	o.sprite_camera_facing_mode = (SpriteAlignment) (c.text() ? 1 : sym_in<uint8_t>(0, lim - 1, "align"));
	o.dynamic_shadows = (ShadowType) (c.text() ? 1 : sym_in<uint8_t>(0, lim - 1, "shadow"));
	if (c.g2()) {
		o.anim_mode = (AnimationType) (c.text() ? 2 : sym_in<uint8_t>(0, lim - 1, "anim"));
		o.bias = c.text() ? 9 : packed ? sym_in<int32_t>(0, 31, "bias") : sym<int32_t>("bias");
	}
}
static void samev(Ctx& c, VirtualObject& a, VirtualObject& b) {
	Same v {c};
	common(v, a, b);
	F(sprite_camera_facing_mode); F(dynamic_shadows);
	if (c.g2()) { F(anim_mode); F(bias); }
}
template <typename T> static std::shared_ptr<Visual> vis(VisualType t) { auto p = std::make_shared<T>(); p->type = t; return p; }
static std::shared_ptr<Visual> visual(unsigned kind) {
	switch (kind) {
	case 1: return std::make_shared<Visual>();
	case 2: return vis<VisualMesh>(VisualType::MESH);
	case 3: return vis<VisualMultiResolutionMesh>(VisualType::MULTI_RESOLUTION_MESH);
	case 4: return vis<VisualParticleEffect>(VisualType::PARTICLE_EFFECT);
	case 5: return vis<VisualCamera>(VisualType::AI_CAMERA);
	case 6: return vis<VisualModel>(VisualType::MODEL);
	case 7: return vis<VisualMorphMesh>(VisualType::MORPH_MESH);
	case 8: return vis<VisualDecal>(VisualType::DECAL);
	default: return nullptr;
	}
}
static void sameVisual(Ctx& c, VirtualObject& a, VirtualObject& b) {
	CHECK(b.visual != nullptr); // always present after loading; unknown when there is none
	if (!a.visual) { CHECK(b.visual->type == VisualType::UNKNOWN); CHECK(b.visual->name.empty()); return; }
	CHECK(b.visual->type == a.visual->type);
	CHECK(same(b.visual->name, a.visual->name));
	if (a.visual->type == VisualType::DECAL) {
		CHECK(b.visual->get_object_type() == ObjectType::zCDecal);
		auto& x = (VisualDecal&) *a.visual;
		auto& y = (VisualDecal&) *b.visual;
		Same v {c};
		v(x.dimension, y.dimension); v(x.offset, y.offset); v(x.two_sided, y.two_sided); v(x.alpha_func, y.alpha_func);
		v(x.texture_anim_fps, y.texture_anim_fps);
		if (c.g2()) { v(x.alpha_weight, y.alpha_weight); v(x.ignore_daylight, y.ignore_daylight); }
	}
}
// attributes and names
template <int FM> static void attrs() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	bool packed = choose(0, 1, "packed");
	c.k = choose(0, 2, "k");
	auto o = std::make_shared<VirtualObject>();
	fillv(c, *o, packed);
	unsigned named = choose(0, 2, "named"); // visual: none, with name, with empty name
	if (named) { o->visual = std::make_shared<Visual>(); o->visual->name = sym_line(named == 1 ? 2 : 0, "visual"); }
	o->physics_enabled = packed ? (c.text() ? true : sym<bool>("physics")) : true;
	VirtualObject::enable_packed_save(packed);
	auto p = round_trip(c, o);
	VirtualObject::enable_packed_save(true);
	samev(c, *o, *p);
	sameVisual(c, *o, *p);
	if (packed) CHECK(p->physics_enabled == o->physics_enabled);
	CHECK(p->ai == nullptr);
}
HARNESS(C08_attributes_binary) { attrs<0>(); }
HARNESS(C08_attributes_binsafe) { attrs<1>(); }
HARNESS(C08_attributes_ascii) { attrs<2>(); }

template <int FM> static void visuals() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	bool packed = choose(0, 1, "packed");
	auto o = std::make_shared<VirtualObject>();
	o->vob_name = "N";
	unsigned kind = choose(0, 8, "kind");
	o->visual = visual(kind);
	unsigned n = choose(0, 2, "len");
	if (o->visual) o->visual->name = sym_line(n, "visual");
	if (kind == 8) {
		auto& x = (VisualDecal&) *o->visual;
		Fill v {c};
		v(x.dimension); v(x.offset); v(x.two_sided); v(x.alpha_func); v(x.texture_anim_fps); v(x.alpha_weight); v(x.ignore_daylight);
	}
	if (choose(0, 1, "ai")) {
		auto h = std::make_shared<AiHuman>();
		Fill v {c};
		own(v, *h, *h);
		o->ai = h;
	}
	VirtualObject::enable_packed_save(packed);
	auto p = round_trip(c, o);
	VirtualObject::enable_packed_save(true);
	sameVisual(c, *o, *p);
	CHECK(p->vob_name == "N");
	CHECK((p->ai != nullptr) == (o->ai != nullptr));
	if (o->ai) {
		CHECK(p->ai->get_object_type() == ObjectType::oCAIHuman);
		Same v {c};
		own(v, (AiHuman&) *o->ai, (AiHuman&) *p->ai);
	}
}
HARNESS(C08_visuals_binary) { visuals<0>(); }
HARNESS(C08_visuals_binsafe) { visuals<1>(); }
HARNESS(C08_visuals_ascii) { visuals<2>(); }

// sub-objects: AI, event manager, rigid body; attributes behind them stay intact
template <int FM> static void parts() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, choose(0, 1, "save") != 0};
	c.k = 1;
	auto o = std::make_shared<VItem>();
	Fill f {c};
	own(f, *o, *o);
	o->visual = visual(choose(0, 1, "vis") * 2);
	unsigned ai = choose(0, 2, "ai");
	if (ai == 1) { auto h = std::make_shared<AiHuman>(); own(f, *h, *h); o->ai = h; }
	if (ai == 2) { auto m = std::make_shared<AiMove>(); m->vob = o; o->ai = m; }
	if (choose(0, 1, "em")) { o->event_manager = std::make_shared<EventManager>(); f(o->event_manager->cleared); f(o->event_manager->active); }
	f(o->sleep_mode); f(o->next_on_timer);
	o->physics_enabled = choose(0, 1, "rigid");
	if (o->physics_enabled && choose(0, 1, "body")) { o->rigid_body.emplace(); own(f, *o->rigid_body, *o->rigid_body); }
	auto p = round_trip(c, o);
	Same s {c};
	own(s, *o, *p);
	CHECK((p->ai != nullptr) == (o->ai != nullptr));
	if (o->ai) CHECK(p->ai->get_object_type() == o->ai->get_object_type());
	if (ai == 1) own(s, (AiHuman&) *o->ai, (AiHuman&) *p->ai);
	if (ai == 2) { CHECK(((AiMove&) *p->ai).vob.lock() == p); CHECK(((AiMove&) *p->ai).owner.lock() == nullptr); }
	if (!c.save) { CHECK(p->event_manager == nullptr); CHECK(!p->rigid_body); CHECK(p->physics_enabled == o->physics_enabled); return; }
	CHECK((p->event_manager != nullptr) == (o->event_manager != nullptr));
	if (o->event_manager) { s(o->event_manager->cleared, p->event_manager->cleared); s(o->event_manager->active, p->event_manager->active); }
	s(o->sleep_mode, p->sleep_mode); s(o->next_on_timer, p->next_on_timer);
	CHECK(p->rigid_body.has_value() == o->rigid_body.has_value());
	CHECK(p->physics_enabled == o->rigid_body.has_value());
	if (o->rigid_body) own(s, *o->rigid_body, *p->rigid_body);
}
HARNESS(C08_parts_binary) { parts<0>(); }
HARNESS(C08_parts_binsafe) { parts<1>(); }
HARNESS(C08_parts_ascii) { parts<2>(); }
