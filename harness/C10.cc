// C10: save-game archives restore the run-time state of world objects
//@bound one object of each of 42 concrete kinds plus characters, AI, sky, cutscene and spawn records, with every attribute and every run-time attribute arbitrary (32-bit integers, floats bit for bit, enumeration values up to 255 in BINARY), strings of 0..2 arbitrary bytes other than NUL, CR, LF (';' excluded in packed item strings of Gothic 2), both game versions, three archive formats (ASCII: fixed values, arbitrary text)
//@bound characters with 0..2 overlays, talents, news, items, slots; items shared between inventory, slot and container; carried and enemy objects missing, foreign, or the character itself
//@bound every kind also with strings of about 300 characters and lists of up to 255 elements (characters: 42)
//@outside unpacked layout in save-games; longer lists and strings; objects the loader keeps only by weak reference
#include "kinds.h"
#include <zenkit/World.hh>
HARNESS(C10_misc_binary) { group1<0>(true); }
HARNESS(C10_misc_binsafe) { group1<1>(true); }
HARNESS(C10_misc_ascii) { group1<2>(true); }
HARNESS(C10_mobs_binary) { group2<0>(true); }
HARNESS(C10_mobs_binsafe) { group2<1>(true); }
HARNESS(C10_mobs_ascii) { group2<2>(true); }
HARNESS(C10_triggers_binary) { group3<0>(true); }
HARNESS(C10_triggers_binsafe) { group3<1>(true); }
HARNESS(C10_triggers_ascii) { group3<2>(true); }
HARNESS(C10_cameras_sounds_zones_binary) { group4<0>(true); }
HARNESS(C10_cameras_sounds_zones_binsafe) { group4<1>(true); }
HARNESS(C10_cameras_sounds_zones_ascii) { group4<2>(true); }
HARNESS(C10_lights_spots_binary) { group5<0>(true); }
HARNESS(C10_lights_spots_binsafe) { group5<1>(true); }
HARNESS(C10_lights_spots_ascii) { group5<2>(true); }

template <int FM> static void npc() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	c.k = g_long ? 2 : choose(0, 2, "k");
	if (g_long) { c.more = 40; c.pad = 290; }
	auto o = std::make_shared<VNpc>();
	o->physics_enabled = false;
	Fill f {c};
	own(f, *o, *o);
	if (c.g2()) for (auto& p : o->packed) for (char ch : p) ASSUME(ch != ';');
	for (unsigned i = 0; i < c.k + c.more; ++i) {
		auto n = std::make_unique<VNpc::News>();
		f(n->told); f(n->spread_time);
		n->spread_type = (VNpc::NewsSpread) (c.text() ? 3 : sym<int32_t>("spread")); n->news_id = (VNpc::NewsId) (c.text() ? 200 : sym<int32_t>("news"));
		f(n->gossip); f(n->guild_victim); f(n->witness_name); f(n->offender_name); f(n->victim_name);
		o->news.push_back(std::move(n));
	}
	auto p = round_trip(c, o);
	Same s {c};
	own(s, *o, *p);
	CHECK(p->news.size() == o->news.size());
	for (size_t i = 0; i < p->news.size(); ++i) {
		auto &x = *o->news[i], &y = *p->news[i];
		s(x.told, y.told); s(x.spread_time, y.spread_time); s(x.spread_type, y.spread_type); s(x.news_id, y.news_id); s(x.gossip, y.gossip);
		s(x.guild_victim, y.guild_victim); s(x.witness_name, y.witness_name); s(x.offender_name, y.offender_name); s(x.victim_name, y.victim_name);
	}
}
HARNESS(C10_npc_binary) { npc<0>(); }
HARNESS(C10_npc_binsafe) { npc<1>(); }
HARNESS(C10_npc_ascii) { npc<2>(); }
HARNESS(C10_npc_long) { g_long = true; if (choose(0, 2, "fmt") == 0) npc<0>(); else if (choose(0, 1, "fmt2")) npc<1>(); else npc<2>(); }
template <int FM> static void longer() {
	g_long = true;
	switch (choose(0, 4, "group")) {
	case 0: return group1<FM>(true);
	case 1: return group2<FM>(true);
	case 2: return group3<FM>(true);
	case 3: return group4<FM>(true);
	case 4: return group5<FM>(true);
	}
}
HARNESS(C10_long_binary) { longer<0>(); }
HARNESS(C10_long_binsafe) { longer<1>(); }
HARNESS(C10_long_ascii) { longer<2>(); }

template <typename T> static void zero(T& o) { Ctx c {ArchiveFormat::ASCII, GameVersion::GOTHIC_2, true}; Fill f {c}; own(f, o, o); for (auto& p : o.packed) p = ""; }
// inventory, slots and references between characters
template <int FM> static void inventory() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	c.k = 1;
	auto o = std::make_shared<VNpc>(), other = std::make_shared<VNpc>();
	zero(*o); zero(*other);
	o->physics_enabled = other->physics_enabled = false;
	o->name_nr = 1; other->name_nr = 2;
	Fill f {c};
	unsigned ni = choose(0, 2, "items");
	for (unsigned i = 0; i < ni; ++i) {
		auto it = std::make_shared<VItem>();
		it->physics_enabled = false;
		own(f, *it, *it);
		if (c.text()) it->s_flags = i ? 0x200 : 4;
		o->items.push_back(it);
	}
	unsigned ns = choose(0, 2, "slots");
	int at[2] = {-1, -1};
	for (unsigned i = 0; i < ns; ++i) {
		auto s = std::make_unique<VNpc::Slot>();
		s->used = ni > 0 && choose(0, 1, "used");
		s->in_inventory = false;
		f(s->name);
		if (s->used) { at[i] = (int) choose(0, ni - 1, "which"); s->item = o->items[at[i]]; f(s->in_inventory); }
		o->slots.push_back(std::move(s));
	}
	unsigned enemy = choose(0, 2, "enemy"), carry = ni ? choose(0, 1, "carry") : 0;
	if (enemy == 1) o->enemy = other;
	if (enemy == 2) o->enemy = o;
	if (enemy == 1 && choose(0, 1, "back")) other->enemy = o;
	if (carry) o->carry_vob = o->items[0];
	auto p = round_trip(c, o);
	CHECK(p->name_nr == 1);
	CHECK(p->items.size() == ni);
	CHECK(p->slots.size() == ns);
	Same s {c};
	for (unsigned i = 0; i < ni; ++i) { CHECK(p->items[i] != nullptr); own(s, *o->items[i], *p->items[i]); }
	if (ni == 2) CHECK(p->items[0] != p->items[1]);
	for (unsigned i = 0; i < ns; ++i) {
		s(o->slots[i]->name, p->slots[i]->name);
		CHECK(p->slots[i]->used == o->slots[i]->used);
		if (p->slots[i]->used) { CHECK(p->slots[i]->item == p->items[at[i]]); s(o->slots[i]->in_inventory, p->slots[i]->in_inventory); }
	}
	CHECK((p->carry_vob != nullptr) == (o->carry_vob != nullptr));
	if (carry) CHECK(p->carry_vob == p->items[0]);
	if (!enemy) CHECK(p->enemy == nullptr);
	if (enemy == 2) CHECK(p->enemy == p);
	if (enemy == 1) {
		CHECK(p->enemy != nullptr);
		CHECK(p->enemy->get_object_type() == ObjectType::oCNpc);
		CHECK(((VNpc&) *p->enemy).name_nr == 2);
		CHECK(((VNpc&) *p->enemy).enemy == (other->enemy ? p : nullptr));
		((VNpc&) *p->enemy).enemy = nullptr;
	}
	p->enemy = nullptr; o->enemy = nullptr; other->enemy = nullptr;
}
HARNESS(C10_inventory_binary) { inventory<0>(); }
HARNESS(C10_inventory_binsafe) { inventory<1>(); }
HARNESS(C10_inventory_ascii) { inventory<2>(); }

// references held by triggers and containers
template <int FM> static void refs() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	c.k = 1;
	Fill f {c};
	Same s {c};
	if (choose(0, 1, "which")) {
		auto o = std::make_shared<VTriggerScript>();
		o->physics_enabled = false;
		own(f, *o, *o);
		auto v = std::make_shared<VSpot>();
		v->vob_name = "X";
		v->physics_enabled = false;
		unsigned other = choose(0, 2, "other");
		o->s_other_vob = other == 1 ? std::static_pointer_cast<VirtualObject>(v) : other == 2 ? o : nullptr;
		auto p = round_trip(c, o);
		own(s, *o, *p);
		if (!other) CHECK(p->s_other_vob == nullptr);
		if (other == 1) { CHECK(p->s_other_vob != nullptr); CHECK(p->s_other_vob->get_object_type() == ObjectType::zCVobSpot); CHECK(p->s_other_vob->vob_name == "X"); }
		if (other == 2) CHECK(p->s_other_vob == p);
		p->s_other_vob = nullptr;
		o->s_other_vob = nullptr;
	} else {
		auto o = std::make_shared<VContainer>();
		o->physics_enabled = false;
		c.k = 2;
		own(f, *o, *o);
		for (auto& i : o->s_items) i->physics_enabled = false;
		bool twice = choose(0, 1, "twice");
		if (twice) o->s_items[1] = o->s_items[0];
		auto p = round_trip(c, o);
		own(s, *o, *p);
		CHECK((p->s_items[0] == p->s_items[1]) == twice);
	}
}
HARNESS(C10_refs_binary) { refs<0>(); }
HARNESS(C10_refs_binsafe) { refs<1>(); }
HARNESS(C10_refs_ascii) { refs<2>(); }

template <typename V> void sky(V& v, SkyController& a, SkyController& b) {
	F(master_time); F(rain_weight); F(rain_start); F(rain_stop); F(rain_sct_timer); F(rain_snd_vol); F(day_ctr);
	if (v.c.g2()) { F(fade_scale); F(render_lightning); F(is_raining); F(rain_ctr); }
}
// the world's own run-time records
template <int FM> static void world() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	Fill f {c};
	Same s {c};
	auto o = std::make_shared<World>();
	bool hs = choose(0, 1, "sky"), hp = choose(0, 1, "player");
	if (hs) { o->sky_controller = std::make_shared<SkyController>(); sky(f, *o->sky_controller, *o->sky_controller); }
	if (hp) { o->player = std::make_shared<CutscenePlayer>(); f(o->player->last_process_day); f(o->player->last_process_hour); }
	unsigned nn = choose(0, 2, "npcs"), ns = nn ? choose(0, 2, "spawns") : 0;
	for (unsigned i = 0; i < nn; ++i) {
		auto n = std::make_shared<VNpc>();
		zero(*n);
		n->physics_enabled = false;
		f(n->name_nr);
		o->npcs.push_back(n);
	}
	unsigned at[2] = {};
	for (unsigned i = 0; i < ns; ++i) {
		SpawnLocation l;
		at[i] = choose(0, nn, "of");
		l.npc = at[i] < nn ? o->npcs[at[i]] : nullptr;
		f(l.position); f(l.timer);
		o->npc_spawns.push_back(l);
	}
	f(o->npc_spawn_enabled); f(o->npc_spawn_flags);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to_save(w.get(), c.fmt);
	a->write_object(std::static_pointer_cast<Object>(o), c.ver);
	a->write_header();
	class_record(buf, ObjectType::oCWorld, c.g2());
	auto rd = Read::from(&buf);
	World p;
	p.load(rd.get(), c.ver);
	CHECK((p.sky_controller != nullptr) == hs);
	if (hs && p.sky_controller) sky(s, *o->sky_controller, *p.sky_controller);
	CHECK((p.player != nullptr) == hp);
	if (hp && p.player) { s(o->player->last_process_day, p.player->last_process_day); s(o->player->last_process_hour, p.player->last_process_hour); }
	CHECK(p.npcs.size() == nn);
	for (unsigned i = 0; i < nn && i < p.npcs.size(); ++i) s(o->npcs[i]->name_nr, p.npcs[i]->name_nr);
	CHECK(p.npc_spawns.size() == ns);
	for (unsigned i = 0; i < ns && i < p.npc_spawns.size(); ++i) {
		CHECK(p.npc_spawns[i].npc == (at[i] < nn ? p.npcs[at[i]] : nullptr));
		s(o->npc_spawns[i].position, p.npc_spawns[i].position); s(o->npc_spawns[i].timer, p.npc_spawns[i].timer);
	}
	s(o->npc_spawn_enabled, p.npc_spawn_enabled);
	if (c.g2()) s(o->npc_spawn_flags, p.npc_spawn_flags);
	CHECK(p.way_net == nullptr);
	CHECK(p.world_vobs.empty());
}
HARNESS(C10_world_binary) { world<0>(); }
HARNESS(C10_world_binsafe) { world<1>(); }
HARNESS(C10_world_ascii) { world<2>(); }

// running cutscenes
template <int FM> static void cutscene() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	c.k = choose(0, 2, "k");
	Fill f {c};
	Same s {c};
	auto o = std::make_shared<CutsceneContext>();
	f(o->name); f(o->role_count); f(o->role_vob_count); f(o->is_cutscene); f(o->reference); f(o->actual_block); f(o->was_triggered);
	if (choose(0, 1, "props")) {
		o->props = std::make_shared<CutsceneProps>();
		auto& x = *o->props;
		f(x.name); f(x.global); f(x.loop); f(x.has_to_be_triggered); f(x.distance); f(x.range); f(x.locked_block_count); f.en(x.run_behaviour); f(x.run_behaviour_value); f(x.stage_name); f(x.script_function_on_stop);
	}
	auto m = o->get_message();
	CHECK(m != nullptr);
	f.en(m->type); f(m->text); f(m->name); f(m->high_priority); f(m->used); f(m->deleted);
	auto st = std::make_shared<VSpot>();
	st->physics_enabled = false;
	if (choose(0, 1, "stage")) o->stage = st;
	if (choose(0, 1, "alt")) o->alt_stage = st;
	auto p = round_trip(c, o);
	s(o->name, p->name); s(o->role_count, p->role_count); s(o->role_vob_count, p->role_vob_count); s(o->is_cutscene, p->is_cutscene); s(o->reference, p->reference);
	s(o->actual_block, p->actual_block); s(o->was_triggered, p->was_triggered);
	CHECK((p->props != nullptr) == (o->props != nullptr));
	if (o->props) {
		auto &x = *o->props, &y = *p->props;
		s(x.name, y.name); s(x.global, y.global); s(x.loop, y.loop); s(x.has_to_be_triggered, y.has_to_be_triggered); s(x.distance, y.distance); s(x.range, y.range);
		s(x.locked_block_count, y.locked_block_count); s(x.run_behaviour, y.run_behaviour); s(x.run_behaviour_value, y.run_behaviour_value); s(x.stage_name, y.stage_name); s(x.script_function_on_stop, y.script_function_on_stop);
	}
	auto n = p->get_message();
	CHECK(n != nullptr);
	s(m->type, n->type); s(m->text, n->text); s(m->name, n->name); s(m->high_priority, n->high_priority); s(m->used, n->used); s(m->deleted, n->deleted);
	CHECK((p->stage != nullptr) == (o->stage != nullptr));
	CHECK((p->alt_stage != nullptr) == (o->alt_stage != nullptr));
	if (o->stage && o->alt_stage) CHECK(p->stage == p->alt_stage);
}
HARNESS(C10_cutscene_binary) { cutscene<0>(); }
HARNESS(C10_cutscene_binsafe) { cutscene<1>(); }
HARNESS(C10_cutscene_ascii) { cutscene<2>(); }
