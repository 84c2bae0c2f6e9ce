// C34: damaged archives never make the loader touch foreign memory or hang
//@bound per object kind and archive format a small valid archive (save-game or not, both game versions), (a) cut off after every number of bytes, (b) with every window of 2 (text) or 4 (binary formats) bytes after the first header replaced by arbitrary bytes
//@assume lists whose length comes from the damaged bytes are explored up to 1 KiB of memory and 400 reads past the end of the file
//@outside damage in more than one place; memory and time proportional to a damaged list length; nesting depth that exhausts the stack
#include "vob.h"
#include "kinds.h"
#include "rob.h"
#include <zenkit/World.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/world/VobTree.hh>
#include <zenkit/world/WayNet.hh>
using File = std::vector<std::byte>;
template <typename F> static File archive(int fm, bool save, F body) {
	File f;
	auto w = Write::to(&f);
	auto a = save ? WriteArchive::to_save(w.get(), FMT[fm]) : WriteArchive::to(w.get(), FMT[fm]);
	body(*a);
	a->write_header();
	return f;
}
template <typename T> static std::shared_ptr<T> sample() {
	auto o = std::make_shared<T>();
	if constexpr (std::is_base_of_v<VirtualObject, T>) { o->vob_name = "N"; o->physics_enabled = false; }
	if constexpr (std::is_same_v<T, VMover>) { o->keyframes.resize(2); }
	if constexpr (std::is_same_v<T, VTriggerList>) { o->targets.resize(1); }
	if constexpr (std::is_same_v<T, VCodeMaster>) { o->slaves.push_back("S"); }
	if constexpr (std::is_same_v<T, VCutsceneCamera>) { o->position_count = o->target_count = 1; o->trajectory_frames.push_back(std::make_shared<VCameraTrajectoryFrame>()); o->target_frames.push_back(std::make_shared<VCameraTrajectoryFrame>()); }
	if constexpr (std::is_same_v<T, VContainer>) { o->s_items.push_back(std::make_shared<VItem>()); }
	return o;
}
static GameVersion const VER[] = {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2};
template <int V> static void read_it(Read* r) { auto a = ReadArchive::from(r); (void) a->read_object(VER[V]); }
template <typename T, int V> static File object(int fm, bool save) { return archive(fm, save, [](WriteArchive& a) { a.write_object(std::static_pointer_cast<Object>(sample<T>()), VER[V]); }); }
#define CUT_(T) case __COUNTER__ - BASE: truncated(object<T, 1>(fm, save), read_it<1>); break;
static void cut1(int fm, bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP1(COUNT_) GROUP2(COUNT_)) - 1, "kind")) { GROUP1(CUT_) GROUP2(CUT_) } }
static void cut2(int fm, bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP3(COUNT_) GROUP4(COUNT_) GROUP5(COUNT_)) - 1, "kind")) { GROUP3(CUT_) GROUP4(CUT_) GROUP5(CUT_) } }
//@entry C34_cut_kinds_binary time=150 conc-limit=20000 sym-alloc=65536
HARNESS(C34_cut_kinds_binary) { if (choose(0, 1, "half")) cut1(0, choose(0, 1, "save")); else cut2(0, choose(0, 1, "save")); }
//@entry C34_cut_kinds_binsafe time=150 conc-limit=20000 sym-alloc=65536 tier=thorough
HARNESS(C34_cut_kinds_binsafe) { if (choose(0, 1, "half")) cut1(1, choose(0, 1, "save")); else cut2(1, choose(0, 1, "save")); }
//@entry C34_cut_kinds_ascii time=150 conc-limit=20000 sym-alloc=65536 tier=thorough
HARNESS(C34_cut_kinds_ascii) { if (choose(0, 1, "half")) cut1(2, choose(0, 1, "save")); else cut2(2, choose(0, 1, "save")); }
// ------------------------------------------------------------------ the object graph of a save game
static std::shared_ptr<VNpc> npc() {
	auto n = sample<VNpc>();
	n->overlays.push_back("O"); n->talents.push_back(std::make_shared<VNpc::Talent>()); n->items.push_back(std::make_shared<VItem>()); n->items[0]->s_flags = 0x200; n->items[0]->physics_enabled = false;
	n->slots.push_back(std::make_unique<VNpc::Slot>()); n->slots[0]->used = true; n->slots[0]->item = n->items[0];
	n->news.push_back(std::make_unique<VNpc::News>()); n->visual = std::make_shared<VisualMesh>(); n->ai = std::make_shared<AiHuman>(); n->event_manager = std::make_shared<EventManager>();
	return n;
}
template <int V> static File npc_file(int fm) { return archive(fm, true, [](WriteArchive& a) { a.write_object(std::static_pointer_cast<Object>(npc()), VER[V]); }); }
static std::shared_ptr<World> world(bool save) {
	auto w = std::make_shared<World>();
	auto v = sample<VSpot>();
	v->children.push_back(sample<VLevel>());
	w->world_vobs.push_back(v);
	w->way_net = std::make_shared<WayNet>();
	for (int i = 0; i < 2; ++i) { w->way_net->points.push_back(std::make_shared<WayPoint>()); w->way_net->points[i]->name = "W"; }
	w->way_net->points[0]->free_point = true;
	w->way_net->edges.emplace_back(w->way_net->points[0], w->way_net->points[1]);
	if (save) { w->player = std::make_shared<CutscenePlayer>(); w->sky_controller = std::make_shared<SkyController>(); w->npc_spawns.resize(1); }
	return w;
}
template <int V> static File world_file(int fm, bool save) { auto o = world(save); return archive(fm, save, [&](WriteArchive& a) { a.write_object(std::static_pointer_cast<Object>(o), VER[V]); }); }
template <int V> static void load_world(Read* r) { World w; w.load(r, VER[V]); }
static void load_world_auto(Read* r) { World w; w.load(r); }
static File tree_file(int fm, bool known) {
	return archive(fm, false, [known](WriteArchive& a) {
		auto v = sample<VSpot>();
		if (known) { v->children.push_back(sample<VSpot>()); save_vob_tree(a, VER[0], v); return; }
		a.write_object_begin("%", "zCUnknown:zCVob", 1); a.write_int("x", 5); a.write_object_end();
		a.write_int("childs", 1);
		save_vob_tree(a, VER[0], v);
	});
}
static void load_tree(Read* r) { auto a = ReadArchive::from(r); (void) parse_vob_tree(*a, VER[0]); }
static std::shared_ptr<CutsceneBlock> blk(char const* n) { auto b = std::make_shared<CutsceneBlock>(); b->name = n; auto t = std::make_shared<CutsceneAtomicBlock>(); t->message = std::make_shared<ConversationMessageEvent>(); b->block = t; return b; }
static File library(int fm) { return archive(fm, false, [](WriteArchive& a) { auto l = std::make_shared<CutsceneLibrary>(); l->blocks = {blk("A"), blk("B")}; a.write_object(std::static_pointer_cast<Object>(l), VER[1]); }); }
static File state_file(int fm) {
	return archive(fm, true, [](WriteArchive& a) {
		SaveState s {}; s.day = 190; s.hour = 7; s.minute = 3; s.infos.resize(1); s.missions.resize(1); s.log.resize(1); s.log[0].entries.resize(1); s.symbols.resize(1); s.symbols[0].values.resize(1);
		s.cutscene_manager = std::make_shared<CutsceneManager>(); s.cutscene_manager->pool_items.push_back(std::make_shared<CutscenePoolItem>());
		s.save(a, VER[1]);
	});
}
static void load_state(Read* r) { SaveState s; auto a = ReadArchive::from(r); s.load(*a, VER[1]); }
// raw use of the reader: objects, entries and ends in whatever order the file has them
static void walk(Read* r) {
	auto a = ReadArchive::from(r);
	ArchiveObject o;
	for (int i = 0; i < 6; ++i) {
		if (a->read_object_begin(o)) continue;
		if (a->read_object_end()) continue;
		ask(*a, choose(0, KINDS - 1, "ask"));
	}
}
static void skip(Read* r) { auto a = ReadArchive::from(r); a->skip_object(false); a->skip_object(true); }
static File plain(int fm) {
	return archive(fm, false, [](WriteArchive& a) {
		a.write_object_begin("%", "zCX", 1); a.write_int("i", 5); a.write_string("s", "str"); a.write_object_begin("sub", "", 1); a.write_vec3("v", {1, 2, 3}); a.write_object_end(); a.write_ref("r", 0); a.write_object_end();
		a.write_object_begin("%", "zCY", 1); a.write_bool("b", true); a.write_object_end();
	});
}
//@entry C34_cut_world time=150 conc-limit=20000 sym-alloc=65536
HARNESS(C34_cut_world) {
	int fm = choose(0, 2, "format"); bool save = choose(0, 1, "save");
	truncated(world_file<1>(fm, save), save ? load_world<1> : load_world_auto);
}
//@entry C34_cut_rest time=150 conc-limit=20000 sym-alloc=65536
HARNESS(C34_cut_rest) {
	int fm = choose(0, 2, "format");
	switch (choose(0, 6, "what")) {
	case 0: truncated(tree_file(fm, true), load_tree); break;
	case 1: truncated(tree_file(fm, false), load_tree); break;
	case 2: truncated(library(fm), read_it<1>); break;
	case 3: truncated(plain(fm), walk); break;
	case 4: truncated(plain(fm), skip); break;
	case 5: truncated(plain(fm), read_it<1>); break;
	case 6: truncated(object<SaveMetadata, 1>(fm, true), read_it<1>); break;
	}
}
//@entry C34_cut_npc time=150 conc-limit=20000 sym-alloc=65536
HARNESS(C34_cut_npc) { truncated(npc_file<1>(0), read_it<1>); }
//@entry C34_cut_state time=150 conc-limit=20000 sym-alloc=65536
HARNESS(C34_cut_state) { truncated(state_file(choose(0, 1, "format")), load_state); }
// ------------------------------------------------------------------ corruption
// the size of the text header, which is damaged separately
static unsigned header(File const& f, bool binsafe) {
	unsigned ends = binsafe ? 1 : 2, i = 0;
	for (; ends && i + 5 <= f.size(); ++i) if (!memcmp(f.data() + i, "\nEND\n", 5)) --ends;
	return i + 4;
}
template <typename L> static void damaged_body(File f, int fm, bool deep, L load) {
	unsigned h = header(f, fm == 1);
	if (fm == 2) damaged(f, deep ? 3 : 2, 1, load, h);
	else if (fm == 1) damaged(f, deep ? 4 : 3, deep ? 1 : 2, load, h);
	else damaged(f, deep ? 4 : 5, deep ? 1 : 2, load, h);
}
template <typename L> static void damaged_header(File f, int fm, unsigned width, L load) { damaged(f, width, 1, load, 0, header(f, fm == 1)); }
//@entry C34_damage_header time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C34_damage_header) { int fm = choose(0, 2, "format"); damaged_header(plain(fm), fm, 2, read_it<1>); }
//@entry C34_deep_header tier=thorough conc-limit=20000 sym-alloc=1024
HARNESS(C34_deep_header) { int fm = choose(0, 2, "format"); damaged_header(plain(fm), fm, 4, read_it<1>); }
//@entry C34_damage_world_header time=150 conc-limit=20000 sym-alloc=1024
HARNESS(C34_damage_world_header) { int fm = choose(0, 2, "format"); damaged_header(world_file<1>(fm, false), fm, 2, load_world_auto); }
template <typename L> static void damaged_half(File f, unsigned half, L load) {
	unsigned h = header(f, true), m = (h + (unsigned) f.size()) / 2;
	damaged(f, 3, 2, load, half ? m : h, half ? ~0u : m);
}
#define DAMAGE(name, fm, file, loader)                                                                                 \
	HARNESS(C34_damage_##name) { damaged_body(file, fm, false, loader); }                                              \
	HARNESS(C34_deep_##name) { damaged_body(file, fm, true, loader); }
//@entry C34_damage_world_binary time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_world_binary tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(world_binary, 0, world_file<1>(0, true), load_world<1>)
//@entry C34_damage_world_binsafe_a time=150 conc-limit=20000 sym-alloc=128
HARNESS(C34_damage_world_binsafe_a) { damaged_half(world_file<1>(1, true), 0, load_world<1>); }
//@entry C34_damage_world_binsafe_b time=150 conc-limit=20000 sym-alloc=128
HARNESS(C34_damage_world_binsafe_b) { damaged_half(world_file<1>(1, true), 1, load_world<1>); }
//@entry C34_deep_world_binsafe tier=thorough conc-limit=20000 sym-alloc=128
HARNESS(C34_deep_world_binsafe) { damaged_body(world_file<1>(1, true), 1, true, load_world<1>); }
//@entry C34_damage_world_ascii time=200 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_world_ascii tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(world_ascii, 2, world_file<1>(2, false), load_world_auto)
//@entry C34_damage_tree_binary time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_tree_binary tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(tree_binary, 0, tree_file(0, false), load_tree)
//@entry C34_damage_tree_binsafe time=150 conc-limit=20000 sym-alloc=128
//@entry C34_deep_tree_binsafe tier=thorough conc-limit=20000 sym-alloc=128
DAMAGE(tree_binsafe, 1, tree_file(1, false), load_tree)
//@entry C34_damage_tree_ascii time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_tree_ascii tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(tree_ascii, 2, tree_file(2, false), load_tree)
//@entry C34_damage_plain_binary time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_plain_binary tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(plain_binary, 0, plain(0), walk)
//@entry C34_damage_plain_binsafe time=150 conc-limit=20000 sym-alloc=128
//@entry C34_deep_plain_binsafe tier=thorough conc-limit=20000 sym-alloc=128
DAMAGE(plain_binsafe, 1, plain(1), walk)
//@entry C34_damage_plain_ascii time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_plain_ascii tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(plain_ascii, 2, plain(2), walk)
//@entry C34_damage_skip_binary time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_skip_binary tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(skip_binary, 0, plain(0), skip)
//@entry C34_damage_skip_binsafe time=150 conc-limit=20000 sym-alloc=128
//@entry C34_deep_skip_binsafe tier=thorough conc-limit=20000 sym-alloc=128
DAMAGE(skip_binsafe, 1, plain(1), skip)
//@entry C34_damage_skip_ascii time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_skip_ascii tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(skip_ascii, 2, plain(2), skip)
//@entry C34_damage_library time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_library tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(library, 0, library(0), read_it<1>)
//@entry C34_damage_state time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_state tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(state, 0, state_file(0), load_state)
//@entry C34_damage_npc time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_npc tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(npc, 0, npc_file<1>(0), read_it<1>)
//@entry C34_damage_VMover time=150 conc-limit=20000 sym-alloc=128
//@entry C34_deep_VMover tier=thorough conc-limit=20000 sym-alloc=128
DAMAGE(VMover, 0, (object<VMover, 1>(0, true)), read_it<1>)
//@entry C34_damage_VTriggerList time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_VTriggerList tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(VTriggerList, 0, (object<VTriggerList, 1>(0, true)), read_it<1>)
//@entry C34_damage_VCodeMaster time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_VCodeMaster tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(VCodeMaster, 0, (object<VCodeMaster, 1>(0, true)), read_it<1>)
//@entry C34_damage_VCutsceneCamera time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_VCutsceneCamera tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(VCutsceneCamera, 0, (object<VCutsceneCamera, 1>(0, true)), read_it<1>)
//@entry C34_damage_VContainer time=150 conc-limit=20000 sym-alloc=1024
//@entry C34_deep_VContainer tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(VContainer, 0, (object<VContainer, 1>(0, true)), read_it<1>)
