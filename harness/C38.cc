// C38: save slots
//@bound saving and loading of slots by one save-game object in every sequence of up to three steps out of {save world A or B into slot 1 or 2, load slot 1 or 2, change the state}, from empty slots and, of two steps (thorough: three), from slots that hold other games, followed by loading both slots with a fresh object; both game versions, with and without thumbnail; all thumbnail pixels, a state value, a script variable, the title and the names of the world objects arbitrary; slots that exist with other files before; file names in any letter case; directory entries in both orders; other files in the slot; five spellings of the current slot's path; slots below missing folders; missing files and folders
//@assume files follow the environment model: an in-memory tree in which writing never fails
//@outside failures of the operating system; links; saving into a folder inside of the current slot
#include "vob.h"
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>
#include <zenkit/SaveGame.hh>
#include <zenkit/Texture.hh>
#include <zenkit/World.hh>
namespace fs = std::filesystem;
static fs::path slot(unsigned i) { return fs::path(zse_scratch()) / "saves" / (i ? "slot2" : "slot1"); }
static std::string slurp(fs::path const& p) {
	std::ifstream f(p, std::ios::binary | std::ios::ate);
	std::string s((size_t) f.tellg(), '\0');
	f.seekg(0); f.read(s.data(), (std::streamsize) s.size());
	return s;
}
static void spit(fs::path const& p, std::string const& s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(s.data(), (std::streamsize) s.size()); }
static std::vector<std::string> names(fs::path const& p) {
	std::vector<std::string> v;
	for (auto& e : fs::directory_iterator(p)) v.push_back(e.path().filename().string());
	std::sort(v.begin(), v.end());
	return v;
}
// what a save-game holds, as far as the steps change it
struct Mem { std::string title; int32_t hour = 0, value = 0; std::optional<std::vector<uint8_t>> thumb; };
struct Slot { Mem mem; std::string current; std::map<std::string, std::string> worlds; std::vector<std::string> other; };
static void set(SaveGame& g, Mem const& m, bool g2) {
	g.metadata.title = m.title; g.metadata.world = "NONE"; g.metadata.time_day = 3; g.metadata.time_hour = m.hour; g.metadata.time_minute = 4; g.metadata.save_date = "date"; g.metadata.version_major = 1; g.metadata.version_minor = g2 ? 30 : 87;
	g.metadata.play_time_seconds = 77; g.metadata.version_point = 1; g.metadata.version_int = 2; g.metadata.version_app_name = "app";
	g.state.day = 5; g.state.hour = m.hour; g.state.minute = 6; g.state.cutscene_manager = std::make_shared<CutsceneManager>();
	g.state.missions.clear(); g.state.infos = {{"INFO", true}}; g.state.symbols = {{"SYM", {m.value}}};
	SaveLogTopic t; t.description = "topic"; t.section = SaveTopicSection::NOTES; t.status = SaveTopicStatus::RUNNING; t.entries = {"a", "b"}; g.state.log = {t};
	for (unsigned i = 0; i < 42; ++i) for (unsigned j = 0; j < 42; ++j) g.state.guild_attitudes[i][j] = (uint8_t) (i * 42 + j);
	g.thumbnail.reset();
	if (m.thumb) { TextureBuilder b(2, 1); b.add_mipmap(*m.thumb, TextureFormat::R8G8B8A8); g.thumbnail = b.build(TextureFormat::R8G8B8A8); }
}
static void check(SaveGame const& g, Mem const& m, std::string const& world, bool g2) {
	CHECK(same(g.metadata.title, m.title)); CHECK(same(g.metadata.world, world)); CHECK(g.metadata.time_day == 3); CHECK(g.metadata.time_hour == m.hour); CHECK(g.metadata.time_minute == 4); CHECK(g.metadata.save_date == "date");
	CHECK(g.metadata.version_major == 1); CHECK(g.metadata.version_minor == (g2 ? 30 : 87)); CHECK(g.metadata.play_time_seconds == 77);
	if (g2) { CHECK(g.metadata.version_point == 1); CHECK(g.metadata.version_int == 2); CHECK(g.metadata.version_app_name == "app"); }
	CHECK(g.state.day == 5); CHECK(g.state.hour == m.hour); CHECK(g.state.minute == 6); CHECK(g.state.missions.empty());
	CHECK(g.state.infos.size() == 1); if (g.state.infos.size() == 1) { CHECK(g.state.infos[0].name == "INFO"); CHECK(g.state.infos[0].told); }
	CHECK(g.state.symbols.size() == 1); if (g.state.symbols.size() == 1) { CHECK(g.state.symbols[0].name == "SYM"); CHECK(g.state.symbols[0].values.size() == 1); if (!g.state.symbols[0].values.empty()) CHECK(g.state.symbols[0].values[0] == m.value); }
	CHECK(g.state.log.size() == 1); if (g.state.log.size() == 1) { CHECK(g.state.log[0].description == "topic"); CHECK(g.state.log[0].section == SaveTopicSection::NOTES); CHECK(g.state.log[0].status == SaveTopicStatus::RUNNING); CHECK(g.state.log[0].entries.size() == 2); }
	for (unsigned i = 0; i < 42; ++i) for (unsigned j = 0; j < 42; ++j) CHECK(g.state.guild_attitudes[i][j] == (uint8_t) (i * 42 + j));
	CHECK(g.thumbnail.has_value() == m.thumb.has_value());
	if (g.thumbnail && m.thumb) { CHECK(g.thumbnail->width() == 2); CHECK(g.thumbnail->height() == 1); CHECK(g.thumbnail->format() == TextureFormat::R8G8B8A8); CHECK(g.thumbnail->mipmaps() == 1); if (g.thumbnail->mipmaps() == 1) CHECK(same_vec(g.thumbnail->data(0), *m.thumb)); }
}
static std::unique_ptr<World> world(std::string const& tag) {
	auto w = std::make_unique<World>();
	auto a = std::make_shared<VSpot>(), b = std::make_shared<VSpot>();
	a->vob_name = tag; b->vob_name = "CHILD"; a->physics_enabled = b->physics_enabled = false;
	a->children.push_back(b);
	w->world_vobs = {a};
	w->npc_spawn_enabled = true; w->npc_spawn_flags = 3;
	return w;
}
static void check_world(std::shared_ptr<World> const& w, std::string const& tag, bool g2) {
	CHECK(w != nullptr);
	if (!w) return;
	CHECK(w->world_vobs.size() == 1);
	if (w->world_vobs.size() != 1) return;
	CHECK(same(w->world_vobs[0]->vob_name, tag)); CHECK(w->world_vobs[0]->children.size() == 1);
	CHECK(w->npc_spawn_enabled); if (g2) CHECK(w->npc_spawn_flags == 3);
}
static Mem sym_mem(bool thumb, bool g2, unsigned i) {
	Mem m;
	(void) g2;
	m.title = std::string("T") + (char) ('0' + i) + sym_line(1, "title"); m.hour = (int32_t) i + 10; m.value = -(int32_t) i * 1000;
	if (thumb) { m.thumb.emplace(8); sym_bytes(m.thumb->data(), 8, "pixels"); }
	return m;
}
static void check_slot(unsigned i, Slot const& s, bool g2) {
	SaveGame f(g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1);
	f.load(slot(i));
	check(f, s.mem, s.current, g2);
	std::vector<std::string> want = {"SAVEDAT.SAV", "SAVEHDR.SAV", "SAVEINFO.SAV"};
	if (s.mem.thumb) want.push_back("THUMB.SAV");
	for (auto& w : s.worlds) want.push_back(w.first + ".SAV");
	for (auto& o : s.other) want.push_back(o);
	std::sort(want.begin(), want.end());
	CHECK(names(slot(i)) == want);
	CHECK(slurp(slot(i) / "SAVEHDR.SAV") == s.current + ".ZEN\n");
	for (std::string n : {"WORLDA", "WORLDB"}) {
		auto it = s.worlds.find(n);
		auto w = f.load_world(n + ".ZEN"), v = f.load_world(n);
		CHECK((w != nullptr) == (it != s.worlds.end())); CHECK((v != nullptr) == (w != nullptr));
		if (it != s.worlds.end()) { check_world(w, it->second, g2); check_world(v, it->second, g2); }
		if (n == s.current) check_world(f.load_world(), s.worlds.at(n), g2);
	}
	CHECK(f.load_world("OTHER.ZEN") == nullptr);
}
static void save(SaveGame& g, Mem const& m, unsigned i, std::string const& name, std::string const& tag, bool g2) {
	(void) m; (void) g2;
	g.metadata.world = name;
	auto w = world(tag);
	g.save(slot(i), *w, name);
}
HARNESS(C38_round_trip) {
	bool g2 = choose(0, 1, "g2"), thumb = choose(0, 1, "thumb"), exists = choose(0, 1, "exists");
	SaveGame g(g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1);
	Slot s; s.mem = sym_mem(thumb, g2, 1); s.current = "WORLDA"; s.worlds["WORLDA"] = sym_line(2, "tag");
	if (exists) { // remains of another game
		fs::create_directories(slot(0) / "sub");
		spit(slot(0) / "THUMB.SAV", "old"); spit(slot(0) / "WORLDB.SAV", "old"); spit(slot(0) / "sub" / "x", "old"); spit(slot(0) / "SAVEINFO.SAV", std::string(3000, 'o'));
	}
	set(g, s.mem, g2);
	save(g, s.mem, 0, "WORLDA", s.worlds["WORLDA"], g2);
	check_slot(0, s, g2);
	check_world(g.load_world(), s.worlds["WORLDA"], g2); // the object is now at that slot
	CHECK(names(fs::path(zse_scratch())) == std::vector<std::string> {"saves"});
	CHECK(names(slot(0).parent_path()) == std::vector<std::string> {"slot1"});
}
// every history of a few steps against a reference
static void history(unsigned steps, bool used) {
	bool g2 = choose(0, 1, "g2");
	GameVersion ver = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	std::optional<Slot> ref[2];
	if (used) for (unsigned i = 0; i < 2; ++i) { // both slots hold other games
		Slot s; s.mem = sym_mem(i == 0, g2, 6 + i); s.current = i ? "WORLDB" : "WORLDA"; s.worlds[s.current] = std::string(i ? "Y" : "X") + sym_line(1, "tag");
		SaveGame o(ver); set(o, s.mem, g2); save(o, s.mem, i, s.current, s.worlds[s.current], g2);
		ref[i] = s;
	}
	SaveGame g(ver);
	int at = -1; // the slot the object is at
	Mem mem = sym_mem(choose(0, 1, "thumb"), g2, 0);
	set(g, mem, g2);
	for (unsigned k = 0; k < steps; ++k) {
		unsigned op = choose(0, 6, "op");
		if (op < 4) { // save
			unsigned i = op & 1; std::string n = op & 2 ? "WORLDB" : "WORLDA", tag = sym_line(1, "tag") + (char) ('a' + k);
			save(g, mem, i, n, tag, g2);
			Slot s;
			if (at == (int) i && ref[i]) s = *ref[i];
			else if (at >= 0 && ref[at]) s = *ref[at];
			s.mem = mem; s.current = n; s.worlds[n] = tag;
			ref[i] = s; at = (int) i;
		} else if (op < 6) { // load
			unsigned i = op - 4;
			if (!ref[i]) { CHECK(throws([&] { SaveGame h(ver); h.load(slot(i)); })); continue; }
			g.load(slot(i));
			mem = ref[i]->mem; at = (int) i;
			check(g, mem, ref[i]->current, g2);
		} else { mem = sym_mem(!mem.thumb.has_value(), g2, k + 1); set(g, mem, g2); }
	}
	for (unsigned i = 0; i < 2; ++i) if (ref[i]) check_slot(i, *ref[i], g2); else CHECK(!fs::exists(slot(i)));
}
HARNESS(C38_history_2) { history(2, false); }
HARNESS(C38_used_2) { history(2, true); }
//@entry C38_history_3 time=300
HARNESS(C38_history_3) { history(3, false); }
//@entry C38_used_3 time=600 tier=thorough
HARNESS(C38_used_3) { history(3, true); }
// file names are matched in any letter case, whatever else is in the folder and in whatever order it is listed
HARNESS(C38_names) {
	bool g2 = choose(0, 1, "g2");
	GameVersion ver = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	SaveGame g(ver), f(ver);
	Slot s; s.mem = sym_mem(true, g2, 1); s.current = "WORLDA"; s.worlds["WORLDA"] = sym_line(1, "tag");
	set(g, s.mem, g2);
	save(g, s.mem, 0, "WORLDA", s.worlds["WORLDA"], g2);
	std::vector<std::pair<std::string, std::string>> files = {{"SaveInfo.sav", slurp(slot(0) / "SAVEINFO.SAV")}, {"savedat.SAV", slurp(slot(0) / "SAVEDAT.SAV")}, {"thumb.Sav", slurp(slot(0) / "THUMB.SAV")}, {"WORLDA.SAV", slurp(slot(0) / "WORLDA.SAV")},
		{"ASAVEINFO.SAV", "x"}, {"SAVEINFO.SAV2", "x"}, {"SAVEINFO", "x"}, {"XTHUMB.SAV", "x"}, {"SAVEDAT.SA", "x"}, {"zzz", ""}};
	fs::create_directories(slot(1) / "THUMBS");
	bool order = choose(0, 1, "order");
	for (size_t i = 0; i < files.size(); ++i) { auto& x = files[order ? i : files.size() - 1 - i]; spit(slot(1) / x.first, x.second); }
	f.load(slot(1));
	check(f, s.mem, "WORLDA", g2);
	check_world(f.load_world(), s.worlds["WORLDA"], g2);
}
// what is missing or is not what it should be is reported
HARNESS(C38_missing) {
	bool g2 = choose(0, 1, "g2");
	GameVersion ver = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	SaveGame g(ver);
	Mem m = sym_mem(true, g2, 1);
	set(g, m, g2);
	save(g, m, 0, "WORLDA", "T", g2);
	unsigned what = choose(0, 9, "what");
	SaveGame f(ver);
	fs::path p = slot(0);
	switch (what) {
	case 0: fs::remove(p / "SAVEINFO.SAV"); break;
	case 1: fs::remove(p / "SAVEDAT.SAV"); break;
	case 2: p = slot(1); break; // no such folder
	case 3: p = p / "SAVEDAT.SAV"; break; // not a folder
	case 4: spit(p / "SAVEINFO.SAV", ""); break;
	case 5: spit(p / "SAVEDAT.SAV", ""); break;
	case 6: fs::remove(p / "SAVEINFO.SAV"); fs::create_directory(p / "SAVEINFO.SAV"); break;
	case 7: fs::remove(p / "SAVEDAT.SAV"); fs::create_directory(p / "SAVEDAT.SAV"); break;
	case 8: fs::remove(p / "THUMB.SAV"); fs::create_directory(p / "THUMB.SAV"); break;
	default: { // an archive which holds nothing
		auto w = Write::to(p / "SAVEINFO.SAV"); auto a = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
		a->write_object("%", std::shared_ptr<Object> {}, ver); a->write_header(); break; }
	}
	unsigned open = zse_open_files();
	CHECK(throws([&] { f.load(p); }));
	CHECK(zse_open_files() == open);
}
// a slot without a picture, loaded after one with a picture
HARNESS(C38_used_object) {
	bool g2 = choose(0, 1, "g2"), first = choose(0, 1, "first"), second = choose(0, 1, "second");
	GameVersion ver = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	Mem a = sym_mem(first, g2, 1), b = sym_mem(second, g2, 2);
	{ SaveGame g(ver); set(g, a, g2); save(g, a, 0, "WORLDA", "A", g2); }
	{ SaveGame g(ver); set(g, b, g2); save(g, b, 1, "WORLDB", "B", g2); }
	SaveGame f(ver);
	f.load(slot(0)); check(f, a, "WORLDA", g2);
	f.load(slot(1)); check(f, b, "WORLDB", g2);
	CHECK(f.load_world("WORLDA.ZEN") == nullptr); check_world(f.load_world(), "B", g2);
	f.load(slot(0)); check(f, a, "WORLDA", g2);
}
// the current slot under another spelling of its path
HARNESS(C38_same_slot) {
	bool g2 = choose(0, 1, "g2");
	GameVersion ver = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	SaveGame g(ver);
	Slot s; s.mem = sym_mem(true, g2, 1); s.worlds["WORLDA"] = sym_line(1, "tag"); s.worlds["WORLDB"] = "B"; s.current = "WORLDB";
	set(g, s.mem, g2);
	save(g, s.mem, 0, "WORLDA", s.worlds["WORLDA"], g2);
	if (choose(0, 1, "load")) { SaveGame h(ver); h.load(slot(0)); g.load(slot(0)); }
	fs::path p = slot(0);
	switch (choose(0, 4, "spelling")) {
	case 0: p = p / ""; break;
	case 1: p = p.parent_path() / "." / p.filename(); break;
	case 2: p = fs::path("saves") / "slot1"; break; // from the current directory
	case 3: fs::create_directories(slot(1)); p = slot(1) / ".." / p.filename(); break;
	default: break;
	}
	auto w = world("B");
	g.metadata.world = "WORLDB";
	g.save(p, *w, "WORLDB");
	check_slot(0, s, g2);
	check_world(g.load_world("WORLDA"), s.worlds["WORLDA"], g2);
}
// a slot in a folder that does not exist yet
HARNESS(C38_new_folder) {
	bool g2 = choose(0, 1, "g2");
	GameVersion ver = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	SaveGame g(ver), f(ver);
	Mem m = sym_mem(choose(0, 1, "thumb"), g2, 1);
	std::string tag = sym_line(1, "tag");
	set(g, m, g2);
	bool first = choose(0, 1, "first");
	if (first) save(g, m, 0, "WORLDA", tag, g2);
	fs::path p = fs::path(zse_scratch()) / "other" / "games" / "slot9";
	auto w = world("B");
	g.metadata.world = "WORLDB";
	g.save(p, *w, "WORLDB");
	f.load(p);
	check(f, m, "WORLDB", g2);
	check_world(f.load_world(), "B", g2);
	if (first) check_world(f.load_world("WORLDA.ZEN"), tag, g2); else CHECK(f.load_world("WORLDA.ZEN") == nullptr);
}
