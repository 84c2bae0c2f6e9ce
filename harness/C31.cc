// C31: save-game state records survive save and load
//@bound metadata and script state with every number arbitrary (fixed values in ASCII), text of 0..2 arbitrary bytes other than NUL, CR, LF, 0..2 known infos, missions, log topics (with 0..2 entries), cutscene pool items, script variables (0..2 values in Gothic 2, one in Gothic 1), all guild attitudes arbitrary (in ASCII: any one of seven), both game versions, three archive formats; loading into a fresh record and into one that held another state
//@bound records with about 40 entries in every list and strings of about 300 characters
//@assume what the loader ignores (the per-mission list whose meaning is unknown) is written as an empty list
//@outside the files of a save-game folder (C38); the guild table of original Gothic 2 saves is larger than the 42x42 entries the API exposes
#include "vob.h"
#include <zenkit/SaveGame.hh>
template <typename V> static void meta(V& v, SaveMetadata& a, SaveMetadata& b) {
	F(title); F(world); F(time_day); F(time_hour); F(time_minute); F(save_date); F(version_major); F(version_minor); F(play_time_seconds);
	if (v.c.g2()) { F(version_point); F(version_int); F(version_app_name); }
}
template <typename V> static void state(V& v, SaveState& a, SaveState& b, unsigned ni, unsigned nm, unsigned nl, unsigned nc, unsigned ns) {
	F(day); F(hour); F(minute);
	if (v.vec(a.infos, b.infos, ni)) for (size_t i = 0; i < a.infos.size(); ++i) { F(infos[i].name); F(infos[i].told); }
	if (v.vec(a.missions, b.missions, nm)) for (size_t i = 0; i < a.missions.size(); ++i) { F(missions[i].name); F(missions[i].id); F(missions[i].available); F(missions[i].status_index); }
	if (v.vec(a.log, b.log, nl)) for (size_t i = 0; i < a.log.size(); ++i) {
		F(log[i].description); v.en((uint32_t&) a.log[i].section, (uint32_t&) b.log[i].section); v.en((uint32_t&) a.log[i].status, (uint32_t&) b.log[i].status);
		if (v.vec(a.log[i].entries, b.log[i].entries, (nl + i) % 3)) for (size_t j = 0; j < a.log[i].entries.size(); ++j) F(log[i].entries[j]);
	}
	if (v.ptrs(a.cutscene_manager->pool_items, b.cutscene_manager->pool_items, nc)) for (size_t i = 0; i < a.cutscene_manager->pool_items.size(); ++i) {
		auto &x = *a.cutscene_manager->pool_items[i], &y = *b.cutscene_manager->pool_items[i];
		v(x.name, y.name); v.en((uint32_t&) x.run_behavior, (uint32_t&) y.run_behavior); v(x.run_behavior_value, y.run_behavior_value); v(x.times_played, y.times_played); v(x.deactivated, y.deactivated); v(x.flags, y.flags);
	}
	if (v.vec(a.symbols, b.symbols, ns)) for (size_t i = 0; i < a.symbols.size(); ++i) {
		F(symbols[i].name);
		unsigned more = v.c.more;
		if (!v.c.g2()) v.c.more = 0; // one value
		bool ok = v.vec(a.symbols[i].values, b.symbols[i].values, v.c.g2() ? (ns + i) % 3 : 1);
		v.c.more = more;
		if (ok) for (size_t j = 0; j < a.symbols[i].values.size(); ++j) F(symbols[i].values[j]);
	}
}
template <int FM> static void metadata() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	c.k = choose(0, 2, "k");
	c.pad = choose(0, 1, "long") * 300;
	auto a = std::make_shared<SaveMetadata>();
	Fill f {c}; meta(f, *a, *a);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	{ auto ar = WriteArchive::to(w.get(), c.fmt); ar->write_object("%", a.get(), c.ver); ar->write_header(); }
	auto r = Read::from(&buf);
	auto ar = ReadArchive::from(r.get());
	auto b = ar->read_object<SaveMetadata>(c.ver);
	CHECK(b != nullptr);
	if (!b) return;
	Same s {c}; meta(s, *a, *b);
}
HARNESS(C31_metadata_binary) { metadata<0>(); }
HARNESS(C31_metadata_binsafe) { metadata<1>(); }
HARNESS(C31_metadata_ascii) { metadata<2>(); }
static void fill(Ctx& c, SaveState& a, unsigned ni, unsigned nm, unsigned nl, unsigned nc, unsigned ns) {
	a.cutscene_manager = std::make_shared<CutsceneManager>();
	Fill f {c}; state(f, a, a, ni, nm, nl, nc, ns);
	if (!c.text()) sym_bytes(a.guild_attitudes, sizeof a.guild_attitudes, "guilds");
	else {
		auto* p = &a.guild_attitudes[0][0];
		for (unsigned i = 0; i < 42 * 42; ++i) p[i] = (uint8_t) (i * 7 + i / 42);
		static unsigned const at[] = {0, 1, 41, 42, 301, 1722, 1763};
		if (!ni || !nm) p[at[choose(0, 6, "at")]] = sym<uint8_t>("guild");
	}
}
static void store(Ctx& c, SaveState& a, std::vector<std::byte>& buf) {
	auto w = Write::to(&buf);
	auto ar = WriteArchive::to_save(w.get(), c.fmt);
	a.save(*ar, c.ver); ar->write_header();
}
static void compare(Ctx& c, SaveState& a, SaveState& b) {
	CHECK(b.cutscene_manager != nullptr);
	if (!b.cutscene_manager) return;
	Same s {c}; state(s, a, b, 0, 0, 0, 0, 0);
	CHECK(same_bytes(a.guild_attitudes, b.guild_attitudes, sizeof a.guild_attitudes));
}
template <int FM> static void full(bool many = false) {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	unsigned which = many ? 0 : choose(0, 4, "list"), n = many ? 2 : choose(0, 2, "n");
	c.k = n;
	if (many) { c.more = 40; c.pad = 300; }
	SaveState a {}, b {};
	unsigned cnt[5] = {1, 1, 1, 1, 1};
	cnt[which] = n;
	fill(c, a, cnt[0], cnt[1], cnt[2], cnt[3], cnt[4]);
	std::vector<std::byte> buf;
	store(c, a, buf);
	auto r = Read::from(&buf);
	auto ar = ReadArchive::from(r.get());
	b.load(*ar, c.ver);
	compare(c, a, b);
}
HARNESS(C31_state_binary) { full<0>(); }
HARNESS(C31_state_binsafe) { full<1>(); }
HARNESS(C31_state_ascii) { full<2>(); }
HARNESS(C31_many_binary) { full<0>(true); }
HARNESS(C31_many_binsafe) { full<1>(true); }
HARNESS(C31_many_ascii) { full<2>(true); }
// a record that already holds another state is replaced
HARNESS(C31_reload) {
	Ctx c {ArchiveFormat::BINSAFE, choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	unsigned n = choose(0, 2, "n"), m = choose(0, 2, "m");
	SaveState a {}, o {}, b {};
	fill(c, o, m, m, m, m, m);
	fill(c, a, n, n, n, n, n);
	std::vector<std::byte> first, buf;
	store(c, o, first); store(c, a, buf);
	{ auto r = Read::from(&first); auto ar = ReadArchive::from(r.get()); b.load(*ar, c.ver); }
	auto r = Read::from(&buf);
	auto ar = ReadArchive::from(r.get());
	b.load(*ar, c.ver);
	compare(c, a, b);
}
// missions of original saves carry a list the library does not expose
HARNESS(C31_mission_list) {
	Ctx c {ArchiveFormat::BINSAFE, GameVersion::GOTHIC_1, true};
	unsigned n = choose(0, 2, "n");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	int id = sym<int32_t>("id"), st = sym<int32_t>("status"), day = sym<int32_t>("day"), v = sym<int32_t>("value");
	bool av = sym<bool>("av");
	{
		auto ar = WriteArchive::to_save(w.get(), c.fmt);
		ar->write_int("day", day); ar->write_int("hour", 1); ar->write_int("min", 2); ar->write_int("NumOfEntries", 0);
		ar->write_int("NumOfEntries", 1); ar->write_string("name", "M"); ar->write_int("ID", id); ar->write_bool("Av", av); ar->write_int("NumInList", (int) n);
		for (unsigned i = 0; i < n; ++i) { ar->write_int("VobIDL", sym<int32_t>("l")); ar->write_int("StatusL", sym<int32_t>("l")); ar->write_float("startTimeL", sym<float>("l")); }
		ar->write_int("StatusIndex", st);
		ar->write_int("LOGMANAGERTOPICCOUNT", 0);
		ar->write_object_begin("%", "oCCSManager:zCCSManager", 0); ar->write_int("poolCount", 0); ar->write_object_end();
		ar->write_int("numSymbols", 1); ar->write_string("symName0", "S"); ar->write_int("symValue0", v);
		ar->write_raw("guildTable", std::vector<std::byte>(42 * 42, (std::byte) 3)); ar->write_header();
	}
	SaveState b {};
	auto r = Read::from(&buf);
	auto ar = ReadArchive::from(r.get());
	b.load(*ar, c.ver);
	CHECK(b.day == day); CHECK(b.missions.size() == 1); CHECK(b.symbols.size() == 1); CHECK(b.guild_attitudes[41][41] == 3);
	if (b.missions.size() == 1) { CHECK(b.missions[0].id == id); CHECK(b.missions[0].status_index == st); CHECK(b.missions[0].available == av); CHECK(b.missions[0].name == "M"); }
	if (b.symbols.size() == 1) { CHECK(b.symbols[0].name == "S"); CHECK(b.symbols[0].values.size() == 1 && b.symbols[0].values[0] == v); }
}
