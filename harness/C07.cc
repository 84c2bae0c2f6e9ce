// C07: archived object graphs keep their shape
//@bound four references drawn from {missing, three objects} in every combination (256 graphs), each object with arbitrary values (fixed values in ASCII), every read/skip choice, all three formats
//@bound nesting up to depth 3 with an entry of every kind before and behind the nested object, leaving any object early by skip_object
//@bound object names and class names of 1..3 arbitrary printable characters without brackets, given as substrings of longer text; names up to 127 characters (the limit of the format); all 16-bit versions; 0..300 objects; archives begun on any day of a year at 4 times of the day and finished on the same or the next day; user names of 0..3 characters from either environment variable or none
//@outside names longer than 127 characters (truncated by the text formats)
#include "arc.h"
#include <zenkit/vobs/Misc.hh>
using Talent = VNpc::Talent;

template <int F> static void graph(unsigned n, bool skipping) {
	auto const fmt = FMT[F];
	std::shared_ptr<Talent> obj[3];
	for (int i = 0; i < 3; ++i) {
		obj[i] = std::make_shared<Talent>();
		obj[i]->talent = F == 2 ? 10 + i : sym<int>("talent");
		obj[i]->value = F == 2 ? -i : sym<int>("value");
		obj[i]->skill = F == 2 ? 1 << (10 * i) : sym<int>("skill");
	}
	unsigned slot[4];
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), fmt);
	a->write_object_begin("outer", "zCOuter", 1);
	for (unsigned i = 0; i < n; ++i) {
		slot[i] = choose(0, 3, "slot");
		a->write_object("child", slot[i] == 3 ? nullptr : std::static_pointer_cast<Object>(obj[slot[i]]), GameVersion::GOTHIC_1);
		a->write_int("after", 100 + (int) i);
	}
	a->write_object_end();
	a->write_object(std::static_pointer_cast<Object>(obj[0]), GameVersion::GOTHIC_1);
	a->write_header();

	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject o;
	CHECK(r->read_object_begin(o));
	CHECK(o.class_name == "zCOuter");
	std::shared_ptr<Talent> got[5];
	bool skipped[4] = {};
	bool defined[3] = {}, lost[3] = {};
	for (unsigned i = 0; i < n; ++i) {
		skipped[i] = skipping && choose(0, 1, "skip");
		if (skipped[i]) r->skip_object(false);
		else got[i] = r->read_object<Talent>(GameVersion::GOTHIC_1);
		if (slot[i] < 3 && !defined[slot[i]]) { defined[slot[i]] = true; lost[slot[i]] = skipped[i]; }
		CHECK(r->read_int() == 100 + (int) i);
	}
	CHECK(r->read_object_end());
	got[4] = r->read_object<Talent>(GameVersion::GOTHIC_1);
	for (unsigned i = 0; i < n; ++i) {
		if (skipped[i]) continue;
		if (slot[i] == 3) { CHECK(got[i] == nullptr); continue; }
		if (lost[slot[i]]) continue; // the definition was skipped by the caller
		CHECK(got[i] != nullptr);
		CHECK(same(got[i]->talent, obj[slot[i]]->talent));
		CHECK(same(got[i]->value, obj[slot[i]]->value));
		CHECK(same(got[i]->skill, obj[slot[i]]->skill));
		for (unsigned j = 0; j < i; ++j)
			if (!skipped[j] && slot[j] < 3 && !lost[slot[j]]) CHECK((got[i] == got[j]) == (slot[i] == slot[j]));
		if (slot[i] == 0) CHECK(got[4] == got[i]);
	}
	if (!defined[0]) { CHECK(got[4] != nullptr); CHECK(same(got[4]->talent, obj[0]->talent)); }
}
HARNESS(C07_graph_binary) { graph<0>(4, false); }
HARNESS(C07_graph_binsafe) { graph<1>(4, false); }
HARNESS(C07_graph_ascii) { graph<2>(4, false); }
HARNESS(C07_skip_binary) { graph<0>(3, true); }
HARNESS(C07_skip_binsafe) { graph<1>(3, true); }
HARNESS(C07_skip_ascii) { graph<2>(3, true); }

// skipping an object with arbitrary contents leaves the reader exactly behind it
static void fill(Val& v, Kind k, ArchiveFormat f, unsigned len) {
	if (f != ArchiveFormat::ASCII) return make(v, k, f, len);
	v.k = k;
	v.s = k == STR ? sym_line(len, "str") : ""; v.i = -5; v.f = 1; v.b = 3; v.w = 4; v.e = 2; v.t = true; v.c = {1, 2, 3, 4}; v.raw.resize(len);
	v.v3.x = v.v3.y = v.v3.z = 1; v.v2 = Vec2 {1, 2}; v.bb.min = v.bb.max = v.v3; v.m = Mat3 {};
}
template <int F> static void nested() {
	auto const f = FMT[F];
	unsigned depth = choose(1, 3, "depth");
	unsigned k = choose(0, KINDS - 1, "kind");
	Val v[2], tail;
	fill(v[0], (Kind) k, f, 2);
	fill(v[1], (Kind) k, f, 9);
	fill(tail, INT, f, 0);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), f);
	a->write_object_begin("root", "zCRoot", 0);
	for (unsigned d = 0; d < depth; ++d) { a->write_object_begin("n", "zCNested", (uint16_t) d); put(*a, "a", v[0]); }
	for (unsigned d = 0; d < depth; ++d) { put(*a, "b", v[1]); a->write_object_end(); }
	put(*a, "tail", tail);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject o;
	CHECK(r->read_object_begin(o));
	unsigned enter = choose(0, depth, "enter"); // how deep the caller goes before it skips
	for (unsigned d = 0; d < enter; ++d) {
		CHECK(r->read_object_begin(o));
		CHECK(o.class_name == "zCNested");
		CHECK(o.version == d);
		get(*r, v[0]);
	}
	if (enter < depth) r->skip_object(false);
	for (unsigned d = enter; d > 0; --d) {
		if (choose(0, 1, "rest")) { get(*r, v[1]); CHECK(r->read_object_end()); }
		else r->skip_object(true);
	}
	get(*r, tail);
	CHECK(r->read_object_end());
}
HARNESS(C07_nested_binary) { nested<0>(); }
HARNESS(C07_nested_binsafe) { nested<1>(); }
HARNESS(C07_nested_ascii) { nested<2>(); }

template <int F> static void names() {
	auto const f = FMT[F];
	unsigned n = choose(1, 3, "n"), m = choose(1, 2, "m");
	std::string nm = sym_word(n, "name"), cl = sym_word(m, "class");
	for (char c : nm) ASSUME((c != '[') & (c != ']'));
	for (char c : cl) ASSUME((c != '[') & (c != ']') & (c != '%'));
	uint16_t ver = sym<uint16_t>("ver");
	std::string text = nm + "rest", text2 = cl + "rest";
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), f);
	uint32_t i0 = a->write_object_begin(std::string_view {text}.substr(0, n), std::string_view {text2}.substr(0, m), ver);
	a->write_object_end();
	a->write_ref(std::string_view {text}.substr(0, n), i0);
	uint32_t i1 = a->write_object_begin("x", "y", 65535);
	a->write_object_end();
	a->write_header();
	CHECK(i0 != i1);
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject o;
	CHECK(r->read_object_begin(o));
	CHECK(same(o.object_name, nm));
	CHECK(same(o.class_name, cl));
	CHECK(same(o.version, ver));
	CHECK(o.index == i0);
	CHECK(r->read_object_end());
	CHECK(r->read_object_begin(o));
	CHECK(same(o.object_name, nm));
	CHECK(o.class_name == "\xA7");
	CHECK(o.index == i0);
	CHECK(r->read_object_end());
	CHECK(r->read_object_begin(o));
	CHECK(o.version == 65535);
	CHECK(o.index == i1);
	CHECK(r->read_object_end());
}
HARNESS(C07_names_binary) { names<0>(); }
HARNESS(C07_names_binsafe) { names<1>(); }
HARNESS(C07_names_ascii) { names<2>(); }

// header: format and save flag; many objects and references
HARNESS(C07_header) {
	unsigned f = choose(0, 2, "fmt"), save = choose(0, 1, "save"), many = choose(0, 1, "many");
	unsigned const N[] = {0, 130};
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = save ? WriteArchive::to_save(w.get(), FMT[f]) : WriteArchive::to(w.get(), FMT[f]);
	CHECK(a->is_save_game() == (save != 0));
	uint32_t last = 0;
	for (unsigned i = 0; i < N[many]; ++i) {
		last = a->write_object_begin("o", "c", (uint16_t) i);
		a->write_object_end();
	}
	if (many) a->write_ref("o", last);
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	CHECK(r->get_header().format == FMT[f]);
	CHECK(r->get_header().version == 1);
	CHECK(r->get_header().save == (save != 0));
	CHECK(r->is_save_game() == (save != 0));
	ArchiveObject o;
	uint32_t li = 0;
	for (unsigned i = 0; i < N[many]; ++i) {
		CHECK(r->read_object_begin(o));
		CHECK(o.version == i);
		if (i) CHECK(o.index == li + 1);
		li = o.index;
		CHECK(r->read_object_end());
	}
	if (many) {
		CHECK(r->read_object_begin(o));
		CHECK(o.index == last);
		CHECK(r->read_object_end());
	}
}
// a different class than the expected one is an error, not a misread object
HARNESS(C07_type_mismatch) {
	unsigned f = choose(0, 2, "fmt");
	auto t = std::make_shared<Talent>();
	t->talent = t->value = t->skill = 1;
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	a->write_object(t, GameVersion::GOTHIC_1);
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	CHECK(throws([&] { (void) r->read_object<VItem>(GameVersion::GOTHIC_1); }));
}
// long object and class names
HARNESS(C07_long_names) {
	static unsigned const L[] = {15, 16, 63, 64, 126, 127};
	unsigned f = choose(0, 2, "fmt"), n = L[choose(0, 5, "name")], m = L[choose(0, 5, "class")];
	std::string nm = std::string(n - 1, 'n') + sym_word(1, "nm"), cl = std::string(m - 1, 'c') + sym_word(1, "cl");
	ASSUME((nm[n - 1] != '[') & (nm[n - 1] != ']') & (cl[m - 1] != '[') & (cl[m - 1] != ']'));
	uint16_t ver = sym<uint16_t>("ver");
	if (f == 2) ver = 1234;
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	uint32_t i0 = a->write_object_begin(nm, cl, ver);
	a->write_int("x", 3);
	a->write_object_end();
	a->write_ref(nm, i0);
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject o;
	CHECK(r->read_object_begin(o));
	CHECK(same(o.object_name, nm)); CHECK(same(o.class_name, cl)); CHECK(same(o.version, ver)); CHECK(o.index == i0);
	CHECK(r->read_int() == 3);
	CHECK(r->read_object_end());
	CHECK(r->read_object_begin(o));
	CHECK(same(o.object_name, nm)); CHECK(o.index == i0);
	CHECK(r->read_object_end());
}
// many objects: references still find the right one
HARNESS(C07_many) {
	unsigned f = choose(0, 2, "fmt");
	static unsigned const T[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, 299};
	unsigned k = choose(0, 9, "target"), t = T[k], u = T[9 - k];
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	std::vector<std::shared_ptr<Talent>> ts;
	for (unsigned i = 0; i < 300; ++i) {
		auto x = std::make_shared<Talent>();
		x->talent = (int) i; x->value = 1; x->skill = 2;
		ts.push_back(x);
		a->write_object("t", std::static_pointer_cast<Object>(x), GameVersion::GOTHIC_2);
	}
	a->write_object("again", std::static_pointer_cast<Object>(ts[t]), GameVersion::GOTHIC_2);
	a->write_object("again", std::static_pointer_cast<Object>(ts[u]), GameVersion::GOTHIC_2);
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	std::vector<std::shared_ptr<Talent>> got;
	for (unsigned i = 0; i < 300; ++i) got.push_back(r->read_object<Talent>(GameVersion::GOTHIC_2));
	for (unsigned i = 0; i < 300; ++i) CHECK(got[i] != nullptr && got[i]->talent == (int) i);
	CHECK(r->read_object<Talent>(GameVersion::GOTHIC_2) == got[t]);
	CHECK(r->read_object<Talent>(GameVersion::GOTHIC_2) == got[u]);
}
// the clock runs while an archive is written
//@entry C07_clock time=120
HARNESS(C07_clock) {
	unsigned f = choose(0, 2, "fmt");
	long long day = 19358 + 31 * (long long) choose(0, 11, "month") + (long long) choose(0, 30, "day"), s0 = 0, s1 = 0;
	unsigned later = choose(0, 1, "later");
	static unsigned const T[] = {0, 3599, 36000, 86399};
	unsigned t0 = choose(0, 3, "from"), t1 = choose(0, 3, "to");
	if (!later && t1 < t0) return;
	s0 = T[t0]; s1 = T[t1];
	Val v; v.k = STR; v.s = sym_line(2, "text");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	zse_set_clock(day * 86400 + s0);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	a->write_object_begin("o", "c", 7);
	put(*a, "s", v);
	a->write_object_end();
	zse_set_clock((day + later) * 86400 + s1);
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject o;
	CHECK(r->read_object_begin(o));
	CHECK(o.object_name == "o"); CHECK(o.class_name == "c"); CHECK(o.version == 7);
	get(*r, v);
	CHECK(r->read_object_end());
}
// the name of the user and the date of an archive
HARNESS(C07_user) {
	unsigned f = choose(0, 2, "fmt"), which = choose(0, 3, "which");
	std::string name = sym_line(choose(0, 3, "len"), "user"), other = "X Y";
	for (char c : name) ASSUME(c > ' ' && c < 127);
	unsetenv("USER"); unsetenv("USERNAME");
	if (which & 1) setenv("USER", name.c_str(), 1);
	if (which & 2) setenv("USERNAME", which == 3 ? other.c_str() : name.c_str(), 1);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	zse_set_clock(19358ll * 86400 + 3661);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	a->write_object_begin("o", "c", 7);
	a->write_object_end();
	a->write_header();
	unsetenv("USER"); unsetenv("USERNAME");
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	if (which) { if (!name.empty()) CHECK(r->get_header().user == name); }
	else CHECK(r->get_header().user == "Anonymous");
	CHECK(r->get_header().date == "1.1.2023 01:01:01");
	ArchiveObject o;
	CHECK(r->read_object_begin(o));
	CHECK(o.version == 7);
	CHECK(r->read_object_end());
}
