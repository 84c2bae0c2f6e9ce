// C20: a saved disk archive mounts back to the same directory tree and contents
//@bound eight tree shapes of up to 6 entries and depth 4 (with empty files and directories without files), arbitrary one-byte sibling names, names of 63 and 64 bytes, files of 0..3 arbitrary bytes and one of 5000 bytes; both disk versions; every second of three dates, three time zones
//@bound fixed larger trees: 280 entries in one directory (31 of them directories), 30 levels
//@assume a time zone without daylight saving
//@outside directories without any file below them, which the format cannot express (they are left out); names longer than 64 bytes; other dates and bigger trees; compressed archives (not part of this build)
#include "vfs.h"
static std::string bytes(unsigned n) { return sym_raw(n, "data"); }
static std::vector<std::string> names(unsigned n) {
	std::vector<std::string> v;
	for (unsigned i = 0; i < n; ++i) v.push_back(sym_name(1, "name"));
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) ASSUME(low(v[i][0]) != low(v[j][0]));
	return v;
}
static Mod f(std::string n, std::string d) { return {std::move(n), true, std::move(d), {}}; }
static Mod dir(std::string n, std::vector<Mod> k) { return {std::move(n), false, "", std::move(k)}; }
static Mod tree(unsigned k) {
	switch (k) {
	case 0: { auto n = names(3); return dir("/", {f(n[0], bytes(1)), f(n[1], bytes(0)), f(n[2], bytes(3))}); }
	case 1: { auto n = names(2); return dir("/", {dir(n[0], {f("a", bytes(1))}), dir(n[1], {f("b", bytes(2))})}); }
	case 2: { auto n = names(2), m = names(2); return dir("/", {dir(n[0], {f(m[0], bytes(1)), f(m[1], bytes(2))}), f(n[1], bytes(1))}); }
	case 3: { auto n = names(2); return dir("/", {dir("x", {dir(n[0], {dir("y", {f("z", bytes(1))})}), dir(n[1], {f("w", bytes(0))})})}); }
	case 4: { auto n = names(3); return dir("/", {dir(n[0], {f("a", bytes(1))}), f(n[1], bytes(1)), dir(n[2], {f("b", bytes(1)), f("c", bytes(1))})}); }
	case 5: return dir("/", {});
	case 6: { auto n = names(2); return dir("/", {dir(n[0], {}), f(n[1], bytes(1))}); }
	default: { auto n = names(3); return dir("/", {dir(n[0], {dir("e", {})}), dir(n[1], {f("b", bytes(1)), dir("x", {})}), dir(n[2], {})}); }
	}
}
static void fill(VfsNode* n, Mod const& m) { for (auto& k : m.kids) { if (k.file) n->create(VfsNode::file(k.name, own(k.data), 7)); else fill(n->create(VfsNode::directory(k.name, 7)), k); } }
static bool holds(Mod const& m) { if (m.file) return true; for (auto& k : m.kids) if (holds(k)) return true; return false; }
// what the format can express
static Mod expressible(Mod const& m) { Mod r {m.name, m.file, m.data, {}}; for (auto& k : m.kids) if (holds(k)) r.kids.push_back(expressible(k)); return r; }
static void equalm(Mod& a, Mod& b) {
	CHECK(a.kids.size() == b.kids.size());
	for (auto& k : a.kids) {
		Mod* o = nullptr;
		for (auto& x : b.kids) if (same(x.name, k.name)) o = &x;
		CHECK(o != nullptr);
		if (!o) continue;
		CHECK(o->file == k.file);
		CHECK(same(o->data, k.data));
		equalm(k, *o);
	}
}
static std::vector<std::byte> saved(Vfs const& v, GameVersion g, time_t t) {
	std::vector<std::byte> out;
	auto w = Write::to(&out);
	v.save(w.get(), g, t);
	return out;
}
static void roundtrip(Mod m) {
	Vfs v;
	fill(const_cast<VfsNode*>(&v.root()), m);
	auto g = choose(1, 2, "version") == 1 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
	auto out = saved(v, g, 951868800);
	Mod want = expressible(m);
	// as the format prescribes
	Disk d {out};
	CHECK(out.size() >= 296 + (want.count() - 1) * 80);
	if (out.size() < 296 + (want.count() - 1) * 80) return;
	CHECK(!memcmp(out.data() + 256, g == GameVersion::GOTHIC_1 ? "PSVDSC_V2.00\r\n\r\n" : "PSVDSC_V2.00\n\r\n\r", 16));
	CHECK(d.get(272) == want.count() - 1);
	CHECK(d.get(292) == 0x50);
	Mod got {"/", false, "", {}};
	if (want.kids.size()) disk_decode(d, 0, want.count() - 1, 0, got);
	equalm(want, got);
	// as the library reads it
	Vfs u;
	auto r = Read::from(&out);
	u.mount_disk(r.get());
	compare(u.root(), want);
	// and once more
	auto again = saved(u, g, 951868800);
	CHECK(same_vec(again, out));
}
HARNESS(C20_tree0) { roundtrip(tree(0)); }
HARNESS(C20_tree1) { roundtrip(tree(1)); }
HARNESS(C20_tree2) { roundtrip(tree(2)); }
HARNESS(C20_tree3) { roundtrip(tree(3)); }
//@entry C20_tree4 time=240
HARNESS(C20_tree4) { roundtrip(tree(4)); }
HARNESS(C20_empty) { roundtrip(tree(5)); }
HARNESS(C20_empty_directories) { roundtrip(tree(6)); }
HARNESS(C20_nested_empty_directories) { roundtrip(tree(7)); }
HARNESS(C20_long_names) {
	unsigned n = choose(0, 3, "length");
	static unsigned const L[] = {8, 33, 63, 64};
	std::string a(L[n], 'x'), b(L[n], 'x');
	a[0] = sym_name(1, "first")[0];
	a.back() = sym_name(1, "last")[0];
	a[L[n] / 2] = ' ';
	b.back() = 'y';
	ASSUME(a[0] != 'x' && a[0] != 'X');
	roundtrip(dir("/", {f(a, bytes(1)), dir(b, {f(a, bytes(2))})}));
}
HARNESS(C20_big_file) {
	std::string s(5000, 'q');
	std::string e = bytes(4);
	memcpy(s.data(), e.data(), 2);
	memcpy(s.data() + 4998, e.data() + 2, 2);
	roundtrip(dir("/", {dir("d", {f("g", bytes(1))}), f("a", s), f("z", bytes(2))}));
}
// 300 entries, 30 levels
HARNESS(C20_many) {
	std::vector<Mod> k;
	for (unsigned i = 0; i < 280; ++i) k.push_back(i % 9 == 4 ? dir("d" + std::to_string(i), {f("x", std::to_string(i)), f("y" + std::to_string(i), i == 4 ? bytes(2) : std::string(i, 'z'))}) : f("F" + std::to_string(i), i == 271 ? bytes(3) : std::to_string(i)));
	roundtrip(dir("/", k));
}
HARNESS(C20_deep) {
	Mod m = f("leaf", bytes(2));
	for (unsigned i = 0; i < 30; ++i) m = i % 2 ? dir("d" + std::to_string(i), {m, f("s", std::to_string(i))}) : dir("e" + std::to_string(i), {f("t", std::to_string(i)), m});
	roundtrip(dir("/", {m, f("zz", bytes(1))}));
}
HARNESS(C20_time) {
	static time_t const base[] = {951782400 /* 2000-02-29 */, 315532800 /* 1980-01-01 */, 2145916800 /* 2038-01-01 */};
	static int const zones[] = {0, -480, 345};
	unsigned k = choose(0, 2, "date"), z = choose(0, 2, "zone");
	time_t t = base[k] - zones[z] * 60 + sym_in<uint32_t>(0, 86399, "second");
	zse_set_zone(zones[z]);
	Vfs v, u;
	v.mount(VfsNode::file("f", own("1")), "/");
	auto out = saved(v, GameVersion::GOTHIC_2, t);
	auto r = Read::from(&out);
	u.mount_disk(r.get());
	auto* n = u.resolve("f");
	CHECK(n != nullptr);
	if (n) CHECK(n->time() == (t & ~(time_t) 1));
}
