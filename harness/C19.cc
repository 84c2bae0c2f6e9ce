// C19: mounting over existing files obeys the chosen overwrite policy
//@bound arbitrary 64-bit time stamps of both sides (mounted disks: every time of the day on three dates), all four policies, trees of up to 3 entries per side and depth 2 with arbitrary one-byte names, every combination of file and directory
//@bound two fixed directories of 40 entries, one time stamp arbitrary
//@assume a time zone without daylight saving (three offsets)
//@outside host files (C39); bigger trees
#include "vfs.h"
struct Node { std::string name; bool file; std::string data; int64_t time; std::vector<Node> kids; };
static Node* kid(Node& d, std::string_view n) { for (auto& k : d.kids) if (ieq(k.name, n)) return &k; return nullptr; }
// the documented rule
static void merge(Node& dest, Node const& src, VfsOverwriteBehavior how) {
	Node* e = kid(dest, src.name);
	if (!e) { dest.kids.push_back(src); return; }
	if (!e->file && !src.file) { for (auto& k : src.kids) merge(*e, k, how); return; }
	bool replace = how == VfsOverwriteBehavior::ALL || (how == VfsOverwriteBehavior::NEWER && e->time > src.time) || (how == VfsOverwriteBehavior::OLDER && e->time < src.time);
	if (replace) *e = src;
}
static VfsNode build(Node const& n) {
	if (n.file) return VfsNode::file(n.name, own(n.data), n.time);
	VfsNode d = VfsNode::directory(n.name, n.time);
	for (auto& k : n.kids) d.create(build(k));
	return d;
}
static void equal(VfsNode const& v, Node& m) {
	CHECK(v.children().size() == m.kids.size());
	for (auto& k : m.kids) {
		auto* c = v.child(k.name);
		CHECK(c != nullptr);
		if (!c) continue;
		CHECK(same(c->name(), k.name));
		CHECK(c->time() == k.time);
		CHECK((c->type() == VfsNodeType::FILE) == k.file);
		if ((c->type() == VfsNodeType::FILE) != k.file) continue;
		if (k.file) CHECK(same(content(*c), k.data));
		else equal(*c, k);
	}
}
static unsigned g_id;
static Node leaf(std::string name, int64_t t) { return {std::move(name), true, std::string(1, (char) ('a' + g_id++)), t, {}}; }
static std::string nm(char const* w) { std::string s = sym_name(1, w); ASSUME(s[0] > 0); return s; }
// shape 0: file; 1: directory with a file; 2: directory with a directory with a file
static Node shape(unsigned k, std::string const& n, std::string const& m, int64_t t) {
	if (k == 0) return leaf(n, t);
	if (k == 1) return {n, false, "", t, {leaf(m, t)}};
	return {n, false, "", t, {{m, false, "", t, {leaf("z", t)}}}};
}
HARNESS(C19_mount_collision) {
	g_id = 0;
	int64_t t1 = sym<int64_t>("t1"), t2 = sym<int64_t>("t2");
	std::string a = nm("a"), b = nm("b"), A(1, (char) (a[0] ^ ((low(a[0]) >= 'a' && low(a[0]) <= 'z') ? 32 : 0)));
	Node root {"/", false, "", -1, {}};
	Node x = shape(choose(0, 2, "shape1"), a, b, t1), y = shape(choose(0, 2, "shape2"), A, choose(0, 1, "same") ? b : nm("c"), t2);
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	Vfs v;
	v.mount(build(x), "/", how);
	root.kids.push_back(x);
	equal(v.root(), root);
	v.mount(build(y), "/", how);
	merge(root, y, how);
	equal(v.root(), root);
}
HARNESS(C19_mount_merge) {
	g_id = 0;
	int64_t t[4] = {sym<int64_t>("t1"), sym<int64_t>("t2"), sym<int64_t>("t3"), sym<int64_t>("t4")};
	std::string a = nm("a"), b = nm("b"), c = nm("c"), d = nm("d");
	ASSUME(low(a[0]) < low(b[0])); ASSUME(low(c[0]) < low(d[0]));
	Node root {"/", false, "", -1, {}}, x {"D", false, "", t[0], {leaf(a, t[0]), leaf(b, t[1])}}, y {"d", false, "", t[2], {leaf(c, t[2]), leaf(d, t[3])}};
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	Vfs v;
	v.mount(build(x), "/", how);
	root.kids.push_back(x);
	v.mount(build(y), "/", how);
	merge(root, y, how);
	equal(v.root(), root);
}
// directories of 40 entries each, every second one on both sides
HARNESS(C19_mount_many) {
	g_id = 0;
	int64_t t = sym<int64_t>("t");
	Node root {"/", false, "", -1, {}}, x {"D", false, "", 1, {}}, y {"d", false, "", 2, {}};
	for (unsigned i = 0; i < 40; ++i) x.kids.push_back({"File" + std::to_string(i * 2), true, "x" + std::to_string(i), i == 20 ? t : 1000 + i, {}});
	for (unsigned i = 0; i < 40; ++i) y.kids.push_back({"fILE" + std::to_string(i * 3), true, "y" + std::to_string(i), 990 + (i * 7 % 50), {}});
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	Vfs v;
	v.mount(build(x), "/", how);
	root.kids.push_back(x);
	v.mount(build(y), "/", how);
	merge(root, y, how);
	equal(v.root(), root);
}
// three mounts below a directory, one of them nested
HARNESS(C19_mount_history) {
	g_id = 0;
	int64_t t[3] = {sym<int64_t>("t1"), sym<int64_t>("t2"), sym<int64_t>("t3")};
	std::string a = nm("a"), b = nm("b");
	Node sub {"s", false, "", 5, {}};
	Vfs v;
	v.mount(VfsNode::directory("s", 5), "/");
	for (unsigned i = 0; i < 3; ++i) {
		Node n = shape(choose(0, 1, "shape"), choose(0, 1, "which") ? a : b, "k", t[i]);
		auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
		v.mount(build(n), "/S", how);
		merge(sub, n, how);
	}
	auto* s = v.resolve("s");
	CHECK(s != nullptr);
	if (s) equal(*s, sub);
	CHECK(v.root().children().size() == 1);
}
HARNESS(C19_mount_parent) {
	Vfs v;
	v.mount(VfsNode::file("f", own("1")), "/");
	(void) v.mkdir("d");
	std::string p = nm("p");
	int got = 0;
	try { v.mount(VfsNode::file("x", own("2")), p); } catch (VfsNotFoundError const&) { got = 1; } catch (VfsFileExistsError const&) { got = 2; }
	CHECK(got == (low(p[0]) == 'f' ? 2 : low(p[0]) == 'd' ? 0 : 1));
	CHECK((v.find("x") != nullptr) == (got == 0));
}
static Mod plain(Node const& n) { Mod m {n.name, n.file, n.data, {}}; for (auto& k : n.kids) m.kids.push_back(plain(k)); return m; }
// seconds since 1970 of a date, and its DOS form with an arbitrary time of the day
static int64_t date(unsigned k, unsigned zone, uint32_t& dos) {
	static int64_t const day[3] = {11017 /* 2000-03-01 */, 3652 /* 1980-01-01 */, 24836 /* 2037-12-31 */};
	static uint32_t const ymd[3] = {20u << 25 | 3u << 21 | 1u << 16, 0u << 25 | 1u << 21 | 1u << 16, 57u << 25 | 12u << 21 | 31u << 16};
	unsigned h = sym_in<uint8_t>(0, 23, "hour"), m = sym_in<uint8_t>(0, 59, "minute"), s = sym_in<uint8_t>(0, 29, "second");
	dos = ymd[k] | h << 11 | m << 5 | s;
	static int const off[3] = {0, -480, 345};
	zse_set_zone(off[zone]);
	return day[k] * 86400 + h * 3600 + m * 60 + s * 2 - off[zone] * 60;
}
HARNESS(C19_disk_collision) {
	g_id = 0;
	uint32_t dos;
	int64_t t1 = sym<int64_t>("t1"), t2 = date(choose(0, 2, "date"), choose(0, 2, "zone"), dos);
	Node root {"/", false, "", -1, {}}, x = shape(choose(0, 2, "shape1"), "q", "r", t1), y = shape(choose(0, 2, "shape2"), choose(0, 1, "same") ? "Q" : "w", choose(0, 1, "same2") ? "R" : "v", t2);
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	Vfs v;
	v.mount(build(x), "/");
	root.kids.push_back(x);
	Node disk {"/", false, "", t2, {y}};
	auto b = disk_of(plain(disk), dos, choose(0, 2, "version"));
	auto r = Read::from(&b);
	v.mount_disk(r.get(), how);
	merge(root, y, how);
	equal(v.root(), root);
}
HARNESS(C19_disk_merge) {
	g_id = 0;
	uint32_t dos;
	int64_t t1 = sym<int64_t>("t1"), t2 = date(0, 0, dos);
	std::string a = nm("a"), b = nm("b"), c = nm("c");
	ASSUME(!blank(b[0])); ASSUME(!blank(c[0])); ASSUME(low(b[0]) != low(c[0]));
	bool fa = choose(0, 1, "fa"), fb = choose(0, 1, "fb");
	Node root {"/", false, "", -1, {{"D", false, "", t1, {fa ? leaf(a, t1) : shape(1, a, "k", t1)}}}};
	Node disk {"/", false, "", t2, {{"d", false, "", t2, {leaf(c, t2), fb ? leaf(b, t2) : shape(1, b, "k", t2)}}, leaf("e", t2)}};
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	Vfs v;
	v.mount(build(root.kids[0]), "/");
	auto bytes = disk_of(plain(disk), dos);
	auto r = Read::from(&bytes);
	v.mount_disk(r.get(), how);
	for (auto& k : disk.kids) merge(root, k, how);
	equal(v.root(), root);
}
// two disks, one after the other
HARNESS(C19_two_disks) {
	g_id = 0;
	uint32_t d1, d2;
	int64_t t1 = date(0, 0, d1), t2 = date(0, 0, d2);
	std::string a = nm("a"), b = nm("b");
	Node root {"/", false, "", -1, {}}, x {"/", false, "", t1, {leaf(a, t1)}}, y {"/", false, "", t2, {leaf(b, t2)}};
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	Vfs v;
	auto p = disk_of(plain(x), d1), q = disk_of(plain(y), d2);
	auto r = Read::from(&p), s = Read::from(&q);
	v.mount_disk(r.get(), how);
	v.mount_disk(s.get(), how);
	for (auto& k : x.kids) merge(root, k, how);
	for (auto& k : y.kids) merge(root, k, how);
	equal(v.root(), root);
}
