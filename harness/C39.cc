// C39: folders and disk files of the host
//@bound host trees with up to three folder levels, four named files of one to three arbitrary bytes each and an empty folder, mounted at the root or in a folder, with every overwrite policy over existing files; modification times anywhere within two minutes from each of four points in time (1980, 2023, the end of the signed 32-bit seconds in 2038, 2100), with and without fractions of a second; a folder of 20 files; single files; disk archives by path against the same archive in memory, both signatures; missing paths, files instead of folders and folders instead of files; file systems that were moved
//@assume files follow the environment model: an in-memory tree; memory mapping gives the content at that time
//@outside failures of the operating system; links and special files; empty host files; names that differ in letter case only; files that change while they are mounted
#include "vfs.h"
#include <chrono>
#include <filesystem>
#include <fstream>
namespace fs = std::filesystem;
static fs::path host(char const* p) { return fs::path(zse_scratch()) / p; }
static void spit(fs::path const& p, std::string const& s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(s.data(), (std::streamsize) s.size()); }
static void set_time(fs::path const& p, int64_t unix_, bool frac) { fs::last_write_time(p, fs::file_time_type(std::chrono::seconds(unix_ - 6437664000ll)) + std::chrono::milliseconds(frac ? 500 : 0)); }
static int64_t const BASE[] = {315532800, 0x7FFFFFC0, 0x65536000, 4102444000};
static int64_t g_base = 0;
static void era() { g_base = BASE[choose(0, 3, "era")]; }
static int64_t sym_time(char const* n) { return g_base + (sym<uint8_t>(n) & 127); }
static Mod file(std::string n, std::string d) { return Mod {n, true, d, {}}; }
static Mod dir(std::string n, std::vector<Mod> k) { return Mod {n, false, "", k}; }
static Mod sample() {
	return dir("/", {file("one.TXT", sym_raw(1, "one")), dir("Sub", {file("two", sym_raw(3, "two")), dir("deep", {file("three.x", sym_raw(2, "three"))}), dir("empty", {})}), file("zz", sym_raw(2, "zz"))});
}
static void to_host(Mod const& m, fs::path const& at) {
	fs::create_directories(at);
	for (auto& k : m.kids) if (k.file) spit(at / k.name, k.data); else to_host(k, at / k.name);
}
static VfsNode const* at(Vfs const& v, std::string const& p) { return v.resolve(p); }
// the folder's content, not the folder itself, is mounted with names, contents and times
//@entry C39_tree time=200
HARNESS(C39_tree) {
	era();
	Mod m = sample();
	to_host(m, host("src"));
	bool frac = choose(0, 1, "frac"), sub = choose(0, 1, "sub"), slash = choose(0, 1, "slash");
	int64_t t1 = sym_time("t1"), t2 = sym_time("t2"), t3 = sym_time("t3");
	set_time(host("src/one.TXT"), t1, frac); set_time(host("src/Sub/deep/three.x"), t2, frac); set_time(host("src/Sub"), t3, frac);
	unsigned open = zse_open_files();
	Vfs v;
	if (sub) v.mkdir("m/n");
	v.mount_host(slash ? host("src/") : host("src"), sub ? "/M/n" : "/");
	CHECK(zse_open_files() == open);
	Mod want = sub ? dir("/", {dir("m", {dir("n", m.kids)})}) : m;
	compare(v.root(), want);
	std::string p = sub ? "m/n/" : "";
	auto *a = at(v, p + "ONE.txt"), *b = at(v, p + "sub/deep/three.x"), *c = at(v, p + "Sub");
	CHECK(a && b && c);
	if (a && b && c) { CHECK(a->time() == t1); CHECK(b->time() == t2); CHECK(c->time() == t3); }
	fs::remove_all(host("src")); // the content stays
	compare(v.root(), want);
}
// files of the host meet files that are already there
//@entry C39_policy time=200
HARNESS(C39_policy) {
	era();
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	int64_t told = sym_time("told"), tnew = sym_time("tnew");
	bool deep = choose(0, 1, "deep");
	std::string o = sym_raw(2, "old"), n = sym_raw(3, "new");
	fs::create_directories(host("src/sub"));
	spit(host(deep ? "src/sub/F" : "src/F"), n); set_time(host(deep ? "src/sub/F" : "src/F"), tnew, choose(0, 1, "frac"));
	spit(host("src/sub/other"), "o");
	Vfs v;
	v.mkdir("SUB");
	v.mount(VfsNode::file("f", own(o), (std::time_t) told), deep ? "SUB" : "/");
	v.mount(VfsNode::file("keep", own("k"), 5), "SUB");
	v.mount_host(host("src"), "/", how);
	bool repl = how == VfsOverwriteBehavior::ALL || (how == VfsOverwriteBehavior::NEWER && told > tnew) || (how == VfsOverwriteBehavior::OLDER && told < tnew);
	auto* f = at(v, deep ? "sub/f" : "f");
	CHECK(f != nullptr);
	if (f) { CHECK(same(content(*f), repl ? n : o)); CHECK(f->time() == (repl ? tnew : told)); }
	auto* s = at(v, "sub");
	CHECK(s && s->children().size() == (deep ? 3 : 2));
	CHECK(at(v, "sub/keep") && content(*at(v, "sub/keep")) == "k"); CHECK(at(v, "sub/other") && content(*at(v, "sub/other")) == "o");
	CHECK(v.root().children().size() == (deep ? 1 : 2));
}
// many files stay readable while more are added, and after the file system was moved
HARNESS(C39_many) {
	Mod m = dir("/", {});
	std::string last = sym_raw(2, "last");
	for (unsigned i = 0; i < 20; ++i) m.add(file("f" + std::to_string(i), i == 19 || i == 0 ? last : std::string(i + 1, (char) ('a' + i))));
	to_host(m, host("src"));
	auto* a = new Vfs;
	a->mount_host(host("src"), "/");
	compare(a->root(), m);
	auto r = a->find("F19")->open_read();
	Vfs b(std::move(*a));
	compare(b.root(), m);
	delete a;
	compare(b.root(), m);
	spit(host("more"), "more");
	b.mount_host(host("src"), "/"); // once more, over itself
	compare(b.root(), m);
	char x[2];
	CHECK(r->read(x, 2) == 2); CHECK(x[0] == last[0]); CHECK(x[1] == last[1]);
}
// a single file
//@entry C39_file time=200
HARNESS(C39_file) {
	era();
	std::string s = sym_raw(3, "data");
	int64_t t = sym_time("t");
	spit(host("One.txt"), s); spit(host("other"), "x"); set_time(host("One.txt"), t, choose(0, 1, "frac"));
	Vfs v;
	v.mkdir("d");
	bool sub = choose(0, 1, "sub");
	v.mount_host(host("One.txt"), sub ? "d" : "/");
	Mod want = sub ? dir("/", {dir("d", {file("One.txt", s)})}) : dir("/", {dir("d", {}), file("One.txt", s)});
	compare(v.root(), want);
	auto* n = at(v, sub ? "d/one.txt" : "one.txt");
	CHECK(n && n->time() == t);
}
// a disk archive by path is the same as one in memory
HARNESS(C39_disk) {
	Mod m = dir("/", {file("ONE.TXT", sym_raw(1, "one")), dir("SUB", {file("TWO", sym_raw(3, "two")), dir("DEEP", {file("THREE.X", sym_raw(2, "three"))})}), file("ZZ", "")});
	auto b = disk_of(m, 0x4A214000, choose(0, 2, "sig"));
	std::string raw((char const*) b.data(), b.size());
	spit(host("a.vdf"), raw);
	unsigned open = zse_open_files();
	Vfs v, w;
	auto how = (VfsOverwriteBehavior) choose(0, 3, "policy");
	unsigned rel = choose(0, 2, "age"); // of the file in the way
	auto rd = Read::from((std::byte const*) b.data(), b.size());
	w.mount_disk(rd.get());
	auto disk_time = w.resolve("one.txt")->time();
	compare(w.root(), m);
	v.mkdir("Sub");
	v.mount(VfsNode::file("two", own("old"), disk_time + (std::time_t) rel - 1), "Sub");
	v.mount_disk(host("a.vdf"), how);
	CHECK(zse_open_files() == open);
	bool repl = how == VfsOverwriteBehavior::ALL || (how == VfsOverwriteBehavior::NEWER && rel == 2) || (how == VfsOverwriteBehavior::OLDER && rel == 0);
	if (!repl) m.child("SUB")->child("TWO")->data = "old";
	compare(v.root(), m, false);
	auto* f = at(v, "sub/deep/three.x");
	CHECK(f && f->time() == disk_time);
	fs::remove(host("a.vdf"));
	compare(v.root(), m, false);
	Vfs u(std::move(v));
	compare(u.root(), m, false);
}
// a folder becomes a disk archive that holds the same
HARNESS(C39_make_disk) {
	Mod m = sample();
	to_host(m, host("src"));
	Vfs v, u;
	v.mount_host(host("src"), "/");
	{ auto w = Write::to(host("out.vdf")); v.save(w.get(), choose(0, 1, "g2") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1); }
	u.mount_disk(host("out.vdf"));
	m.child("Sub")->drop("empty"); // not representable
	compare(u.root(), m, false);
}
template<class E, class F> static bool raises(F f) { try { f(); } catch (E const&) { return true; } return false; }
// what cannot be mounted is reported, nothing changes and no file stays open
HARNESS(C39_errors) {
	Mod m = dir("/", {file("a", "1"), dir("d", {file("b", "2")})});
	to_host(m, host("src"));
	spit(host("empty"), ""); spit(host("short"), "PSVDSC"); spit(host("zeros"), std::string(400, '\0'));
	Vfs v;
	v.mkdir("x"); v.mount(VfsNode::file("f", own("v"), 1), "x");
	unsigned open = zse_open_files();
	switch (choose(0, 8, "what")) {
	case 0: CHECK(throws([&] { v.mount_host(host("nothing"), "/"); })); break;
	case 1: CHECK(raises<VfsNotFoundError>([&] { v.mount_host(host("src"), "y"); })); break;
	case 2: CHECK(raises<VfsNotFoundError>([&] { v.mount_host(host("src"), "x/y"); })); break;
	case 3: CHECK(raises<VfsFileExistsError>([&] { v.mount_host(host("src"), "x/f"); })); break;
	case 4: CHECK(throws([&] { v.mount_disk(host("nothing.vdf")); })); break;
	case 5: CHECK(throws([&] { v.mount_disk(host("src")); })); break;
	case 6: CHECK(raises<VfsBrokenDiskError>([&] { v.mount_disk(host("empty")); })); break;
	case 7: CHECK(raises<VfsBrokenDiskError>([&] { v.mount_disk(host("short")); })); break;
	default: CHECK(raises<VfsBrokenDiskError>([&] { v.mount_disk(host("zeros")); })); break;
	}
	CHECK(zse_open_files() == open);
	Mod want = dir("/", {dir("x", {file("f", "v")})});
	compare(v.root(), want);
}
