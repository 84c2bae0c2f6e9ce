// C18: the virtual file system is a case-insensitive tree with unique names
//@bound names of 0..3 arbitrary bytes (no path separator, no NUL), directories of up to 3 entries, trees of depth up to 3; every sequence of up to 3 create/mkdir/remove operations over two arbitrary names, and every query name of up to 3 bytes
//@bound a directory of 300 entries with fixed names of up to 60 characters, looked up in every spelling and emptied again; paths of 40 levels
//@outside other longer names and bigger trees; names holding NUL; host files (C39)
#include "vfs.h"
static VfsNode mkfile(std::string const& name, std::string const& data) { return VfsNode::file(name, own(data)); }

//@entry C18_create_lookup time=200
// one directory: the entry last created under a name is found under every spelling of the name, and under no other name
HARNESS(C18_create_lookup) {
	VfsNode d = VfsNode::directory("d");
	Mod m {"d", false, "", {}};
	unsigned n = choose(1, 3, "entries");
	for (unsigned i = 0; i < n; ++i) {
		std::string name = sym_name(choose(1, i == 2 ? 1 : 2, "length"), "name"), data(1, (char) ('0' + i));
		auto* p = d.create(mkfile(name, data));
		CHECK(p != nullptr && same(p->name(), name) && same(content(*p), data));
		m.add({name, true, data, {}});
	}
	compare(d, m);
	std::string q = sym_name(choose(1, 2, "query_length"), "query");
	auto* c = std::as_const(d).child(q);
	Mod* want = m.child(q);
	CHECK((c != nullptr) == (want != nullptr));
	CHECK(d.child(q) == c);
	if (c && want) CHECK(same(content(*c), want->data));
}
// trailing white space never matters
HARNESS(C18_trailing_blank) {
	std::string name = sym_raw(choose(1, 3, "length"), "name");
	for (char c : name) ASSUME((c != '/') & (c != 0));
	ASSUME(!blank(name[0]));
	Vfs v;
	bool mk = choose(0, 1, "mkdir");
	if (mk) (void) v.mkdir(name);
	else v.mount(mkfile(name, "x"), "/");
	CHECK(v.resolve(name) != nullptr);
	CHECK(v.resolve(trimmed(name)) != nullptr);
	CHECK(v.resolve(trimmed(name) + " ") != nullptr);
	CHECK(v.find(name) != nullptr);
	if (mk) (void) v.mkdir(name);
	else v.mount(mkfile(name, "x"), "/");
	CHECK(v.root().children().size() == 1);
	CHECK(v.remove(name));
	CHECK(v.root().children().size() == 0);
}
HARNESS(C18_remove) {
	VfsNode d = VfsNode::directory("d");
	Mod m {"d", false, "", {}};
	for (unsigned i = 0; i < 3; ++i) {
		std::string name = sym_name(1, "name"), data(1, (char) ('0' + i));
		d.create(mkfile(name, data));
		m.add({name, true, data, {}});
	}
	std::string q = sym_name(choose(1, 2, "query_length"), "query");
	bool was = m.drop(q);
	CHECK(d.remove(q) == was);
	compare(d, m);
	CHECK(!d.remove(q));
}
// histories over the tree: two names, paths of depth 1 or 2
static std::string path(std::string const* n, unsigned k) {
	switch (k) {
	case 0: return n[0];
	case 1: return n[0] + "/" + n[1];
	case 2: return "/" + n[1] + "/";
	default: return "//" + n[1] + "///" + n[0];
	}
}
static void parts(std::string const* n, unsigned k, std::vector<std::string>& p) {
	if (k == 0) p = {n[0]};
	else if (k == 1) p = {n[0], n[1]};
	else if (k == 2) p = {n[1]};
	else p = {n[1], n[0]};
}
static Mod* walk(Mod& m, std::vector<std::string> const& p, size_t n) {
	Mod* c = &m;
	for (size_t i = 0; i < n && c; ++i) c = c->file ? nullptr : c->child(p[i]);
	return c;
}
static void history(unsigned ops) {
	std::string n[2] = {sym_name(1, "name0"), sym_name(1, "name1")};
	Vfs v;
	Mod m {"/", false, "", {}};
	for (unsigned i = 0; i < ops; ++i) {
		unsigned op = choose(0, 2, "op"), k = choose(0, 3, "path");
		std::vector<std::string> p;
		parts(n, k, p);
		if (op == 0) { // mkdir
			Mod* c = &m;
			bool fail = false;
			for (auto& s : p) {
				Mod* x = c->child(s);
				if (x && x->file) { fail = true; break; }
				c = x ? x : c->add({s, false, "", {}});
			}
			bool threw = false;
			VfsNode* got = nullptr;
			try { got = &v.mkdir(path(n, k)); } catch (VfsFileExistsError const&) { threw = true; }
			CHECK(threw == fail);
			if (got && !fail) CHECK(got == v.resolve(path(n, k)) && same(got->name(), c->name));
		} else if (op == 1) { // put a file into the parent
			std::string data(1, (char) ('0' + i));
			Mod* c = walk(m, p, p.size() - 1);
			if (!c || c->file) continue;
			VfsNode* d = p.size() == 1 ? const_cast<VfsNode*>(&v.root()) : v.resolve(p[0]);
			CHECK(d != nullptr);
			if (!d) return;
			d->create(mkfile(p.back(), data));
			c->add({p.back(), true, data, {}});
		} else {
			if (k == 2) continue; // a path with a trailing separator names no entry to remove
			Mod* c = walk(m, p, p.size() - 1);
			bool was = c && !c->file && c->drop(p.back());
			CHECK(v.remove(path(n, k)) == was);
		}
	}
	compare(v.root(), m);
	for (unsigned k = 0; k < 4; ++k) {
		std::vector<std::string> p;
		parts(n, k, p);
		Mod* want = walk(m, p, p.size());
		auto* got = std::as_const(v).resolve(path(n, k));
		CHECK((got != nullptr) == (want != nullptr));
		if (got && want) { CHECK(same(got->name(), want->name)); CHECK((got->type() == VfsNodeType::FILE) == want->file); if (want->file && got->type() == VfsNodeType::FILE) CHECK(same(content(*got), want->data)); }
	}
}
HARNESS(C18_history2) { history(2); }
//@entry C18_history3 time=150
HARNESS(C18_history3) { history(3); }
// resolving and searching in a fixed shape with arbitrary names
HARNESS(C18_resolve) {
	std::string a = sym_name(1, "a"), b = sym_name(1, "b"), c = sym_name(choose(1, 2, "length"), "c");
	Vfs v;
	VfsNode* da = &v.mkdir(a);
	da->create(mkfile(b, "1"));
	VfsNode* dc = da->create(VfsNode::directory(c));
	bool replaced = ieq(b, c);
	dc->create(mkfile(a, "2"));
	std::string q[3] = {sym_name(1, "qa"), sym_name(choose(1, 2, "length2"), "qb"), sym_name(1, "qc")};
	unsigned depth = choose(0, 3, "depth");
	std::string p;
	for (unsigned i = 0; i < depth; ++i) p += (i || choose(0, 1, "leading") ? "/" : "") + q[i];
	if (choose(0, 1, "trailing")) p += "/";
	int want = -1; // 0 root 1 a 2 file b 3 dir c 4 file
	if (depth == 0) want = 0;
	else if (ieq(q[0], a)) {
		if (depth == 1) want = 1;
		else if (ieq(q[1], c)) { if (depth == 2) want = 3; else if (ieq(q[2], a)) want = 4; }
		else if (!replaced && ieq(q[1], b)) { if (depth == 2) want = 2; }
	}
	auto* got = v.resolve(p);
	CHECK((got != nullptr) == (want >= 0));
	if (!got) return;
	CHECK((got->type() == VfsNodeType::FILE) == (want == 2 || want == 4));
	if (want == 0) CHECK(got == &v.root());
	if (want == 1) CHECK(got == da);
	if (want == 3) CHECK(got == dc);
	if (want == 2) CHECK(same(content(*got), std::string("1")));
	if (want == 4) CHECK(same(content(*got), std::string("2")));
}
HARNESS(C18_find) {
	std::string n[4];
	for (auto& s : n) s = sym_name(1, "name");
	Vfs v;
	VfsNode* a = &v.mkdir(n[0]);
	VfsNode* b = a->create(VfsNode::directory(n[1]));
	b->create(mkfile(n[2], "1"));
	unsigned extra = choose(0, 1, "second_branch");
	if (extra) { VfsNode* r = const_cast<VfsNode*>(&v.root()); if (!ieq(n[0], n[3])) r->create(VfsNode::directory(n[3])); }
	std::string q = sym_name(choose(1, 2, "length"), "query");
	bool want = ieq(q, n[0]) || ieq(q, n[1]) || ieq(q, n[2]) || (extra && ieq(q, n[3]));
	auto* got = v.find(q);
	CHECK((got != nullptr) == want);
	if (got) CHECK(ieq(got->name(), q));
}
// a path below a file names nothing
HARNESS(C18_below_file) {
	std::string f = sym_name(1, "file"), x = sym_name(choose(0, 1, "length"), "below");
	Vfs v;
	v.mount(mkfile(f, "1"), "/");
	CHECK((v.resolve(f + "/" + x) != nullptr) == x.empty());
	CHECK(!v.remove(f + "/" + x));
	CHECK(v.resolve(f) != nullptr);
	if (!x.empty()) { bool threw = false; try { (void) v.mkdir(f + "/" + x); } catch (VfsFileExistsError const&) { threw = true; } CHECK(threw); }
	CHECK(v.root().children().size() == 1);
}
// nodes are values: copies and assignments keep the contents of all of them
HARNESS(C18_node_values) {
	std::string n[2] = {sym_name(1, "a"), sym_name(1, "b")};
	VfsNode a = mkfile(n[0], "1"), b = mkfile(n[1], "22");
	unsigned how = choose(0, 3, "how");
	if (how == 0) { a = b; CHECK(same(content(a), std::string("22"))); CHECK(same(content(b), std::string("22"))); }
	if (how == 1) { a = std::move(b); CHECK(same(content(a), std::string("22"))); }
	if (how == 2) { VfsNode c = a; a = b; CHECK(same(content(c), std::string("1"))); CHECK(same(content(a), std::string("22"))); b = c; CHECK(same(content(b), std::string("1"))); }
	if (how == 3) { VfsNode d = VfsNode::directory("d"); d.create(a); d.create(b); VfsNode e = d; d = a; CHECK(same(content(d), std::string("1"))); CHECK(e.children().size() == (ieq(n[0], n[1]) ? 1u : 2u)); if (auto* c = e.child(n[1])) CHECK(same(content(*c), std::string("22"))); }
}
// many entries in one directory, long names, deep paths
static std::string entry(unsigned i, bool upper) {
	std::string s = (i % 3 ? "Texture_" : "\xdcnit-") + std::to_string(i * 7919 % 1000) + (i % 5 == 2 ? std::string(45, 'x') + "._" : "") + (i % 4 == 1 ? " Z" : "");
	if (upper) for (auto& c : s) if (c >= 'a' && c <= 'z') c = (char) (c - 32);
	return s;
}
HARNESS(C18_many) {
	Vfs v;
	unsigned const n = 300;
	auto* d = &v.mkdir("a/b");
	for (unsigned i = 0; i < n; ++i) d->create(mkfile(entry(i, i % 2), std::to_string(i)));
	std::string two = "T5";
	d->create(mkfile("q", "q"));
	CHECK(d->children().size() == n + 1);
	CHECK(d->child(two) == nullptr);
	d->create(mkfile(two, "two"));
	for (unsigned i = 0; i < n; ++i) {
		auto* c = d->child(entry(i, i % 3));
		CHECK(c != nullptr);
		if (!c) return;
		CHECK(c->name() == entry(i, i % 2)); CHECK(content(*c) == std::to_string(i));
		CHECK(v.resolve("A/b/" + entry(i, true)) == c);
	}
	auto* t = d->child(two);
	CHECK(t != nullptr && same(t->name(), two));
	for (unsigned i = 0; i < n; ++i) if (i % 7 != 3) { CHECK(v.remove("a/B/" + entry(i, i % 5 == 0))); }
	for (unsigned i = 0; i < n; ++i) CHECK((d->child(entry(i, false)) != nullptr) == (i % 7 == 3));
	CHECK(d->child(two) != nullptr);
}
HARNESS(C18_deep) {
	Vfs v;
	std::string p, q;
	std::string s = sym_name(1, "name");
	for (unsigned i = 0; i < 40; ++i) { std::string n = i == 20 ? s : "Dir" + std::to_string(i); p += (i ? "/" : "") + n; q += "//" + (i == 20 ? s : "dIR" + std::to_string(i)) + " "; }
	auto* d = &v.mkdir(p);
	CHECK(&v.mkdir(q) == d);
	d->create(mkfile("leaf", "1"));
	CHECK(v.resolve(q) == d); CHECK(v.resolve(q + "/LEAF") == d->child("leaf")); CHECK(v.find("Leaf") == d->child("leaf"));
	CHECK(v.root().children().size() == 1);
	CHECK(v.remove(p)); CHECK(v.resolve(p) == nullptr); CHECK(v.find("leaf") == nullptr);
}
