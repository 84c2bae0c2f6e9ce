// C11: object hierarchies and way networks survive save and load
//@bound every rooted tree of 1..5 objects (every parent choice, child order by construction), objects of two kinds with distinct names; every tree and every forest of 4 with one object of a class the library does not know
//@bound way networks of 1..3 waypoints with every choice of free points and every list of 0..2 edges between them (self-edges included), attributes arbitrary (fixed in ASCII), three formats, both game versions
//@bound fixed larger shapes: 300 children of one object, 60 levels, an irregular tree of 280 objects; 270 waypoints with 400 edges
//@outside other larger trees and networks; waypoints that are neither free nor on an edge (the format does not store them)
#include "vob.h"
#include <zenkit/World.hh>
#include <zenkit/world/VobTree.hh>
#include <zenkit/world/WayNet.hh>

static void compare(VirtualObject& a, VirtualObject& b) {
	CHECK(a.get_object_type() == b.get_object_type());
	CHECK(a.vob_name == b.vob_name);
	CHECK(a.children.size() == b.children.size());
	for (size_t i = 0; i < a.children.size() && i < b.children.size(); ++i) compare(*a.children[i], *b.children[i]);
}
// shape: 0 every tree, 1 many children, 2 a deep chain, 3 a fixed irregular tree
template <int FM> static void tree(unsigned max, int shape = 0) {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	unsigned n = shape ? max : choose(1, max, "n");
	std::vector<std::shared_ptr<VirtualObject>> o;
	for (unsigned i = 0; i < n; ++i) {
		o.push_back(i % 2 ? std::static_pointer_cast<VirtualObject>(std::make_shared<VItem>()) : std::make_shared<VirtualObject>());
		o[i]->vob_name = std::string(1, (char) ('A' + i));
		if (shape) o[i]->vob_name = std::to_string(i) + (i % 9 == 4 ? std::string(300, 'v') : "");
		if (i) o[shape == 1 ? 0 : shape == 2 ? i - 1 : shape == 3 ? i * 5 / 7 % i : choose(0, i - 1, "parent")]->children.push_back(o[i]);
	}
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), c.fmt);
	a->write_object_begin("VobTree", "", 0);
	save_vob_tree(*a, c.ver, o[0]);
	a->write_int("tail", 77);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	auto p = parse_vob_tree(*r, c.ver);
	CHECK(p != nullptr);
	CHECK(r->read_int() == 77);
	CHECK(r->read_object_end());
	compare(*o[0], *p);
}
//@entry C11_tree_binary time=120
HARNESS(C11_tree_binary) { tree<0>(5); }
//@entry C11_tree_binsafe time=120
HARNESS(C11_tree_binsafe) { tree<1>(5); }
//@entry C11_tree_ascii time=120
HARNESS(C11_tree_ascii) { tree<2>(5); }
// 300 children; 60 levels; an irregular tree of 280 objects
template <int FM> static void big() { int s = (int) choose(1, 3, "shape"); tree<FM>(s == 1 ? 301 : s == 2 ? 60 : 280, s); }
HARNESS(C11_big_binary) { big<0>(); }
HARNESS(C11_big_binsafe) { big<1>(); }
HARNESS(C11_big_ascii) { big<2>(); }
//@entry C11_tree6_binary tier=thorough
HARNESS(C11_tree6_binary) { tree<0>(6); }
//@entry C11_tree6_binsafe tier=thorough
HARNESS(C11_tree6_binsafe) { tree<1>(6); }

// a subtree below an object of an unknown class is left out, everything else stays
static void put_tree(WriteArchive& a, GameVersion ver, std::vector<std::vector<unsigned>> const& kids, std::vector<std::shared_ptr<VirtualObject>>& o, unsigned i, unsigned bad) {
	if (i == bad) { a.write_object_begin("%", "zCUnknown:zCVob", 1); a.write_int("x", 5); a.write_object_end(); }
	else a.write_object(std::static_pointer_cast<Object>(o[i]), ver);
	a.write_int("childs", (int) kids[i].size());
	for (unsigned k : kids[i]) put_tree(a, ver, kids, o, k, bad);
}
template <int FM> static void unknown() {
	Ctx c {FMT[FM], GameVersion::GOTHIC_2, false};
	unsigned const n = 4;
	std::vector<std::shared_ptr<VirtualObject>> o;
	std::vector<std::vector<unsigned>> kids(n);
	unsigned bad = choose(1, n - 1, "bad");
	bool gone[n] = {};
	for (unsigned i = 0; i < n; ++i) {
		o.push_back(std::make_shared<VirtualObject>());
		o[i]->vob_name = std::string(1, (char) ('A' + i));
		if (i) {
			unsigned p = choose(0, i - 1, "parent");
			kids[p].push_back(i);
			gone[i] = i == bad || gone[p];
			if (!gone[i]) o[p]->children.push_back(o[i]);
		}
	}
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), c.fmt);
	a->write_object_begin("VobTree", "", 0);
	put_tree(*a, c.ver, kids, o, 0, bad);
	a->write_int("tail", 77);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	auto p = parse_vob_tree(*r, c.ver);
	CHECK(p != nullptr);
	CHECK(r->read_int() == 77);
	compare(*o[0], *p);
}
HARNESS(C11_unknown_binary) { unknown<0>(); }
HARNESS(C11_unknown_binsafe) { unknown<1>(); }
HARNESS(C11_unknown_ascii) { unknown<2>(); }

template <int FM> static void waynet(unsigned maxEdges, bool big = false) {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	Fill f {c};
	Same s {c};
	auto o = std::make_shared<WayNet>();
	unsigned n = big ? 270 : choose(1, 3, "n"), m = big ? 400 : choose(0, maxEdges, "m");
	bool needed[270] = {};
	for (unsigned i = 0; i < n; ++i) {
		auto p = std::make_shared<WayPoint>();
		p->name = std::string("WP_") + (char) ('A' + i % 26) + std::to_string(i);
		f(p->water_depth); f(p->under_water); f(p->position); f(p->direction);
		p->free_point = big ? i % 3 != 1 : choose(0, 1, "free");
		needed[i] = !p->free_point;
		o->points.push_back(p);
	}
	for (unsigned i = 0; i < m; ++i) {
		unsigned x = big ? i * 31 % n : choose(0, n - 1, "l"), y = big ? (i * 17 + i / n) % n : choose(0, n - 1, "r");
		needed[x] = needed[y] = false;
		o->edges.emplace_back(o->points[x], o->points[y]);
	}
	for (unsigned i = 0; i < n; ++i) ASSUME(!needed[i]);
	auto p = round_trip(c, o);
	CHECK(p->points.size() == n);
	CHECK(p->edges.size() == m);
	auto find = [&](std::string const& name) -> std::shared_ptr<WayPoint> {
		std::shared_ptr<WayPoint> hit;
		for (auto& q : p->points) if (q->name == name) { CHECK(hit == nullptr); hit = q; }
		return hit;
	};
	for (auto& q : o->points) {
		auto z = find(q->name);
		CHECK(z != nullptr);
		if (!z) return;
		CHECK(z->free_point == q->free_point);
		s(q->water_depth, z->water_depth); s(q->under_water, z->under_water); s(q->position, z->position); s(q->direction, z->direction);
	}
	for (unsigned i = 0; i < m && i < p->edges.size(); ++i) {
		CHECK(p->edges[i].first == find(o->edges[i].first->name));
		CHECK(p->edges[i].second == find(o->edges[i].second->name));
	}
}
//@entry C11_waynet_binary time=120
HARNESS(C11_waynet_binary) { waynet<0>(2); }
//@entry C11_waynet_binsafe time=120
HARNESS(C11_waynet_binsafe) { waynet<1>(2); }
//@entry C11_waynet_ascii time=120
HARNESS(C11_waynet_ascii) { waynet<2>(2); }
// 270 waypoints, 400 edges
HARNESS(C11_waynet_big_binary) { waynet<0>(2, true); }
HARNESS(C11_waynet_big_binsafe) { waynet<1>(2, true); }
HARNESS(C11_waynet_big_ascii) { waynet<2>(2, true); }
//@entry C11_waynet3_binary tier=thorough
HARNESS(C11_waynet3_binary) { waynet<0>(3); }

// through the world: roots in order, way network attached
template <int FM> static void world() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, true};
	auto o = std::make_shared<World>();
	unsigned n = choose(0, 3, "n");
	std::vector<std::shared_ptr<VirtualObject>> v;
	for (unsigned i = 0; i < n; ++i) {
		v.push_back(std::make_shared<VSpot>());
		v[i]->vob_name = std::string(1, (char) ('A' + i));
		v[i]->physics_enabled = false;
		unsigned p = choose(0, i, "parent");
		if (p == i) o->world_vobs.push_back(v[i]); else v[p]->children.push_back(v[i]);
	}
	if (choose(0, 1, "waynet")) {
		o->way_net = std::make_shared<WayNet>();
		auto a = std::make_shared<WayPoint>(), b = std::make_shared<WayPoint>();
		a->name = "A"; b->name = "B"; a->water_depth = b->water_depth = 1; a->under_water = b->under_water = false;
		a->position = b->position = a->direction = b->direction = Vec3 {1};
		o->way_net->points = {a, b};
		o->way_net->edges.emplace_back(a, b);
	}
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to_save(w.get(), c.fmt);
	a->write_object(std::static_pointer_cast<Object>(o), c.ver);
	a->write_header();
	auto rd = Read::from(&buf);
	World p;
	p.load(rd.get(), c.ver);
	CHECK(p.world_vobs.size() == o->world_vobs.size());
	for (size_t i = 0; i < p.world_vobs.size() && i < o->world_vobs.size(); ++i) compare(*o->world_vobs[i], *p.world_vobs[i]);
	CHECK((p.way_net != nullptr) == (o->way_net != nullptr));
	if (p.way_net && o->way_net) {
		CHECK(p.way_net->points.size() == 2);
		CHECK(p.way_net->edges.size() == 1);
		CHECK(p.way_net->edges[0].first->name == "A" && p.way_net->edges[0].second->name == "B");
	}
}
HARNESS(C11_world_binary) { world<0>(); }
HARNESS(C11_world_binsafe) { world<1>(); }
HARNESS(C11_world_ascii) { world<2>(); }
// several roots, one object of an unknown class anywhere, followed by another section
template <int FM> static void forest() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	unsigned const n = 4;
	unsigned bad = choose(0, n, "bad");
	std::vector<std::shared_ptr<VirtualObject>> o, roots;
	std::vector<std::vector<unsigned>> kids(n);
	std::vector<unsigned> top;
	bool gone[n] = {};
	for (unsigned i = 0; i < n; ++i) {
		o.push_back(std::make_shared<VirtualObject>());
		o[i]->vob_name = std::string(1, (char) ('A' + i));
		unsigned p = choose(0, i, "parent");
		gone[i] = i == bad || (p != i && gone[p]);
		if (p == i) top.push_back(i); else kids[p].push_back(i);
		if (!gone[i]) { if (p == i) roots.push_back(o[i]); else o[p]->children.push_back(o[i]); }
	}
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), c.fmt);
	a->write_object_begin("%", "oCWorld:zCWorld", 64513);
	a->write_object_begin("VobTree", "", 0);
	a->write_int("childs", (int) top.size());
	for (unsigned i : top) put_tree(*a, c.ver, kids, o, i, bad);
	a->write_object_end();
	a->write_object_begin("WayNet", "", 0);
	auto net = std::make_shared<WayNet>();
	a->write_object(net, c.ver);
	a->write_object_end();
	a->write_object_begin("EndMarker", "", 0); a->write_object_end();
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	World p;
	p.load(rd.get(), c.ver);
	CHECK(p.world_vobs.size() == roots.size());
	for (size_t i = 0; i < p.world_vobs.size() && i < roots.size(); ++i) compare(*roots[i], *p.world_vobs[i]);
	CHECK(p.way_net != nullptr);
}
HARNESS(C11_forest_binary) { forest<0>(); }
HARNESS(C11_forest_binsafe) { forest<1>(); }
HARNESS(C11_forest_ascii) { forest<2>(); }
