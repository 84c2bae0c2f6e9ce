// C37: whole world files - every section survives, in any order, and the game version is recognised
//@bound worlds with a mesh of 0..2 polygons (3..4 corners), 2 vertices, 1 feature and 0..1 material, a spatial tree of 1 or 3 nodes, 0..2 objects in a tree and 0..1 way network; all geometry values arbitrary bit for bit; three archive formats, both game versions; sections in every order, with and without an unknown section anywhere; the wide-index variant (user XZEN)
//@assume a world ends with the end marker, as the engine writes it; polygon corner counts below 256 and, outside XZEN and Gothic 2, vertex indices below 65536 (what the layout can hold)
//@bound worlds of 300 polygons, 300 vertices, 70 features, 20 materials, 63 nodes, 70 objects nested up to 35 deep and 40 way points with 60 edges
//@outside larger worlds; lightmaps (C15)
#include "bsp.h"
#include <functional>
#include <zenkit/Archive.hh>
#include <zenkit/World.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/world/WayNet.hh>
#include <zenkit/world/VobTree.hh>
static GameVersion const VERS[] = {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2};
struct Spec {
	bool g2 = false, wide = false, big = false; std::vector<Poly> ps; Mesh mesh; BspTree bsp; unsigned nvobs = 0, nested = 0, way = 0;
	float way_pos = 0;
};
static void fill(Spec& s, bool small) {
	Ctx c {ArchiveFormat::BINARY, VERS[s.g2], false};
	unsigned n = small ? 1 : choose(0, 2, "polys");
	for (unsigned i = 0; i < n; ++i) s.ps.push_back(sym_poly(3 + (n > 1 && i == 0), s.wide || s.g2));
	auto& m = s.mesh;
	m.name = "M"; m.bbox.min = v3("min"); m.bbox.max = v3("max");
	m.obb.center = v3("oc"); for (int i = 0; i < 3; ++i) m.obb.axes[i] = v3("oa"); m.obb.half_width = v3("oh");
	m.vertices = {v3("va"), v3("vb")};
	VertexFeature f {}; f.texture = Vec2 {sym<float>("u"), sym<float>("v")}; f.light = sym<uint32_t>("light"); f.normal = v3("fn");
	m.features = {f};
	if (!small && choose(0, 1, "material")) { m.materials.resize(1); fill_material(c, m.materials[0], 1); }
	auto& t = s.bsp;
	t.mode = BspTreeType::OUTDOOR;
	unsigned nodes = small ? 1 : choose(0, 1, "nodes") ? 3 : 1;
	for (unsigned i = 0; i < n; ++i) t.polygon_indices.push_back(i);
	for (unsigned i = 0; i < nodes; ++i) {
		BspNode b; b.plane = Vec4 {}; b.bbox.min = v3("nmin"); b.bbox.max = v3("nmax"); b.polygon_index = 0; b.polygon_count = 0; b.lod = 0;
		if (nodes == 1 || i == 2) b.polygon_count = n;
		if (nodes == 3 && i == 0) { b.front_index = 1; b.back_index = 2; b.plane.x = sym<float>("plane"); if (!s.g2) b.lod = sym<uint8_t>("lod"); }
		if (i) b.parent_index = 0;
		t.nodes.push_back(b);
		if (nodes == 1 || i) t.leaf_node_indices.push_back(i);
	}
	t.light_points = sym_vec<Vec3>(t.leaf_node_indices.size(), "lp");
	t.sectors.resize(1); t.sectors[0].name = "SEC"; t.sectors[0].node_indices = {sym<uint32_t>("sn")};
	s.nvobs = small ? 1 : choose(0, 2, "vobs"); s.nested = s.nvobs == 2 && choose(0, 1, "nested");
	s.way = small ? 1 : choose(0, 1, "way"); s.way_pos = 4.5f;
}
static std::vector<std::shared_ptr<VirtualObject>> vobs(Spec const& s) {
	std::vector<std::shared_ptr<VirtualObject>> v, roots;
	for (unsigned i = 0; i < s.nvobs; ++i) {
		v.push_back(std::make_shared<VSpot>());
		v[i]->vob_name = std::string(1, (char) ('A' + i));
		v[i]->physics_enabled = false;
		if (s.big) { v[i]->vob_name += std::string(i * 3, 'v') + std::to_string(i); if (i % 2) { v[i - 1]->children.push_back(v[i]); continue; } if (i && i < 36) { v[i - 1]->children.push_back(v[i]); continue; } roots.push_back(v[i]); continue; }
		if (i && s.nested) v[0]->children.push_back(v[i]); else roots.push_back(v[i]);
	}
	return roots;
}
static std::shared_ptr<WayNet> waynet(Spec const& s) {
	if (!s.way) return nullptr;
	auto w = std::make_shared<WayNet>();
	auto a = std::make_shared<WayPoint>(), b = std::make_shared<WayPoint>();
	a->name = "WA"; b->name = "WB"; a->water_depth = b->water_depth = 1; a->under_water = b->under_water = false;
	a->position = b->position = a->direction = b->direction = Vec3 {1};
	a->position.x = s.way_pos;
	w->points = {a, b};
	w->edges.emplace_back(a, b);
	for (unsigned i = 2; i < s.way; ++i) {
		auto x = std::make_shared<WayPoint>(*a);
		x->name = "W" + std::to_string(i * 41 % 97); x->position.x = (float) i;
		w->points.push_back(x);
	}
	for (unsigned i = 0; s.way > 2 && i < 59; ++i) w->edges.emplace_back(w->points[i * 7 % s.way], w->points[(i * 3 + 5 + i / 20) % s.way]);
	return w;
}
static void mesh_body(Write* f, Spec const& s) {
	Ctx c {ArchiveFormat::BINARY, VERS[s.g2], false};
	Buf h, x, mt, vt, ft, q, e;
	auto& a = s.mesh;
	h->write_ushort(s.g2 ? 265 : 9); Date d {}; d.save(h.w.get()); h->write(a.name.data(), a.name.size()); h->write_ubyte('\n'); chunk(f, 0xB000, h.v);
	a.bbox.save(x.w.get()); a.obb.save(x.w.get()); chunk(f, 0xB010, x.v);
	{
		auto ar = WriteArchive::to(mt.w.get(), ArchiveFormat::BINARY);
		mt->write_uint((uint32_t) a.materials.size());
		for (auto& m : a.materials) { ar->write_string("", m.name); ar->write_object("%", &m, c.ver); }
		ar->write_header();
	}
	chunk(f, 0xB020, mt.v);
	vt->write_uint((uint32_t) a.vertices.size()); for (auto& v : a.vertices) vt->write_vec3(v); chunk(f, 0xB030, vt.v);
	ft->write_uint((uint32_t) a.features.size()); for (auto& v : a.features) { ft->write_vec2(v.texture); ft->write_uint(v.light); ft->write_vec3(v.normal); } chunk(f, 0xB040, ft.v);
	q->write_uint((uint32_t) s.ps.size()); for (auto& p : s.ps) emit_poly(q.w.get(), p, s.g2, s.wide || s.g2); chunk(f, 0xB050, q.v);
	chunk(f, 0xB060, e.v);
}
static void bsp_body(Write* f, Spec const& s) {
	Buf h, p, t, o, l, e;
	auto& a = s.bsp;
	h->write_ushort(3); h->write_uint((uint32_t) a.mode); chunk(f, 0xC000, h.v);
	p->write_uint((uint32_t) a.polygon_indices.size()); for (auto x : a.polygon_indices) p->write_uint(x); chunk(f, 0xC010, p.v);
	t->write_uint((uint32_t) a.nodes.size()); t->write_uint((uint32_t) a.leaf_node_indices.size()); emit_node(t.w.get(), a, 0, !s.g2); chunk(f, 0xC040, t.v);
	for (auto& x : a.light_points) l->write_vec3(x); chunk(f, 0xC045, l.v);
	o->write_uint(1); o->write(a.sectors[0].name.data(), 3); o->write_ubyte('\n'); o->write_uint(1); o->write_uint(0); o->write_uint(a.sectors[0].node_indices[0]); o->write_uint(0); chunk(f, 0xC050, o.v);
	e->write_ubyte(0); chunk(f, 0xC0FF, e.v);
}
static void verify(Spec const& s, World& w) {
	Ctx c {ArchiveFormat::BINARY, VERS[s.g2], false};
	auto& m = w.world_mesh;
	CHECK(same(m.name, s.mesh.name)); CHECK(same(m.bbox.min, s.mesh.bbox.min)); CHECK(same(m.bbox.max, s.mesh.bbox.max)); same_obb(m.obb, s.mesh.obb);
	CHECK(same_vec(m.vertices, s.mesh.vertices)); CHECK(same_vec(m.features, s.mesh.features));
	CHECK(m.materials.size() == s.mesh.materials.size());
	for (size_t i = 0; i < m.materials.size() && i < s.mesh.materials.size(); ++i) same_material(c, const_cast<Material&>(s.mesh.materials[i]), m.materials[i]);
	CHECK(m.geometry.size() == s.ps.size());
	if (m.geometry.size() == s.ps.size()) { size_t off = 0; for (size_t i = 0; i < s.ps.size(); ++i) { same_poly(m, i, s.ps[i], off, s.g2); off += s.ps[i].vi.size(); } }
	// the visible polygons are turned into triangles (all of them are in a leaf)
	size_t tris = 0;
	for (auto& p : s.ps) if ((p.f1 & 0x63) == 0) {
		CHECK(m.polygons.vertex_indices.size() > tris * 3); if (m.polygons.vertex_indices.size() > tris * 3) CHECK(m.polygons.vertex_indices[tris * 3] == p.vi[0]);
		tris += p.vi.size() - 2;
	}
	CHECK(m.polygons.vertex_indices.size() == tris * 3); CHECK(m.polygons.material_indices.size() == tris);
	same_bsp(s.bsp, w.world_bsp_tree, !s.g2); same_leaves(s.bsp, w.world_bsp_tree);
	auto want = vobs(s);
	if (s.big) {
		std::function<void(std::vector<std::shared_ptr<VirtualObject>> const&, std::vector<std::shared_ptr<VirtualObject>> const&)> cmp = [&](auto const& a, auto const& b) {
			CHECK(a.size() == b.size());
			for (size_t i = 0; i < a.size() && i < b.size(); ++i) { CHECK(same(a[i]->vob_name, b[i]->vob_name)); cmp(a[i]->children, b[i]->children); }
		};
		cmp(want, w.world_vobs);
		auto n = waynet(s);
		CHECK(w.way_net != nullptr); if (!w.way_net) return;
		CHECK(w.way_net->points.size() == n->points.size()); CHECK(w.way_net->edges.size() == n->edges.size());
		if (w.way_net->edges.size() == n->edges.size()) for (size_t i = 0; i < n->edges.size(); ++i) {
			CHECK(same(w.way_net->edges[i].first->name, n->edges[i].first->name)); CHECK(same(w.way_net->edges[i].second->name, n->edges[i].second->name));
			CHECK(w.way_net->edges[i].first->position.x == n->edges[i].first->position.x);
		}
		return;
	}
	CHECK(w.world_vobs.size() == want.size());
	for (size_t i = 0; i < want.size() && i < w.world_vobs.size(); ++i) {
		CHECK(same(w.world_vobs[i]->vob_name, want[i]->vob_name));
		CHECK(w.world_vobs[i]->children.size() == want[i]->children.size());
		if (!want[i]->children.empty() && w.world_vobs[i]->children.size() == 1) CHECK(same(w.world_vobs[i]->children[0]->vob_name, want[i]->children[0]->vob_name));
	}
	CHECK((w.way_net != nullptr) == (s.way != 0));
	if (w.way_net && s.way) {
		CHECK(w.way_net->points.size() == 2); CHECK(w.way_net->edges.size() == 1);
		if (w.way_net->edges.size() == 1) { CHECK(w.way_net->edges[0].first->name == "WA"); CHECK(w.way_net->edges[0].second->name == "WB"); CHECK(w.way_net->edges[0].first->position.x == s.way_pos); }
	}
}
static Poly poly0(unsigned corners, unsigned i) {
	Poly p; p.material = (uint16_t) (i % 20); p.lightmap = (int16_t) -1; p.dist = (float) i; p.normal = Vec3 {0, 1, (float) i}; p.f1 = (uint8_t) (i << 2); p.f2 = 0; p.sector = (int16_t) i;
	for (unsigned k = 0; k < corners; ++k) { p.vi.push_back((i * 3 + k * 17) % 300); p.fi.push_back((i + k) % 70); }
	return p;
}
static void big(Spec& s) {
	Ctx c {ArchiveFormat::BINARY, VERS[s.g2], false};
	s.big = true;
	for (unsigned i = 0; i < 300; ++i) {
		Poly p = i % 97 ? poly0(3 + i % 3, i) : sym_poly(3, s.wide || s.g2);
		p.f1 &= (uint8_t) ~0x63; s.ps.push_back(p);
	}
	auto& m = s.mesh;
	m.name = std::string(90, 'M'); m.bbox.min = v3("min"); m.bbox.max = v3("max");
	m.obb.center = v3("oc"); for (int i = 0; i < 3; ++i) m.obb.axes[i] = v3("oa"); m.obb.half_width = v3("oh");
	for (unsigned i = 0; i < 300; ++i) m.vertices.push_back(i % 50 ? Vec3 {(float) i, (float) i + .5f, -(float) i} : v3("va"));
	for (unsigned i = 0; i < 70; ++i) { VertexFeature f {}; f.texture = Vec2 {(float) i, i % 20 ? .5f : sym<float>("v")}; f.light = i * 70000; f.normal = Vec3 {1, (float) i, 2}; m.features.push_back(f); }
	for (unsigned i = 0; i < 20; ++i) { m.materials.emplace_back(); if (i % 7) c.k = 0; fill_material(c, m.materials.back(), 1); m.materials.back().name = std::string(i * 5, 'N') + std::to_string(i); }
	auto& t = s.bsp;
	t.mode = BspTreeType::OUTDOOR;
	for (unsigned i = 0; i < 300; ++i) t.polygon_indices.push_back(i);
	// a tree of 31 inner nodes and 32 leaves, stored in the order in which it is read
	std::function<uint32_t(int32_t, unsigned)> node = [&](int32_t parent, unsigned depth) {
		uint32_t at = (uint32_t) t.nodes.size();
		BspNode b; b.plane = Vec4 {}; b.bbox.min = Vec3 {(float) at}; b.bbox.max = Vec3 {(float) at, 2, 3}; b.polygon_index = 0; b.polygon_count = 0; b.lod = 0; b.parent_index = parent;
		t.nodes.push_back(b);
		if (depth == 5) {
			unsigned k = (unsigned) t.leaf_node_indices.size();
			t.nodes[at].polygon_index = k * 10 < 300 ? k * 10 : 0; t.nodes[at].polygon_count = k * 10 < 300 ? 10 : 0;
			t.leaf_node_indices.push_back(at);
		} else {
			t.nodes[at].plane.x = (float) at; if (!s.g2) t.nodes[at].lod = (uint8_t) at;
			uint32_t f = node((int32_t) at, depth + 1); t.nodes[at].front_index = (int32_t) f;
			uint32_t k = node((int32_t) at, depth + 1); t.nodes[at].back_index = (int32_t) k;
		}
		return at;
	};
	node(-1, 0);
	t.light_points = sym_vec<Vec3>(t.leaf_node_indices.size(), "lp");
	t.sectors.resize(1); t.sectors[0].name = "SEC"; t.sectors[0].node_indices = {sym<uint32_t>("sn")};
	s.nvobs = 70; s.way = 40; s.way_pos = 4.5f;
}
// written by the library
template <int FM, bool BIG = false> static void saved() {
	Spec s; s.g2 = choose(0, 1, "g2");
	if (BIG) big(s); else fill(s, false);
	auto o = std::make_shared<World>();
	{ // polygons enter the mesh through its loader: flags have no other public encoding
		Buf b; mesh_body(b.w.get(), s);
		auto r = Read::from(&b.v);
		o->world_mesh.load(r.get(), s.wide);
	}
	o->world_bsp_tree = s.bsp;
	o->world_vobs = vobs(s);
	o->way_net = waynet(s);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[FM]);
	a->write_object(std::static_pointer_cast<Object>(o), VERS[s.g2]);
	a->write_header();
	auto rd = Read::from(&buf);
	World p;
	if (choose(0, 1, "detect")) CHECK(p.load(rd.get()) == VERS[s.g2]); else p.load(rd.get(), VERS[s.g2]);
	verify(s, p);
}
//@entry C37_saved_binary time=150
HARNESS(C37_saved_binary) { saved<0>(); }
//@entry C37_saved_binsafe time=150
HARNESS(C37_saved_binsafe) { saved<1>(); }
//@entry C37_saved_ascii time=150
HARNESS(C37_saved_ascii) { saved<2>(); }
// written by hand, sections in any order
static void section(WriteArchive& a, unsigned which, Spec const& s) {
	switch (which) {
	case 0: {
		a.write_object_begin("MeshAndBsp", "", 0);
		Write* raw = a.get_stream();
		Buf body; mesh_body(body.w.get(), s); bsp_body(body.w.get(), s);
		raw->write_uint(s.g2 ? 0x4090000 : 0x2090000); raw->write_uint((uint32_t) body.v.size());
		raw->write(body.v.data(), body.v.size());
		a.write_object_end();
		break;
	}
	case 1: {
		a.write_object_begin("VobTree", "", 0);
		auto v = vobs(s);
		a.write_int("childs0", (int) v.size());
		for (auto& x : v) { a.write_object(std::static_pointer_cast<Object>(x), VERS[s.g2]); a.write_int("childs1", (int) x->children.size()); for (auto& y : x->children) { a.write_object(std::static_pointer_cast<Object>(y), VERS[s.g2]); a.write_int("childs2", 0); } }
		a.write_object_end();
		break;
	}
	case 2:
		a.write_object_begin("WayNet", "", 0);
		if (auto n = waynet(s)) a.write_object(std::static_pointer_cast<Object>(n), VERS[s.g2]);
		else a.write_object(nullptr, VERS[s.g2]);
		a.write_object_end();
		break;
	default:
		a.write_object_begin("Mystery", "", 0);
		a.write_string("what", "ever"); a.write_int("n", -7);
		a.write_object_begin("inner", "zCInner", 7); a.write_float("f", 1.5f); a.write_object_end();
		a.write_object_end();
	}
}
static unsigned const PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
template <int FM> static void ordered() {
	Spec s; s.g2 = choose(0, 1, "g2");
	fill(s, true);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[FM]);
	a->write_object_begin("%", "oCWorld:zCWorld", 64513);
	unsigned order = choose(0, 5, "order"), strange = choose(0, 3, "strange");
	for (unsigned i = 0; i < 3; ++i) { if (strange == i) section(*a, 3, s); section(*a, PERM[order][i], s); }
	a->write_object_begin("EndMarker", "", 0); a->write_object_end();
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	World p;
	if (choose(0, 1, "detect")) CHECK(p.load(rd.get()) == VERS[s.g2]); else p.load(rd.get(), VERS[s.g2]);
	verify(s, p);
}
//@entry C37_order_binary time=150
HARNESS(C37_order_binary) { ordered<0>(); }
//@entry C37_order_binsafe time=150
HARNESS(C37_order_binsafe) { ordered<1>(); }
//@entry C37_order_ascii time=150
HARNESS(C37_order_ascii) { ordered<2>(); }
// third-party exporter with 32-bit vertex indices in the Gothic 1 layout
//@entry C37_xzen time=120
HARNESS(C37_xzen) {
	static char const* const USERS[] = {"XZEN", "XZE", "xzen", "XZENA", ""};
	unsigned user = choose(0, 4, "user");
	Spec s; s.wide = user == 0;
	fill(s, true);
	unsigned f = choose(0, 2, "fmt");
	setenv("USER", USERS[user], 1);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	a->write_object_begin("%", "oCWorld:zCWorld", 64513);
	for (unsigned i = 0; i < 3; ++i) section(*a, i, s);
	a->write_object_begin("EndMarker", "", 0); a->write_object_end();
	a->write_object_end();
	a->write_header();
	unsetenv("USER");
	auto rd = Read::from(&buf);
	World p;
	CHECK(p.load(rd.get()) == GameVersion::GOTHIC_1);
	verify(s, p);
}
HARNESS(C37_large_binary) { saved<0, true>(); }
HARNESS(C37_large_binsafe) { saved<1, true>(); }
HARNESS(C37_large_ascii) { saved<2, true>(); }
