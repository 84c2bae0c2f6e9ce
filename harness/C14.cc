// C14: skeletons, skins and models are restored exactly
//@bound skeletons of 0..3 nodes with arbitrary parents and transforms and names of 0..2 bytes; skins of 0..2 positions with 0..2 weights each, 0..2 wedge normals, nodes and boxes; models of 0..2 skins and 0..2 attachments (names from a fixed list, as keys of a hash map); every number arbitrary bit for bit; both game versions; stored by the library and by an independent encoder (with a source chunk, unknown chunks and the skin chunk's original length quirk)
//@bound a skeleton of 300 nodes; skins of 300 positions and normals, one vertex with 290 weights; a model of 20 skins and 300 attachments
//@outside more elements; equal attachment names; attachment names beginning with blanks
#include "mesh.h"
#include <zenkit/Model.hh>
static GameVersion ver() { return choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1; }
static void sym_date(Date& d) { d.year = sym<uint32_t>("y"); d.month = sym<uint16_t>("mo"); d.day = sym<uint16_t>("d"); d.hour = sym<uint16_t>("h"); d.minute = sym<uint16_t>("mi"); d.second = sym<uint16_t>("s"); }
static void same_date(Date const& a, Date const& b) { CHECK(a.year == b.year); CHECK(a.month == b.month); CHECK(a.day == b.day); CHECK(a.hour == b.hour); CHECK(a.minute == b.minute); CHECK(a.second == b.second); }
static void fill_hier(ModelHierarchy& h, unsigned n, unsigned k) {
	h.nodes.resize(n);
	for (unsigned i = 0; i < n; ++i) {
		h.nodes[i].name = g_more && i % 50 == 7 ? std::string(300, 'n') : sym_line((i + k) % 3, "node");
		h.nodes[i].parent_index = sym<int16_t>("parent");
		for (int r = 0; r < 4; ++r) for (int q = 0; q < 4; ++q) h.nodes[i].transform[r][q] = sym<float>("tf");
	}
	h.bbox.min = v3("bmin"); h.bbox.max = v3("bmax"); h.collision_bbox.min = v3("cmin"); h.collision_bbox.max = v3("cmax");
	h.root_translation = v3("root"); h.checksum = sym<uint32_t>("sum"); sym_date(h.source_date); h.source_path = g_more ? std::string(700, 'p') + sym_line(1, "path") : sym_line((k + 1) % 3, "path");
}
static void same_hier(ModelHierarchy const& a, ModelHierarchy const& b) {
	CHECK(a.nodes.size() == b.nodes.size());
	if (a.nodes.size() != b.nodes.size()) return;
	for (size_t i = 0; i < a.nodes.size(); ++i) {
		CHECK(same(a.nodes[i].name, b.nodes[i].name)); CHECK(a.nodes[i].parent_index == b.nodes[i].parent_index);
		CHECK(same(a.nodes[i].transform, b.nodes[i].transform));
	}
	CHECK(same(a.bbox.min, b.bbox.min)); CHECK(same(a.bbox.max, b.bbox.max));
	CHECK(same(a.collision_bbox.min, b.collision_bbox.min)); CHECK(same(a.collision_bbox.max, b.collision_bbox.max));
	CHECK(same(a.root_translation, b.root_translation)); CHECK(a.checksum == b.checksum);
	same_date(a.source_date, b.source_date); CHECK(same(a.source_path, b.source_path));
}
static void fill_skin(Ctx& c, SoftSkinMesh& s, unsigned k) {
	fill_mrm(c, s.mesh, k % 2, k);
	unsigned n = k % 3 ? k % 3 + g_more : 0;
	s.mesh.positions.resize(n);
	for (auto& p : s.mesh.positions) p = v3("skinpos");
	s.weights.resize(n);
	for (unsigned i = 0; i < n; ++i) {
		s.weights[i].resize(g_more && i == 1 ? 290 : (i + k) % 3);
		for (auto& w : s.weights[i]) { w.weight = sym<float>("w"); w.position = v3("wp"); w.node_index = sym<uint8_t>("wn"); }
	}
	s.wedge_normals = sym_vec<SoftSkinWedgeNormal>((k + 1) % 3, "wnrm");
	s.nodes = sym_vec<int32_t>((k + 2) % 3, "snode");
	s.bboxes.resize(s.nodes.size());
	for (auto& b : s.bboxes) sym_obb(b, 1, k % 2);
}
static void same_skin(Ctx& c, SoftSkinMesh& a, SoftSkinMesh& b) {
	same_mrm(c, a.mesh, b.mesh);
	CHECK(a.weights.size() == b.weights.size());
	if (a.weights.size() != b.weights.size()) return;
	for (size_t i = 0; i < a.weights.size(); ++i) {
		CHECK(a.weights[i].size() == b.weights[i].size());
		if (a.weights[i].size() != b.weights[i].size()) continue;
		for (size_t j = 0; j < a.weights[i].size(); ++j) {
			auto &x = a.weights[i][j], &y = b.weights[i][j];
			CHECK(same(x.weight, y.weight)); CHECK(same(x.position, y.position)); CHECK(x.node_index == y.node_index);
		}
	}
	CHECK(same_vec(a.wedge_normals, b.wedge_normals)); CHECK(same_vec(a.nodes, b.nodes));
	CHECK(a.bboxes.size() == b.bboxes.size());
	if (a.bboxes.size() == b.bboxes.size()) for (size_t i = 0; i < a.bboxes.size(); ++i) same_obb(a.bboxes[i], b.bboxes[i]);
}
static char const* const NAMES[] = {"BIP01 HEAD", "ZS_RIGHTHAND", "A"};
static void fill_model(Ctx& c, ModelMesh& m, unsigned skins, unsigned att, unsigned k) {
	m.checksum = sym<uint32_t>("msum");
	m.meshes.resize(skins);
	for (unsigned i = 0; i < skins; ++i) fill_skin(c, m.meshes[i], k + i);
	for (unsigned i = 0; i < att; ++i) fill_mrm(c, m.attachments[att > 3 ? std::to_string(i) : NAMES[(i + k) % 3]], (i + k) % 2, att > 3 ? 0 : k + i);
}
static void same_model(Ctx& c, ModelMesh& a, ModelMesh& b) {
	CHECK(a.checksum == b.checksum); CHECK(a.meshes.size() == b.meshes.size()); CHECK(a.attachments.size() == b.attachments.size());
	if (a.meshes.size() == b.meshes.size()) for (size_t i = 0; i < a.meshes.size(); ++i) same_skin(c, a.meshes[i], b.meshes[i]);
	for (auto& [n, x] : a.attachments) {
		auto it = b.attachments.find(n);
		CHECK(it != b.attachments.end());
		if (it != b.attachments.end()) same_mrm(c, x, it->second);
	}
}
static void hierarchy(unsigned n) {
	ModelHierarchy a, b;
	fill_hier(a, n, choose(0, 2, "k"));
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get());
	w->write_uint(0x1234567);
	auto r = Read::from(&buf);
	b.load(r.get());
	same_hier(a, b);
	CHECK(r->read_uint() == 0x1234567);
}
HARNESS(C14_hierarchy) { hierarchy(choose(0, 3, "n")); }
HARNESS(C14_hierarchy_long) { g_more = 300; hierarchy(300); }
static void skin(unsigned lo, unsigned hi) {
	Ctx c {ArchiveFormat::BINARY, ver(), false};
	SoftSkinMesh a, b;
	fill_skin(c, a, choose(lo, hi, "k"));
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get(), c.ver);
	w->write_uint(0x1234567);
	auto r = Read::from(&buf);
	b.load(r.get());
	same_skin(c, a, b);
	CHECK(r->read_uint() == 0x1234567);
}
HARNESS(C14_skin) { skin(0, 5); }
HARNESS(C14_skin_long) { g_more = 300; skin(1, 2); }
static void model(unsigned skins, unsigned att) {
	Ctx c {ArchiveFormat::BINARY, ver(), false};
	unsigned k = choose(0, 2, "k");
	bool whole = choose(0, 1, "whole");
	Model a, b;
	fill_hier(a.hierarchy, 1, k);
	fill_model(c, a.mesh, skins, att, k);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	if (whole) a.save(w.get(), c.ver); else a.mesh.save(w.get(), c.ver);
	w->write_uint(0x1234567);
	auto r = Read::from(&buf);
	if (whole) { b.load(r.get()); same_hier(a.hierarchy, b.hierarchy); } else b.mesh.load(r.get());
	same_model(c, a.mesh, b.mesh);
	CHECK(r->read_uint() == 0x1234567);
}
HARNESS(C14_model) { model(choose(0, 2, "skins"), choose(0, 2, "att")); }
HARNESS(C14_model_many) { model(20, 300); }
// independent encoder
static void chunk(Write* w, uint16_t type, std::vector<std::byte> const& body) { w->write_ushort(type); w->write_uint((uint32_t) body.size()); w->write(body.data(), body.size()); }
struct Buf { std::vector<std::byte> v; std::unique_ptr<Write> w = Write::to(&v); Write* operator->() { return w.get(); } };
static void emit_skin(Write* w, Ctx& c, SoftSkinMesh& s) {
	Buf h; h->write_uint(4); chunk(w, 0xE100, h.v);
	Buf u; u->write_uint(0xFFFF); chunk(w, 0x7777, u.v);
	Buf m; emit_mrm(m.w.get(), c, s.mesh, true, 1, c.g2() ? 0x905 : 0x305); chunk(w, 0xB100, m.v);
	Buf n, wt;
	for (auto& x : s.weights) { wt->write_uint((uint32_t) x.size()); for (auto& e : x) { wt->write_float(e.weight); wt->write_vec3(e.position); wt->write_ubyte(e.node_index); } }
	n->write_uint((uint32_t) wt.v.size()); n->write(wt.v.data(), wt.v.size());
	n->write_uint((uint32_t) s.wedge_normals.size());
	for (auto& e : s.wedge_normals) { n->write_vec3(e.normal); n->write_uint(e.index); }
	n->write_ushort((uint16_t) s.nodes.size());
	for (auto e : s.nodes) n->write_int(e);
	for (auto& e : s.bboxes) e.save(n.w.get());
	chunk(w, 0xB1FF, n.v);
	Buf e; chunk(w, 0xE110, e.v);
}
HARNESS(C14_decode) {
	Ctx c {ArchiveFormat::BINARY, ver(), false};
	unsigned k = choose(0, 5, "k");
	Model a, b;
	fill_hier(a.hierarchy, k % 3, k);
	fill_model(c, a.mesh, choose(0, 2, "skins"), choose(0, 2, "att"), k);
	Buf f;
	{
		Buf h; h->write_uint(3); h->write_ushort((uint16_t) a.hierarchy.nodes.size());
		for (auto& n : a.hierarchy.nodes) {
			h->write(n.name.data(), n.name.size()); h->write_ubyte('\n'); h->write_short(n.parent_index);
			for (int q = 0; q < 4; ++q) for (int r = 0; r < 4; ++r) h->write_float(n.transform[r][q]);
		}
		h->write_vec3(a.hierarchy.bbox.min); h->write_vec3(a.hierarchy.bbox.max);
		h->write_vec3(a.hierarchy.collision_bbox.min); h->write_vec3(a.hierarchy.collision_bbox.max);
		h->write_vec3(a.hierarchy.root_translation); h->write_uint(a.hierarchy.checksum);
		chunk(f.w.get(), 0xD100, h.v);
		Buf s; a.hierarchy.source_date.save(s.w.get()); s->write(a.hierarchy.source_path.data(), a.hierarchy.source_path.size()); s->write_ubyte('\n');
		chunk(f.w.get(), 0xD110, s.v);
		Buf e; chunk(f.w.get(), 0xD120, e.v);
	}
	Buf h; h->write_uint(0x04030506); chunk(f.w.get(), 0xD000, h.v);
	Buf s; a.hierarchy.source_date.save(s.w.get()); s->write("X.ASC", 5); s->write_ubyte('\n'); chunk(f.w.get(), 0xD010, s.v);
	Buf q; q->write_uint(a.mesh.checksum); q->write_ushort((uint16_t) a.mesh.meshes.size()); chunk(f.w.get(), 0xD030, q.v);
	for (auto& x : a.mesh.meshes) emit_skin(f.w.get(), c, x); // not counted in the chunk's length
	Buf n; n->write_ushort((uint16_t) a.mesh.attachments.size());
	std::vector<std::string> order;
	for (auto nm : NAMES) if (a.mesh.attachments.count(nm)) { order.push_back(nm); n->write(nm, strlen(nm)); n->write_ubyte('\n'); }
	chunk(f.w.get(), 0xD020, n.v);
	for (auto& nm : order) { Buf m; emit_mrm(m.w.get(), c, a.mesh.attachments[nm], false, 0, c.g2() ? 0x905 : 0x305); chunk(f.w.get(), 0xB100, m.v); }
	Buf e; chunk(f.w.get(), 0xD040, e.v);
	auto r = Read::from(&f.v);
	b.load(r.get());
	same_hier(a.hierarchy, b.hierarchy);
	same_model(c, a.mesh, b.mesh);
	CHECK(r->tell() == f.v.size());
}
