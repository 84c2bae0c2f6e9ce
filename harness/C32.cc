// C32: spatial trees load with correct parent, child and leaf structure
//@bound every binary tree shape with up to 3 nodes (thorough: 4) including nodes with only a front or only a back child, both file versions, node count stored exactly or arbitrarily small (0..5); planes, boxes, sector and portal indices, light points arbitrary bit for bit; polygon ranges anywhere inside a polygon list of 0..4 entries; 0..2 sectors with names of 0..2 bytes; stored by the library and by an independent encoder
//@bound three fixed larger shapes: chains of 60 nodes in front and behind, an irregular tree of 300 nodes; lists of about 300 elements
//@outside other larger trees; polygon ranges that exceed the polygon list (damaged files, C27)
#include "bsp.h"
// fixed: a larger tree of a fixed shape
static void run(unsigned maxNodes, bool lib, int fixed = 0) {
	bool g1 = choose(0, 1, "g1");
	BspTree a, b;
	unsigned k = choose(0, 1, "k"), npoly = k ? 4 : 0;
	a.mode = (BspTreeType) sym<uint32_t>("mode");
	static uint32_t const P[] = {5, 2, 0, 3};
	for (unsigned i = 0; i < npoly; ++i) a.polygon_indices.push_back(P[i]);
	if (fixed) for (unsigned i = 0; npoly && i < 296; ++i) a.polygon_indices.push_back(i * 5 % 6);
	if (fixed && npoly) npoly = 300;
	Gen g {a, g1, maxNodes, npoly, fixed};
	g.node(-1);
	for (size_t i = 0; i < a.nodes.size(); ++i) if (a.nodes[i].front_index < 0 && a.nodes[i].back_index < 0) a.leaf_node_indices.push_back(i);
	a.light_points.resize(a.leaf_node_indices.size());
	for (auto& p : a.light_points) p = v3("light");
	a.sectors.resize(k * 2);
	for (unsigned i = 0; i < a.sectors.size(); ++i) { a.sectors[i].name = sym_line(i + 1, "sector"); a.sectors[i].node_indices = sym_vec<uint32_t>(i, "sn"); a.sectors[i].portal_polygon_indices = sym_vec<uint32_t>(2 - i, "sp"); }
	a.portal_polygon_indices = sym_vec<uint32_t>(k + 1, "portal");
	Buf f;
	if (lib) a.save(f.w.get(), g1 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2);
	else {
		Buf h, p, t, o, l, e;
		h->write_ushort(3); h->write_uint((uint32_t) a.mode); chunk(f.w.get(), 0xC000, h.v);
		p->write_uint(npoly); for (auto x : a.polygon_indices) p->write_uint(x); chunk(f.w.get(), 0xC010, p.v);
		// the stored counts are hints except that a single node is a leaf
		unsigned hint = a.nodes.size() == 1 ? 1 : choose(0, 1, "hint") ? (unsigned) a.nodes.size() : 0;
		t->write_uint(hint); t->write_uint(hint ? (uint32_t) a.leaf_node_indices.size() : 0); emit_node(t.w.get(), a, 0, g1); chunk(f.w.get(), 0xC040, t.v);
		for (auto& x : a.light_points) l->write_vec3(x); chunk(f.w.get(), 0xC045, l.v);
		o->write_uint((uint32_t) a.sectors.size());
		for (auto& s : a.sectors) { o->write(s.name.data(), s.name.size()); o->write_ubyte('\n'); o->write_uint((uint32_t) s.node_indices.size()); o->write_uint((uint32_t) s.portal_polygon_indices.size()); for (auto x : s.node_indices) o->write_uint(x); for (auto x : s.portal_polygon_indices) o->write_uint(x); }
		o->write_uint((uint32_t) a.portal_polygon_indices.size()); for (auto x : a.portal_polygon_indices) o->write_uint(x); chunk(f.w.get(), 0xC050, o.v);
		e->write_ubyte(0); chunk(f.w.get(), 0xC0FF, e.v);
	}
	auto r = Read::from(&f.v);
	b.load(r.get(), g1 ? 0x2090000 : 0x4090000);
	same_bsp(a, b, g1);
	same_leaves(a, b);
	CHECK(r->tell() == f.v.size());
}
HARNESS(C32_decode_3) { run(3, false); }
HARNESS(C32_save_3) { run(3, true); }
// 60 levels in front, 60 behind, and an irregular tree of 300 nodes; 300 polygons, sectors and portals
HARNESS(C32_decode_big) { g_more = 300; int s = (int) choose(1, 3, "shape"); run(s == 3 ? 300 : 60, false, s); }
HARNESS(C32_save_big) { g_more = 300; int s = (int) choose(1, 3, "shape"); run(s == 3 ? 300 : 60, true, s); }
//@entry C32_decode_4 tier=thorough time=900
HARNESS(C32_decode_4) { run(4, false); }
//@entry C32_save_4 tier=thorough time=900
HARNESS(C32_save_4) { run(4, true); }
