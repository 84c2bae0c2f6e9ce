// spatial trees: generator, independent encoder and comparison
#pragma once
#include "wmesh.h"
#include <zenkit/world/BspTree.hh>
struct Gen {
	BspTree& t; bool g1; unsigned budget, npoly; int fixed = 0; // 1 front chain, 2 back chain, 3 irregular
	unsigned pick(unsigned n, char const* name, unsigned f) { return fixed ? f : choose(0, n, name); }
	void node(int parent, unsigned depth = 0) {
		size_t self = t.nodes.size();
		t.nodes.emplace_back();
		--budget;
		BspNode n;
		n.plane = Vec4 {};
		n.parent_index = parent;
		n.bbox.min = v3("bmin"); n.bbox.max = v3("bmax");
		n.polygon_index = pick(npoly ? 1 : 0, "pidx", npoly ? self * 3 % 280 : 0); n.polygon_count = npoly ? pick(npoly - n.polygon_index > 2 ? 2 : npoly - n.polygon_index, "pcnt", self % 17) : 0;
		bool front = budget && pick(1, "front", fixed == 1 || (fixed == 3 && depth < 40 && self % 4 != 1));
		if (front) { n.front_index = (int) t.nodes.size(); node((int) self, depth + 1); }
		bool back = budget && pick(1, "back", fixed == 2 || (fixed == 3 && depth < 40 && self % 3 != 2));
		if (back) { n.back_index = (int) t.nodes.size(); node((int) self, depth + 1); }
		if (!front && !back) n.lod = 0;
		else { n.plane.x = sym<float>("px"); n.plane.y = sym<float>("py"); n.plane.z = sym<float>("pz"); n.plane.w = sym<float>("pw"); if (g1) n.lod = sym<uint8_t>("lod"); }
		t.nodes[self] = n;
	}
};
static void emit_node(Write* w, BspTree const& t, int i, bool g1) {
	auto& n = t.nodes[i];
	w->write_vec3(n.bbox.min); w->write_vec3(n.bbox.max); w->write_uint(n.polygon_index); w->write_uint(n.polygon_count);
	if (n.front_index < 0 && n.back_index < 0) return;
	uint8_t fl = 0;
	auto leaf = [&](int k) { return t.nodes[k].front_index < 0 && t.nodes[k].back_index < 0; };
	if (n.front_index >= 0) fl |= leaf(n.front_index) ? 5 : 1;
	if (n.back_index >= 0) fl |= leaf(n.back_index) ? 10 : 2;
	w->write_ubyte(fl);
	w->write_float(n.plane.w); w->write_float(n.plane.x); w->write_float(n.plane.y); w->write_float(n.plane.z);
	if (g1) w->write_ubyte(n.lod);
	if (n.front_index >= 0) emit_node(w, t, n.front_index, g1);
	if (n.back_index >= 0) emit_node(w, t, n.back_index, g1);
}
static void same_bsp(BspTree const& a, BspTree const& b, bool g1) {
	CHECK(a.mode == b.mode); CHECK(same_vec(a.polygon_indices, b.polygon_indices)); CHECK(same_vec(a.light_points, b.light_points));
	CHECK(same_vec(a.portal_polygon_indices, b.portal_polygon_indices)); CHECK(same_vec(a.leaf_node_indices, b.leaf_node_indices));
	CHECK(a.nodes.size() == b.nodes.size());
	if (a.nodes.size() == b.nodes.size()) for (size_t i = 0; i < a.nodes.size(); ++i) {
		auto &x = a.nodes[i], &y = b.nodes[i];
		CHECK(x.front_index == y.front_index); CHECK(x.back_index == y.back_index); CHECK(x.parent_index == y.parent_index);
		CHECK(x.polygon_index == y.polygon_index); CHECK(x.polygon_count == y.polygon_count);
		CHECK(same(x.bbox.min, y.bbox.min)); CHECK(same(x.bbox.max, y.bbox.max)); CHECK(x.is_leaf() == y.is_leaf());
		if (!x.is_leaf()) { CHECK(same(x.plane, y.plane)); if (g1) CHECK(x.lod == y.lod); }
	}
	CHECK(a.sectors.size() == b.sectors.size());
	if (a.sectors.size() == b.sectors.size()) for (size_t i = 0; i < a.sectors.size(); ++i) {
		CHECK(same(a.sectors[i].name, b.sectors[i].name)); CHECK(same_vec(a.sectors[i].node_indices, b.sectors[i].node_indices));
		CHECK(same_vec(a.sectors[i].portal_polygon_indices, b.sectors[i].portal_polygon_indices));
	}
}
// values[] must be the multiset of polygons of all leaves in ascending order: polygon list entries are chosen concretely
static void same_leaves(BspTree const& a, BspTree const& b) {
	size_t total = 0;
	for (auto i : a.leaf_node_indices) total += a.nodes[i].polygon_count;
	CHECK(b.leaf_polygons.size() == total);
	for (size_t i = 1; i < b.leaf_polygons.size(); ++i) CHECK(b.leaf_polygons[i - 1] <= b.leaf_polygons[i]);
	for (uint32_t v = 0; v < 6; ++v) {
		size_t x = 0, y = 0;
		for (auto i : a.leaf_node_indices) for (uint32_t j = 0; j < a.nodes[i].polygon_count; ++j) x += a.polygon_indices[a.nodes[i].polygon_index + j] == v;
		for (auto p : b.leaf_polygons) y += p == v;
		CHECK(x == y);
	}
}
