// C30: fonts, dates and bounding boxes are preserved and enclose what they should
//@bound fonts with names of 0..2 arbitrary bytes other than NUL, CR, LF and 0..3 and 254..300 glyphs, all numbers arbitrary bit for bit; dates arbitrary; oriented box trees of up to 2 children per box and depth 2, one with 270 children; the enclosing box is decided for an arbitrary coordinate of the center (|c| <= 2^60) with four half widths of an axis-parallel box and with three fixed rotated boxes
//@outside more glyphs; exactness of the enclosing box for arbitrary rotations in floating point
//@entry C30_enclose_axis time=200
//@entry C30_enclose_rotated1 time=200
//@entry C30_enclose_rotated2 time=200
//@entry C30_enclose_rotated3 time=200
#include "mesh.h"
#include <zenkit/Font.hh>
#include <zenkit/Date.hh>
static void font(unsigned n, unsigned pad) {
	Font a, b;
	a.name = std::string(pad, 'f') + sym_line(choose(0, 2, "len"), "name"); a.height = sym<uint32_t>("height"); a.glyphs.resize(n);
	for (auto& g : a.glyphs) { g.width = sym<uint8_t>("w"); for (auto& u : g.uv) u = Vec2 {sym<float>("u"), sym<float>("v")}; }
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	bool lib = choose(0, 1, "lib");
	if (lib) a.save(w.get());
	else {
		w->write("1\n", 2); w->write(a.name.data(), a.name.size()); w->write_char('\n'); w->write_uint(a.height); w->write_uint((uint32_t) a.glyphs.size());
		for (auto& g : a.glyphs) w->write_ubyte(g.width);
		for (int i = 0; i < 2; ++i) for (auto& g : a.glyphs) w->write_vec2(g.uv[i]);
	}
	auto r = Read::from(&buf);
	b.load(r.get());
	CHECK(r->tell() == buf.size());
	CHECK(same(a.name, b.name)); CHECK(a.height == b.height); CHECK(a.glyphs.size() == b.glyphs.size());
	if (a.glyphs.size() == b.glyphs.size()) for (size_t i = 0; i < a.glyphs.size(); ++i) { CHECK(a.glyphs[i].width == b.glyphs[i].width); CHECK(same(a.glyphs[i].uv[0], b.glyphs[i].uv[0])); CHECK(same(a.glyphs[i].uv[1], b.glyphs[i].uv[1])); }
}
HARNESS(C30_font) { font(choose(0, 3, "n"), 0); }
HARNESS(C30_font_many) { font(choose(254, 300, "n"), 300); }
HARNESS(C30_date_box) {
	Date a, b;
	a.year = sym<uint32_t>("y"); a.month = sym<uint16_t>("mo"); a.day = sym<uint16_t>("d"); a.hour = sym<uint16_t>("h"); a.minute = sym<uint16_t>("mi"); a.second = sym<uint16_t>("s");
	AxisAlignedBoundingBox x, y; x.min = v3("min"); x.max = v3("max");
	OrientedBoundingBox o, p; unsigned nc = choose(0, 3, "children"); sym_obb(o, nc == 3 ? 270 : nc, nc == 3 ? 1 : 2);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get());
	CHECK(buf.size() == 16);
	x.save(w.get());
	CHECK(buf.size() == 40);
	o.save(w.get());
	auto r = Read::from(&buf);
	b.load(r.get()); y.load(r.get()); p.load(r.get());
	CHECK(r->tell() == buf.size());
	CHECK(a.year == b.year); CHECK(a.month == b.month); CHECK(a.day == b.day); CHECK(a.hour == b.hour); CHECK(a.minute == b.minute); CHECK(a.second == b.second);
	CHECK(same(x.min, y.min)); CHECK(same(x.max, y.max)); same_obb(o, p);
	auto q = Read::from(&buf);
	CHECK(q->read_uint() == a.year); CHECK(q->read_ushort() == a.month); CHECK(q->read_ushort() == a.day); CHECK(q->read_ushort() == a.hour); CHECK(q->read_ushort() == a.minute); CHECK(q->read_ushort() == a.second);
	(void) q->read_ushort();
	CHECK(same(q->read_vec3(), x.min)); CHECK(same(q->read_vec3(), x.max)); CHECK(same(q->read_vec3(), o.center));
	for (int i = 0; i < 3; ++i) CHECK(same(q->read_vec3(), o.axes[i]));
	CHECK(same(q->read_vec3(), o.half_width)); CHECK(q->read_ushort() == o.children.size());
}
static float num(char const* n) { float v = sym<float>(n); ASSUME(v >= -1152921504606846976.f && v <= 1152921504606846976.f); return v; }
static float& at(Vec3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
// one coordinate of the center is arbitrary, the others and the extents are fixed
HARNESS(C30_enclose_axis) {
	static float const H[4] = {0, 0.5f, 70, 1e12f};
	int d = (int) choose(0, 2, "dim");
	OrientedBoundingBox o;
	o.center = {1, 2, 3}; o.half_width = {1, 1, 1};
	o.axes[0] = {1, 0, 0}; o.axes[1] = {0, 1, 0}; o.axes[2] = {0, 0, 1};
	at(o.center, d) = num("center"); at(o.half_width, d) = H[choose(0, 3, "half")];
	auto b = o.as_bbox();
	for (int i = 0; i < 3; ++i) {
		float lo = at(o.center, i) + (-at(o.half_width, i)), hi = at(o.center, i) + at(o.half_width, i);
		CHECK(at(b.min, i) <= lo); CHECK(at(b.min, i) >= lo);
		CHECK(at(b.max, i) <= hi); CHECK(at(b.max, i) >= hi);
	}
}
static void rotated(int which) {
	static float const A[3][9] = {{0.6f, 0.8f, 0, -0.8f, 0.6f, 0, 0, 0, 1}, {0, 0, -1, 0, 1, 0, 1, 0, 0}, {0.36f, 0.48f, -0.8f, -0.8f, 0.6f, 0, 0.48f, 0.64f, 0.6f}};
	auto* m = A[which];
	int d = (int) choose(0, 2, "dim"), e = (int) choose(0, 2, "out");
	OrientedBoundingBox o;
	o.center = {-100, -200, -300}; o.half_width = {1, 2, 3};
	at(o.center, d) = num("center");
	for (int i = 0; i < 3; ++i) o.axes[i] = {m[i * 3], m[i * 3 + 1], m[i * 3 + 2]};
	auto b = o.as_bbox();
	float lo = 1e30f, hi = -1e30f; // extents around the center
	for (int k = 0; k < 8; ++k) {
		float s[3] = {k & 4 ? 1.f : -1.f, k & 2 ? 1.f : -1.f, k & 1 ? 1.f : -1.f};
		float off = at(o.axes[0], e) * o.half_width.x * s[0] + at(o.axes[1], e) * o.half_width.y * s[1] + at(o.axes[2], e) * o.half_width.z * s[2];
		if (off < lo) lo = off;
		if (off > hi) hi = off;
	}
	CHECK(at(b.min, e) == at(o.center, e) + lo);
	CHECK(at(b.max, e) == at(o.center, e) + hi);
}
HARNESS(C30_enclose_rotated1) { rotated(0); }
HARNESS(C30_enclose_rotated2) { rotated(1); }
HARNESS(C30_enclose_rotated3) { rotated(2); }
