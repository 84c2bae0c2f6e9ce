// C16: animation samples decode to the stored position and a unit rotation
//@bound animations of 0..2 nodes and 0..2 frames; every sample's six 16-bit integers, scale and minimum arbitrary; 0..2 events with text of 0..2 bytes (terminated by LF or NUL); header and source fields arbitrary bit for bit; chunks in either order of source and header, with unknown chunks in between
//@assume the reference for a sample is the documented decoding evaluated in single precision in the documented order of operations
//@bound animations of 300 nodes and 300 events; 12000 samples of 40 nodes (the last one arbitrary)
//@outside more nodes and frames; bit-exactness under another (mathematically equal) order of floating-point operations is decided by the solver only as far as its time limit allows
#include "mesh.h"
#include <zenkit/ModelAnimation.hh>
#include <math.h>
static void chunk(Write* w, uint16_t type, std::vector<std::byte> const& body) { w->write_ushort(type); w->write_uint((uint32_t) body.size()); w->write(body.data(), body.size()); }
struct Buf { std::vector<std::byte> v; std::unique_ptr<Write> w = Write::to(&v); Write* operator->() { return w.get(); } };
static void line(Write* w, std::string const& s, char term = '\n') { w->write(s.data(), s.size()); w->write_char(term); }
static void header(bool many) {
	unsigned k = choose(0, 2, "k"), ne = many ? 300 : choose(0, 2, "events"), order = choose(0, 1, "order");
	char term = choose(0, 1, "nul") ? 0 : '\n';
	ModelAnimation a, b;
	a.name = std::string(many ? 300 : 0, 'x') + sym_line(k, "name"); a.next = sym_line((k + 1) % 3, "next"); a.source_path = sym_line((k + 2) % 3, "path"); a.source_script = sym_line(k, "script");
	a.layer = sym<uint32_t>("layer"); a.frame_count = many ? 5 : choose(0, 2, "frames"); a.node_count = many ? 300 : choose(0, 2, "nodes");
	a.fps = sym<float>("fps"); a.fps_source = sym<float>("fpss"); a.sample_position_min = sym<float>("min"); a.sample_position_scale = sym<float>("scale");
	a.bbox.min = v3("bmin"); a.bbox.max = v3("bmax"); a.checksum = sym<uint32_t>("sum");
	Date& d = a.source_date; d.year = sym<uint32_t>("y"); d.month = sym<uint16_t>("mo"); d.day = sym<uint16_t>("d"); d.hour = sym<uint16_t>("h"); d.minute = sym<uint16_t>("mi"); d.second = sym<uint16_t>("s");
	a.node_indices = sym_vec<uint32_t>(a.node_count, "idx");
	a.events.resize(ne);
	for (unsigned i = 0; i < ne; ++i) {
		auto& e = a.events[i];
		e.type = (AnimationEventType) sym<uint32_t>("type"); e.frame = sym<uint32_t>("frame"); e.tag = sym_line((k + i) % 3, "tag");
		for (int j = 0; j < 4; ++j) { e.content[j] = sym_line((k + i + j + 1) % 3, "content"); e.values[j] = sym<float>("value"); }
		e.probability = sym<float>("prob");
	}
	Buf f, h, s, e, m, u, z;
	chunk(f.w.get(), 0xa000, m.v);
	h->write_ushort(12); line(h.w.get(), a.name); h->write_uint(a.layer); h->write_uint(a.frame_count); h->write_uint(a.node_count); h->write_float(a.fps); h->write_float(a.fps_source);
	h->write_float(a.sample_position_min); h->write_float(a.sample_position_scale); a.bbox.save(h.w.get()); line(h.w.get(), a.next);
	d.save(s.w.get()); line(s.w.get(), a.source_path); line(s.w.get(), a.source_script);
	e->write_uint(ne);
	for (auto& x : a.events) { e->write_uint((uint32_t) x.type); e->write_uint(x.frame); line(e.w.get(), x.tag, term); for (auto& c : x.content) line(e.w.get(), c, term); for (float v : x.values) e->write_float(v); e->write_float(x.probability); }
	u->write_uint(0x0a0a0a0a);
	if (order) { chunk(f.w.get(), 0xa010, s.v); chunk(f.w.get(), 0xa0f0, u.v); chunk(f.w.get(), 0xa020, h.v); }
	else { chunk(f.w.get(), 0xa020, h.v); chunk(f.w.get(), 0xa010, s.v); }
	chunk(f.w.get(), 0xa030, e.v);
	z->write_uint(a.checksum); for (auto x : a.node_indices) z->write_uint(x);
	for (unsigned i = 0; i < a.node_count * a.frame_count * 6; ++i) z->write_ushort(32767);
	chunk(f.w.get(), 0xa090, z.v);
	auto r = Read::from(&f.v);
	b.load(r.get());
	CHECK(same(a.name, b.name)); CHECK(same(a.next, b.next)); CHECK(same(a.source_path, b.source_path)); CHECK(same(a.source_script, b.source_script));
	CHECK(a.layer == b.layer); CHECK(a.frame_count == b.frame_count); CHECK(a.node_count == b.node_count); CHECK(same(a.fps, b.fps)); CHECK(same(a.fps_source, b.fps_source));
	CHECK(same(a.sample_position_min, b.sample_position_min)); CHECK(same(a.sample_position_scale, b.sample_position_scale));
	CHECK(same(a.bbox.min, b.bbox.min)); CHECK(same(a.bbox.max, b.bbox.max)); CHECK(a.checksum == b.checksum); CHECK(same_vec(a.node_indices, b.node_indices));
	CHECK(d.year == b.source_date.year); CHECK(d.month == b.source_date.month); CHECK(d.day == b.source_date.day); CHECK(d.hour == b.source_date.hour); CHECK(d.minute == b.source_date.minute); CHECK(d.second == b.source_date.second);
	CHECK(b.samples.size() == a.node_count * a.frame_count);
	CHECK(b.events.size() == ne);
	if (b.events.size() == ne) for (unsigned i = 0; i < ne; ++i) {
		auto &x = a.events[i], &y = b.events[i];
		CHECK(x.type == y.type); CHECK(x.frame == y.frame); CHECK(same(x.tag, y.tag)); CHECK(same(x.probability, y.probability));
		for (int j = 0; j < 4; ++j) { CHECK(same(x.content[j], y.content[j])); CHECK(same(x.values[j], y.values[j])); }
	}
}
HARNESS(C16_header) { header(false); }
HARNESS(C16_header_many) { header(true); }
static float comp(uint16_t v) { return ((float) v - 32767.f) * ((1.0f / 65535.f) * 2.1f); }
// many: the samples other than the last one are fixed
static void samples(unsigned nodes, unsigned frames, bool many = false) {
	float lo = sym<float>("min"), sc = sym<float>("scale");
	unsigned n = nodes * frames;
	std::vector<uint16_t> raw;
	if (!many) raw = sym_vec<uint16_t>(n * 6, "sample");
	else { for (unsigned i = 0; i < n * 6; ++i) raw.push_back((uint16_t) (i * 40503u)); auto l = sym_vec<uint16_t>(6, "sample"); for (int i = 0; i < 6; ++i) raw[n * 6 - 6 + i] = l[i]; lo = -123.75f; sc = 0.003f; }
	Buf f, h, z;
	h->write_ushort(12); line(h.w.get(), "A"); h->write_uint(1); h->write_uint(frames); h->write_uint(nodes); h->write_float(10); h->write_float(25);
	h->write_float(lo); h->write_float(sc); for (int i = 0; i < 6; ++i) h->write_float(0); line(h.w.get(), ""); chunk(f.w.get(), 0xa020, h.v);
	z->write_uint(0); for (unsigned i = 0; i < nodes; ++i) z->write_uint(i); for (auto x : raw) z->write_ushort(x); chunk(f.w.get(), 0xa090, z.v);
	auto r = Read::from(&f.v);
	ModelAnimation a;
	a.load(r.get());
	CHECK(a.samples.size() == n);
	if (a.samples.size() != n) return;
	for (unsigned i = 0; i < n; ++i) {
		auto& s = a.samples[i];
		uint16_t const* p = raw.data() + i * 6;
		CHECK(same(s.position.x, (float) p[3] * sc + lo)); CHECK(same(s.position.y, (float) p[4] * sc + lo)); CHECK(same(s.position.z, (float) p[5] * sc + lo));
		float x = comp(p[0]), y = comp(p[1]), q = comp(p[2]);
		float len = x * x + y * y + q * q;
		if (len > 1.0f) {
			float l = 1.0f / sqrtf(len);
			CHECK(same(s.rotation.x, x * l)); CHECK(same(s.rotation.y, y * l)); CHECK(same(s.rotation.z, q * l)); CHECK(s.rotation.w == 0);
		} else {
			CHECK(same(s.rotation.x, x)); CHECK(same(s.rotation.y, y)); CHECK(same(s.rotation.z, q)); CHECK(same(s.rotation.w, sqrtf(1.0f - len)));
		}
	}
}
HARNESS(C16_samples_1) { samples(1, 1); }
HARNESS(C16_samples_4) { samples(choose(1, 2, "nodes"), choose(1, 2, "frames")); }
HARNESS(C16_samples_many) { samples(40, 300, true); }
