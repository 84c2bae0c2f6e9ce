// C17: textures keep their pixels
//@bound all uncompressed formats with arbitrary pixel bytes and palette, compressed formats with arbitrary block bytes; extents 1x1, 2x1, 1x2, 4x2, 3x5, 6x6 with 1..3 mipmap levels, 300x3, 5x260 and 64x16 with 4 and 7 levels; header fields arbitrary; every pair of source and target format of the builder
//@assume the block (de)compression of squish, a binary library, is modelled by what it reads and writes; its pixel values are arbitrary
//@outside bigger extents; pixel values of block-compressed formats; formats the library documents as not convertible (A1R5G5B5, DXT2, DXT4, and A4R4G4B4 as a target)
#include "zse.h"
#include <zenkit/Stream.hh>
#include <zenkit/Texture.hh>
#include <zenkit/addon/texcvt.hh>
using namespace zenkit;
static unsigned const W[] = {1, 2, 1, 4, 3, 6, 300, 5, 64}, H[] = {1, 1, 2, 2, 5, 6, 3, 260, 16};
static unsigned ext(unsigned v, unsigned l) { v >>= l; return v ? v : 1; }
static unsigned bytes_of(unsigned f, unsigned w, unsigned h) {
	if (f <= 3) return w * h * 4;
	if (f <= 5) return w * h * 3;
	if (f <= 8) return w * h * 2;
	if (f == 9) return w * h;
	unsigned b = ((w + 3) / 4) * ((h + 3) / 4);
	return f == 10 ? b * 8 : b * 16;
}
struct Tex { unsigned f, w, h, n; uint32_t rw, rh, avg; std::vector<uint8_t> pal; std::vector<std::vector<uint8_t>> lv; };
static Tex make(unsigned f, unsigned e, unsigned n) {
	Tex t {f, W[e], H[e], n, sym<uint32_t>("refw"), sym<uint32_t>("refh"), sym<uint32_t>("avg"), {}, {}};
	if (f == 9) { t.pal.resize(1024); sym_bytes(t.pal.data(), 1024, "palette"); }
	for (unsigned i = 0; i < n; ++i) { t.lv.emplace_back(bytes_of(f, ext(t.w, i), ext(t.h, i))); sym_bytes(t.lv[i].data(), t.lv[i].size(), "pixels"); }
	return t;
}
static std::vector<std::byte> encode(Tex const& t) {
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	w->write("ZTEX", 4);
	for (uint32_t v : {0u, t.f, t.w, t.h, t.n, t.rw, t.rh, t.avg}) w->write_uint(v);
	w->write(t.pal.data(), t.pal.size());
	for (unsigned i = t.n; i-- > 0;) w->write(t.lv[i].data(), t.lv[i].size());
	return buf;
}
static void equal(Tex const& t, Texture const& x) {
	CHECK((unsigned) x.format() == t.f); CHECK(x.width() == t.w); CHECK(x.height() == t.h); CHECK(x.mipmaps() == t.n);
	CHECK(x.ref_width() == t.rw); CHECK(x.ref_height() == t.rh); CHECK(x.average_color() == t.avg);
	for (unsigned i = 0; i < t.n && i < x.mipmaps(); ++i) {
		CHECK(x.mipmap_width(i) == ext(t.w, i)); CHECK(x.mipmap_height(i) == ext(t.h, i));
		CHECK(same_vec(x.data(i), t.lv[i]));
	}
	if (t.f == 9) for (unsigned i = 0; i < 256; ++i) CHECK((x.palette()[i].b == t.pal[i * 4]) & (x.palette()[i].g == t.pal[i * 4 + 1]) & (x.palette()[i].r == t.pal[i * 4 + 2]) & (x.palette()[i].a == t.pal[i * 4 + 3]));
}
static void load_save(unsigned extent, unsigned levels) {
	Tex t = make(choose(0, 14, "format"), extent, levels);
	auto in = encode(t);
	Texture x;
	auto r = Read::from(&in);
	x.load(r.get());
	CHECK(r->tell() == in.size());
	equal(t, x);
	std::vector<std::byte> out;
	auto w = Write::to(&out);
	x.save(w.get());
	CHECK(same_vec(in, out));
}
HARNESS(C17_load_save) { load_save(choose(0, 5, "extent"), choose(1, 3, "levels")); }
// extents beyond 256 and a full chain of levels
HARNESS(C17_load_save_big) { load_save(choose(6, 8, "extent"), choose(0, 1, "full") ? 7 : 4); }
HARNESS(C17_load_again) {
	Tex s = make(choose(0, 1, "f1") ? 9 : 5, 1, choose(1, 3, "l1")), t = make(choose(0, 1, "f2") ? 9 : 2, 2, choose(1, 3, "l2"));
	auto a = encode(s), b = encode(t);
	Texture x;
	auto r = Read::from(&a), q = Read::from(&b);
	x.load(r.get());
	x.load(q.get());
	equal(t, x);
}
static void rgba(bool big) {
	unsigned f = choose(0, 9, "format");
	if (f == 7) return;
	unsigned n = choose(1, 3, "levels"), l = choose(0, 2, "level");
	if (l >= n) return;
	Tex t = make(f, big ? choose(6, 7, "extent") : choose(0, 4, "extent"), n);
	auto in = encode(t);
	Texture x;
	auto r = Read::from(&in);
	x.load(r.get());
	auto c = x.as_rgba8(l);
	unsigned w = ext(t.w, l), h = ext(t.h, l);
	CHECK(c.size() == w * h * 4);
	if (c.size() != w * h * 4) return;
	auto& p = t.lv[l];
	for (unsigned i = 0; i < w * h; ++i) {
		static int const M[6][4] = {{2, 1, 0, 3}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 2, 3, 0}, {2, 1, 0, -1}, {0, 1, 2, -1}};
		if (f <= 5) for (int k = 0; k < 4; ++k) CHECK(c[i * 4 + k] == (M[f][k] < 0 ? 255 : p[i * (f <= 3 ? 4 : 3) + M[f][k]]));
		else if (f == 6) {
			CHECK(c[i * 4] == (p[i * 2 + 1] & 15) * 17); CHECK(c[i * 4 + 1] == (p[i * 2] >> 4) * 17); CHECK(c[i * 4 + 2] == (p[i * 2] & 15) * 17); CHECK(c[i * 4 + 3] == (p[i * 2 + 1] >> 4) * 17);
		} else if (f == 8) {
			if (i > 1) break; // floating point: two pixels are enough, they are independent
			unsigned v = p[i * 2] | p[i * 2 + 1] << 8, R = v >> 11, G = v >> 5 & 63, B = v & 31;
			auto ok = [](unsigned got, unsigned x, unsigned max) { return (got * max <= x * 255 + max / 2) & (got * max + max >= x * 255); }; // truncated or rounded
			CHECK(ok(c[i * 4], R, 31)); CHECK(ok(c[i * 4 + 1], G, 63)); CHECK(ok(c[i * 4 + 2], B, 31)); CHECK(c[i * 4 + 3] == 255);
		} else {
			for (unsigned k = 0; k < 4; ++k) {
				uint8_t want = 0;
				static int const P[4] = {2, 1, 0, 3};
				want = t.pal[p[i] * 4 + P[k]];
				CHECK(c[i * 4 + k] == want);
			}
			if (i > 1) break;
		}
	}
}
HARNESS(C17_rgba) { rgba(false); }
HARNESS(C17_rgba_big) { rgba(true); }
// block-compressed formats: extents and memory only
HARNESS(C17_rgba_dxt) {
	static unsigned const F[] = {10, 12, 14};
	unsigned n = choose(1, 3, "levels"), l = choose(0, 2, "level");
	if (l >= n) return;
	Tex t = make(F[choose(0, 2, "format")], choose(0, 8, "extent"), n);
	auto in = encode(t);
	Texture x;
	auto r = Read::from(&in);
	x.load(r.get());
	CHECK(x.as_rgba8(l).size() == ext(t.w, l) * ext(t.h, l) * 4);
}
// the builder keeps levels in order and converts every pixel
static void builder(unsigned n, unsigned e) {
	unsigned from = choose(0, 5, "from"), to = choose(0, 5, "to");
	TextureBuilder b(W[e], H[e]);
	Tex t = make(from, e, n);
	for (auto& l : t.lv) b.add_mipmap(l, (TextureFormat) from);
	Texture x = b.build((TextureFormat) to);
	CHECK((unsigned) x.format() == to); CHECK(x.width() == t.w); CHECK(x.height() == t.h); CHECK(x.mipmaps() == n); CHECK(x.ref_width() == t.w); CHECK(x.ref_height() == t.h);
	static int const M[6][4] = {{2, 1, 0, 3}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 2, 3, 0}, {2, 1, 0, -1}, {0, 1, 2, -1}};
	for (unsigned l = 0; l < n; ++l) {
		auto& d = x.data(l);
		unsigned w = ext(t.w, l), h = ext(t.h, l), sb = from <= 3 ? 4 : 3, tb = to <= 3 ? 4 : 3;
		CHECK(d.size() == bytes_of(to, w, h));
		if (d.size() != bytes_of(to, w, h)) continue;
		for (unsigned i = 0; i < w * h; ++i) for (int k = 0; k < 4; ++k) if (M[to][k] >= 0) CHECK(d[i * tb + M[to][k]] == (M[from][k] < 0 ? 255 : t.lv[l][i * sb + M[from][k]]));
	}
	std::vector<std::byte> out;
	auto w = Write::to(&out);
	x.save(w.get());
	Texture y;
	auto r = Read::from(&out);
	y.load(r.get());
	for (unsigned l = 0; l < n; ++l) CHECK(same_vec(y.data(l), x.data(l)));
}
HARNESS(C17_builder) { builder(choose(1, 3, "levels"), choose(0, 3, "extent")); }
HARNESS(C17_builder_big) { builder(4, choose(6, 7, "extent")); }
// 16-bit target: red, green and blue stay in their place and lose at most their low bits
HARNESS(C17_builder_565) {
	unsigned from = choose(0, 5, "from");
	TextureBuilder b(2, 1);
	Tex t = make(from, 1, 1);
	b.add_mipmap(t.lv[0], (TextureFormat) from);
	Texture x = b.build(TextureFormat::R5G6B5);
	auto& d = x.data(0);
	CHECK(d.size() == 4);
	if (d.size() != 4) return;
	static int const M[6][4] = {{2, 1, 0, 3}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 2, 3, 0}, {2, 1, 0, -1}, {0, 1, 2, -1}};
	for (unsigned i = 0; i < 2; ++i) {
		unsigned v = d[i * 2] | d[i * 2 + 1] << 8, got[3] = {v >> 11, v >> 5 & 63, v & 31}, max[3] = {31, 63, 31};
		for (int k = 0; k < 3; ++k) { unsigned s = t.lv[0][i * (from <= 3 ? 4 : 3) + M[from][k]]; CHECK((got[k] * 255 <= s * max[k] + 255 / 2 + 1) & (got[k] * 255 + 255 >= s * max[k])); }
	}
}
HARNESS(C17_565_stable) {
	Tex t = make(8, 1, 1);
	TextureBuilder b(2, 1), c(2, 1);
	b.add_mipmap(t.lv[0], TextureFormat::R5G6B5);
	Texture x = b.build(TextureFormat::R8G8B8A8);
	c.add_mipmap(x.data(0), TextureFormat::R8G8B8A8);
	Texture y = c.build(TextureFormat::R5G6B5);
	CHECK(same_vec(y.data(0), t.lv[0]));
}
HARNESS(C17_builder_same) {
	unsigned f = choose(0, 14, "format"), n = choose(1, 3, "levels"), e = choose(0, 5, "extent");
	if (f == 9) return;
	TextureBuilder b(W[e], H[e]);
	Tex t = make(f, e, n);
	for (auto& l : t.lv) b.add_mipmap(l, (TextureFormat) f);
	Texture x = b.build((TextureFormat) f);
	for (unsigned l = 0; l < n; ++l) CHECK(same_vec(x.data(l), t.lv[l]));
}
HARNESS(C17_builder_dxt) {
	static unsigned const F[] = {10, 12, 14};
	unsigned f = F[choose(0, 2, "format")], n = choose(1, 3, "levels"), e = choose(0, 5, "extent");
	TextureBuilder b(W[e], H[e]);
	Tex t = make(1, e, n);
	for (auto& l : t.lv) b.add_mipmap(l, TextureFormat::R8G8B8A8);
	Texture x = b.build((TextureFormat) f);
	for (unsigned l = 0; l < n; ++l) CHECK(x.data(l).size() == bytes_of(f, ext(t.w, l), ext(t.h, l)));
}
HARNESS(C17_builder_rejects) {
	unsigned f = choose(0, 14, "format"), e = choose(0, 5, "extent"), n = choose(0, 2, "level"), bad = choose(0, 3, "size");
	TextureBuilder b(W[e], H[e]);
	for (unsigned i = 0; i < n; ++i) b.add_mipmap(std::vector<uint8_t>(bytes_of(f, ext(W[e], i), ext(H[e], i))), (TextureFormat) f);
	unsigned right = bytes_of(f, ext(W[e], n), ext(H[e], n)), size = bad == 0 ? right : bad == 1 ? right - 1 : bad == 2 ? right + 1 : 0;
	bool threw = false;
	try { b.add_mipmap(std::vector<uint8_t>(size), (TextureFormat) f); } catch (InvalidMipmapSize const&) { threw = true; }
	CHECK(threw == (size != right));
}
static uint32_t u32(std::vector<std::byte> const& d, size_t o) { uint32_t v; memcpy(&v, d.data() + o, 4); return v; }
// DDS export: extents and level data, largest level first
HARNESS(C17_dds) {
	Tex t = make(choose(0, 14, "format"), choose(0, 5, "extent"), choose(1, 3, "levels"));
	auto in = encode(t);
	Texture x;
	auto r = Read::from(&in);
	x.load(r.get());
	auto d = to_dds(x);
	size_t off = 128 + (t.f == 9 ? 1024 : 0), size = off;
	for (auto& l : t.lv) size += l.size();
	CHECK(d.size() == size);
	if (d.size() != size) return;
	CHECK(!memcmp(d.data(), "DDS ", 4)); CHECK(u32(d, 4) == 124); CHECK(u32(d, 12) == t.h); CHECK(u32(d, 16) == t.w); CHECK(u32(d, 76) == 32);
	CHECK(t.n == 1 ? u32(d, 28) <= 1 : u32(d, 28) == t.n);
	if (t.f <= 8) CHECK(u32(d, 88) == bytes_of(t.f, 1, 1) * 8);
	if (t.f >= 10) CHECK(u32(d, 84) == (0x30545844u | (t.f - 9) << 24));
	for (auto& l : t.lv) { CHECK(same_bytes(d.data() + off, l.data(), l.size())); off += l.size(); }
}
// DDS export: the channel masks of the header describe the same colours as the conversion to RGBA
static void masks(unsigned f) {
	Tex t = make(f, 1, 1);
	auto in = encode(t);
	Texture x;
	auto r = Read::from(&in);
	x.load(r.get());
	auto d = to_dds(x);
	auto c = x.as_rgba8(0);
	unsigned n = bytes_of(f, 1, 1);
	uint32_t v = 0;
	for (unsigned k = 0; k < n; ++k) v |= (uint32_t) d[128 + k] << (8 * k);
	for (int k = 0; k < 4; ++k) {
		uint32_t m = u32(d, 92 + 4 * k);
		if (k == 3 && (f == 4 || f == 5 || f == 8)) { CHECK(m == 0); continue; }
		CHECK(m != 0);
		if (!m) continue;
		unsigned got = (v & m) >> __builtin_ctz(m), max = m >> __builtin_ctz(m);
		CHECK((c[k] * max <= got * 255 + max / 2) & (c[k] * max + max >= got * 255));
	}
}
// every channel has a byte of its own
HARNESS(C17_dds_channels) {
	Tex t = make(choose(0, 5, "format"), 1, 1);
	auto in = encode(t);
	Texture x;
	auto r = Read::from(&in);
	x.load(r.get());
	auto d = to_dds(x);
	uint32_t all = 0, flags = u32(d, 80);
	for (int k = 0; k < 4; ++k) {
		uint32_t m = u32(d, 92 + 4 * k);
		if (k == 3 && t.f > 3) { CHECK(m == 0); continue; }
		CHECK(m == 255u || m == 255u << 8 || m == 255u << 16 || m == 255u << 24);
		CHECK(!(all & m));
		all |= m;
	}
	CHECK(all == (t.f <= 3 ? 0xffffffffu : 0xffffffu));
	CHECK((flags & 0x40) != 0); CHECK(((flags & 1) != 0) == (t.f <= 3));
}
HARNESS(C17_dds_masks_0) { masks(0); }
HARNESS(C17_dds_masks_1) { masks(1); }
HARNESS(C17_dds_masks_2) { masks(2); }
HARNESS(C17_dds_masks_3) { masks(3); }
HARNESS(C17_dds_masks_4) { masks(4); }
HARNESS(C17_dds_masks_5) { masks(5); }
HARNESS(C17_dds_masks_6) { masks(6); }
HARNESS(C17_dds_masks_8) { masks(8); }
