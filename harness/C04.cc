// C04: chunk framing
//@bound 1..3 chunks, arbitrary 16-bit types, payloads of 0..2 arbitrary bytes (0..6 for a single chunk, 255/256/65536 concrete-length payloads), handlers consuming 0..len+2 bytes or seeking backwards, stopping at any chunk or never; both read_chunked overloads; memory, FILE* and std::istream sources
//@bound written chunks: 1..2 nested/sequential chunks of 0..3 arbitrary bytes, arbitrary type, growing and fixed sinks, arbitrary amount of data in front
//@bound 300 chunks in a row and chunks of up to 100000 bytes from every source and into every kind of sink, nested 20 deep
//@outside declared lengths that reach beyond the end of the data (C27 covers termination there)
#include "zse.h"
#include <cstdio>
#include <sstream>
#include <functional>
#include <zenkit/Stream.hh>
using namespace zenkit;
enum class Ty : uint16_t {};

static void put(std::vector<std::byte>& b, uint64_t v, int n) {
	for (int i = 0; i < n; ++i) b.push_back((std::byte) (uint8_t) (v >> (8 * i)));
}

template <int OVERLOAD> static void run_visit(int source, unsigned nmax, unsigned lmax, unsigned over) {
	unsigned n = choose(1, nmax, "n");
	unsigned front = choose(0, 1, "front"); // bytes before the first chunk
	uint16_t type[3];
	unsigned len[3], start[3], take[3];
	std::vector<std::byte> file;
	for (unsigned i = 0; i < front; ++i) put(file, sym<uint8_t>("f"), 1);
	for (unsigned i = 0; i < n; ++i) {
		type[i] = sym<uint16_t>("type");
		len[i] = choose(0, lmax, "len");
		put(file, type[i], 2);
		put(file, len[i], 4);
		start[i] = file.size();
		for (unsigned k = 0; k < len[i]; ++k) put(file, sym<uint8_t>("payload"), 1);
	}
	unsigned stop = choose(0, n, "stop"); // index at which the handler says done; n = never
	std::unique_ptr<Read> r;
	FILE* f = nullptr;
	std::stringstream ss;
	if (source == 0) r = Read::from(&file);
	else if (source == 2) {
		ss.write((char*) file.data(), file.size());
		r = Read::from((std::istream*) &ss);
	} else {
		f = tmpfile();
		fwrite(file.data(), 1, file.size(), f);
		rewind(f);
		r = Read::from(f);
	}
	r->seek(front, Whence::BEG);
	unsigned seen = 0;
	auto handler = [&](Read* c, Ty t) {
		CHECKM(seen < n, "no more chunks than stored");
		CHECK(c == r.get());
		CHECK(same((uint16_t) t, type[seen]));
		CHECK(c->tell() == start[seen]);
		unsigned k = choose(0, len[seen] + over, "take");
		if (k > len[seen] + 1) c->seek(0, Whence::BEG); // a handler that jumps elsewhere
		else if (k) {
			uint8_t buf[8];
			unsigned avail = (unsigned) file.size() - start[seen];
			size_t got = c->read(buf, k);
			CHECK(got == (k < avail ? k : avail));
			CHECK(same_bytes(buf, file.data() + start[seen], got));
		}
		return seen++ == stop;
	};
	if constexpr (OVERLOAD == 1)
		proto::read_chunked<Ty>(r.get(), "C04", [&](Read* c, Ty t) { return handler(c, t); });
	else
		proto::read_chunked<Ty>(r.get(), "C04", [&](Read* c, Ty t, size_t& end) {
			CHECK(end == start[seen] + len[seen]);
			return handler(c, t);
		});
	unsigned last = stop < n ? stop : n - 1;
	CHECK(seen == last + 1);
	CHECK(r->tell() == start[last] + len[last]);
	if (f) fclose(f);
}
HARNESS(C04_visit_a) { run_visit<1>(0, 3, 2, 2); }
HARNESS(C04_visit_b) { run_visit<2>(0, 2, 2, 2); }
HARNESS(C04_visit_single) { run_visit<1>(0, 1, 6, 2); }
HARNESS(C04_visit_single_b) { run_visit<2>(0, 1, 6, 2); }

// lengths around byte and word boundaries
static void boundary(unsigned len) {
	std::vector<std::byte> file;
	uint16_t ta = sym<uint16_t>("ta"), tb = sym<uint16_t>("tb");
	put(file, ta, 2); put(file, len, 4);
	unsigned s0 = file.size();
	file.resize(file.size() + len);
	uint8_t x = sym<uint8_t>("x");
	if (len) file[s0 + len - 1] = (std::byte) x;
	put(file, tb, 2); put(file, 1, 4); put(file, x, 1);
	auto r = Read::from(&file);
	int seen = 0;
	proto::read_chunked<Ty>(r.get(), "C04", [&](Read* c, Ty t) {
		CHECK(same((uint16_t) t, seen ? tb : ta));
		CHECK(c->tell() == (seen ? s0 + len + 6 : s0));
		if (seen) CHECK(same(c->read_ubyte(), x));
		++seen;
		return false;
	});
	CHECK(seen == 2);
	CHECK(r->eof());
}
HARNESS(C04_boundary) {
	unsigned const L[] = {0, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000};
	boundary(L[choose(0, 11, "L")]);
}

// written chunks carry their exact payload length, whatever was in front of them
HARNESS(C04_write) {
	unsigned front = choose(0, 3, "front");
	unsigned n1 = choose(0, 3, "n1"), n2 = choose(0, 3, "n2"), nest = choose(0, 1, "nest"), fixed = choose(0, 1, "fixed");
	uint16_t t1 = sym<uint16_t>("t1"), t2 = sym<uint16_t>("t2");
	uint8_t p1[3], p2[3], fr[3];
	sym_bytes(p1, 3, "p1"); sym_bytes(p2, 3, "p2"); sym_bytes(fr, 3, "fr");
	std::vector<std::byte> out(fixed ? 64 : 0), want;
	auto w = fixed ? Write::to(out.data(), out.size()) : Write::to(&out);
	w->write(fr, front);
	if (nest) {
		proto::write_chunk(w.get(), (Ty) t1, [&](Write* c) {
			c->write(p1, n1);
			proto::write_chunk(c, (Ty) t2, [&](Write* d) { d->write(p2, n2); });
			CHECK(c->tell() == front + 6 + n1 + 6 + n2);
		});
	} else {
		proto::write_chunk(w.get(), (Ty) t1, [&](Write* c) { c->write(p1, n1); });
		CHECK(w->tell() == front + 6 + n1);
		proto::write_chunk(w.get(), (Ty) t2, [&](Write* d) { d->write(p2, n2); });
	}
	for (unsigned i = 0; i < front; ++i) put(want, fr[i], 1);
	put(want, t1, 2);
	put(want, nest ? n1 + 6 + n2 : n1, 4);
	for (unsigned i = 0; i < n1; ++i) put(want, p1[i], 1);
	put(want, t2, 2);
	put(want, n2, 4);
	for (unsigned i = 0; i < n2; ++i) put(want, p2[i], 1);
	CHECK(w->tell() == want.size());
	if (!fixed) CHECK(out.size() == want.size());
	CHECK(same_bytes(out.data(), want.data(), want.size()));
	for (size_t i = want.size(); i < out.size(); ++i) CHECK(out[i] == std::byte {0});
}
// a payload that is rewritten by its own writer (seek back and forth) is still framed by its end
HARNESS(C04_write_big) {
	unsigned const L[] = {0, 255, 256, 65535, 65536, 70000};
	unsigned len = L[choose(0, 5, "L")];
	uint16_t t = sym<uint16_t>("t");
	uint8_t x = sym<uint8_t>("x");
	std::vector<std::byte> out, data(len, std::byte {7});
	if (len) data[len - 1] = (std::byte) x;
	auto w = Write::to(&out);
	proto::write_chunk(w.get(), (Ty) t, [&](Write* c) { c->write(data.data(), len); });
	CHECK(w->tell() == 6 + len);
	CHECK(out.size() == 6 + len);
	auto r = Read::from(&out);
	CHECK(same(r->read_ushort(), t));
	CHECK(r->read_uint() == len);
	CHECK(same_bytes(out.data() + 6, data.data(), len));
}
HARNESS(C04_visit_file) { run_visit<1>(1, 2, 2, 2); }
HARNESS(C04_visit_istream) { run_visit<1>(2, 2, 2, 0); }
// many and long chunks through every kind of sink and source
HARNESS(C04_large) {
	unsigned kind = choose(0, 3, "kind");
	static unsigned const LEN[] = {0, 1, 255, 256, 4096, 65535, 65536, 100000};
	uint16_t t = sym<uint16_t>("t"); uint8_t x = sym<uint8_t>("x");
	std::vector<std::byte> out(kind == 1 ? 400000 : 0); std::stringstream ss; FILE* f = nullptr;
	std::vector<size_t> at, len;
	{
		std::unique_ptr<Write> w;
		if (kind == 1) w = Write::to(out.data(), out.size());
		else if (kind == 2) { f = tmpfile(); w = Write::to(f); }
		else if (kind == 3) w = Write::to((std::ostream*) &ss);
		else w = Write::to(&out);
		w->write_ubyte(x);
		size_t pos = 1;
		for (unsigned i = 0; i < 300; ++i) {
			unsigned n = i % 37 == 5 ? LEN[i / 37 % 8] : i % 5;
			std::string body(n, (char) i); if (n) body[n - 1] = (char) x;
			proto::write_chunk(w.get(), (Ty) (uint16_t) (t + i), [&](Write* c) { c->write_string(body); });
			at.push_back(pos + 6); len.push_back(n); pos += 6 + n;
			CHECK(w->tell() == pos);
		}
		std::function<void(Write*, unsigned)> nest = [&](Write* c, unsigned d) { c->write_ubyte((uint8_t) d); if (d < 20) proto::write_chunk(c, (Ty) d, [&](Write* e) { nest(e, d + 1); }); c->write_ubyte(x); };
		nest(w.get(), 0);
		pos += 21 * 2 + 20 * 6;
		CHECK(w->tell() == pos);
		if (kind == 0) CHECK(out.size() == pos);
	}
	std::unique_ptr<Read> r;
	if (kind < 2) r = Read::from(out.data(), out.size());
	else if (kind == 2) { rewind(f); r = Read::from(f); }
	else r = Read::from((std::istream*) &ss);
	CHECK(r->read_ubyte() == x);
	unsigned seen = 0;
	proto::read_chunked<Ty>(r.get(), "C04", [&](Read* c, Ty q) {
		CHECK((uint16_t) q == (uint16_t) (t + seen)); CHECK(c->tell() == at[seen]);
		unsigned how = seen % 3; size_t n = len[seen];
		if (how == 0 && n) { std::string b(n, (char) seen); b[n - 1] = (char) x; CHECK(same(c->read_string(n), b)); }
		if (how == 1 && n > 1) CHECK((uint8_t) c->read_ubyte() == (uint8_t) seen);
		return ++seen == 300;
	});
	CHECK(seen == 300); CHECK(r->tell() == at[299] + len[299]);
	size_t end = r->tell();
	for (unsigned d = 0; d < 20; ++d) { CHECK(r->read_ubyte() == d); CHECK(r->read_ushort() == d); CHECK(r->read_uint() == (20 - d - 1) * 8 + 2); }
	CHECK(r->read_ubyte() == 20); CHECK(r->read_ubyte() == x); CHECK(r->tell() == end + 20 * 7 + 2);
	if (f) fclose(f);
}
