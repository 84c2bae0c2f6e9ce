// C02: memory stream cursors never leave the buffer and behave like one file
//@bound buffers of 0,1,2,5 bytes with arbitrary contents; every sequence of 3 operations out of {read n, seek BEG/CUR/END by any 64-bit offset, read_ubyte, read_ushort, read_uint, tell, eof}; n up to buffer size + 2
//@bound growable and fixed sinks: every sequence of 3 operations out of {write n, seek BEG/CUR/END}; growable sinks seek at most 3 bytes past their end
//@bound buffers of 300, 5000 and 70000 bytes: reads and writes of any boundary size at positions around every boundary; growable sinks: writes up to 70000 bytes past the end
//@outside longer operation sequences
#include "zse.h"
#include <algorithm>
#include <zenkit/Stream.hh>
using namespace zenkit;

// reference: position after a seek on a stream of n bytes; seeks that do not fit are ignored
static int64_t ref_seek(int64_t pos, int64_t n, int64_t off, unsigned wh, int64_t max) {
	int64_t base = wh == 0 ? 0 : wh == 1 ? pos : n;
	bool ok = (off >= -base) & (off <= max - base);
	return ok ? base + off : pos;
}

template <unsigned N, unsigned STEPS> static void read_ops() {
	static uint8_t data[N + 1];
	sym_bytes(data, N, "data");
	unsigned src = choose(0, 2, "source");
	std::unique_ptr<Read> r;
	std::vector<std::byte> vec((std::byte*) data, (std::byte*) data + N);
	// an exactly sized heap block, so that any access outside it is seen
	std::byte* exact = new std::byte[N ? N : 1];
	memcpy(exact, data, N);
	if (src == 0) r = Read::from(exact, N);
	else if (src == 1) r = Read::from(&vec);
	else r = Read::from(vec);
	int64_t pos = 0;
	for (unsigned i = 0; i < STEPS; ++i) {
		unsigned op = choose(0, 4, "op");
		if (op == 0) {
			unsigned n = choose(0, N + 2, "n");
			uint8_t out[N + 2 + 1];
			memset(out, 0xA5, sizeof out);
			size_t got = r->read(out, n);
			int64_t can = (int64_t) n < (int64_t) N - pos ? (int64_t) n : (int64_t) N - pos;
			CHECK((int64_t) got == can);
			can = (int64_t) zse_concretize(can);
			int64_t p = (int64_t) zse_concretize(pos);
			CHECK(same_bytes(out, data + p, can));
			for (size_t k = can; k < sizeof out; ++k) CHECK(out[k] == 0xA5);
			pos = p + can;
		} else if (op <= 3) {
			auto off = sym<int64_t>("off");
			r->seek(off, (Whence) (op - 1));
			pos = ref_seek(pos, N, off, op - 1, N);
		} else {
			unsigned k = choose(0, 2, "width");
			int64_t p = (int64_t) zse_concretize(pos);
			uint8_t want[4] = {0, 0, 0, 0};
			unsigned w = k == 0 ? 1 : k == 1 ? 2 : 4, m = 0;
			for (; m < w && p + m < N; ++m) want[m] = data[p + m];
			uint32_t v = k == 0 ? r->read_ubyte() : k == 1 ? r->read_ushort() : r->read_uint();
			CHECK(same_bytes(&v, want, 4));
			pos = p + m;
		}
		CHECK((int64_t) r->tell() == pos);
		CHECK(r->eof() == (pos >= (int64_t) N));
		CHECK(r->tell() <= N);
	}
	delete[] exact;
}
HARNESS(C02_read_0) { read_ops<0, 3>(); }
HARNESS(C02_read_1) { read_ops<1, 3>(); }
HARNESS(C02_read_2) { read_ops<2, 2>(); }
//@entry C02_read_2_deep tier=thorough
HARNESS(C02_read_2_deep) { read_ops<2, 3>(); }
HARNESS(C02_read_5) { read_ops<5, 2>(); }
//@entry C02_read_5_deep tier=thorough
HARNESS(C02_read_5_deep) { read_ops<5, 3>(); }

template <unsigned N, unsigned STEPS> static void write_fixed() {
	uint8_t ref[N + 1], payload[8];
	sym_bytes(ref, N, "before");
	sym_bytes(payload, 8, "payload");
	std::byte* exact = new std::byte[N ? N : 1];
	memcpy(exact, ref, N);
	auto w = Write::to(exact, N);
	int64_t pos = 0;
	for (unsigned i = 0; i < STEPS; ++i) {
		unsigned op = choose(0, 3, "op");
		if (op == 0) {
			unsigned n = choose(0, N + 2, "n");
			size_t put = w->write(payload, n);
			int64_t p = (int64_t) zse_concretize(pos);
			int64_t can = (int64_t) n < (int64_t) N - p ? (int64_t) n : (int64_t) N - p;
			CHECK((int64_t) put == can);
			memcpy(ref + p, payload, can);
			pos = p + can;
		} else {
			auto off = sym<int64_t>("off");
			w->seek(off, (Whence) (op - 1));
			pos = ref_seek(pos, N, off, op - 1, N);
		}
		CHECK((int64_t) w->tell() == pos);
		CHECK(same_bytes(exact, ref, N));
	}
	delete[] exact;
}
HARNESS(C02_write_fixed_0) { write_fixed<0, 3>(); }
HARNESS(C02_write_fixed_2) { write_fixed<2, 3>(); }
HARNESS(C02_write_fixed_5) { write_fixed<5, 2>(); }

// growable sinks: a position past the end is allowed, the gap reads as zero once something is written there
template <unsigned N, unsigned STEPS> static void write_dynamic() {
	uint8_t ref[512] = {}, payload[8];
	sym_bytes(ref, N, "before");
	sym_bytes(payload, 8, "payload");
	std::vector<std::byte> vec((std::byte*) ref, (std::byte*) ref + N);
	auto w = Write::to(&vec);
	int64_t pos = 0, size = N;
	for (unsigned i = 0; i < STEPS; ++i) {
		unsigned op = choose(0, 3, "op");
		if (op == 0) {
			unsigned n = choose(0, 3, "n");
			n = n == 3 ? 8 : n;
			size_t put = w->write(payload, n);
			int64_t p = (int64_t) zse_concretize(pos);
			CHECK(put == n);
			memcpy(ref + p, payload, n);
			pos = p + n;
			if (n && pos > size) size = pos;
		} else {
			auto off = sym<int64_t>("off");
			ASSUME(off < 4);
			w->seek(off, (Whence) (op - 1));
			pos = (int64_t) zse_concretize(ref_seek(pos, size, off, op - 1, 1 << 20));
		}
		CHECK((int64_t) w->tell() == pos);
		// a zero-length write past the end may or may not extend the data
		CHECK(((int64_t) vec.size() == size) | ((int64_t) vec.size() == pos));
		if ((int64_t) vec.size() > size) size = vec.size();
		CHECK(same_bytes(vec.data(), ref, vec.size()));
	}
}
HARNESS(C02_write_dynamic_0) { write_dynamic<0, 2>(); }
//@entry C02_write_dynamic_0_deep tier=thorough
HARNESS(C02_write_dynamic_0_deep) { write_dynamic<0, 3>(); }
HARNESS(C02_write_dynamic_5) { write_dynamic<5, 2>(); }

// one stream written and read through both views
HARNESS(C02_backpatch) {
	std::vector<std::byte> vec;
	auto w = Write::to(&vec);
	auto a = sym<uint32_t>("a"), b = sym<uint32_t>("b");
	unsigned n = choose(0, 9, "n");
	uint8_t payload[9];
	sym_bytes(payload, 9, "payload");
	w->write_uint(a);
	size_t start = w->tell();
	w->write(payload, n);
	size_t end = w->tell();
	CHECK(end == start + n);
	w->seek(-(ssize_t) (n + 4), Whence::CUR);
	CHECK(w->tell() == 0);
	w->write_uint(b);
	w->seek(0, Whence::END);
	CHECK(w->tell() == end);
	w->write_uint(a);
	CHECK(vec.size() == end + 4);
	auto r = Read::from(&vec);
	CHECK(same(r->read_uint(), b));
	uint8_t out[9];
	CHECK(r->read(out, n) == n);
	CHECK(same_bytes(out, payload, n));
	CHECK(same(r->read_uint(), a));
	CHECK(r->eof());
	r->seek(-4, Whence::END);
	CHECK(!r->eof());
	CHECK(r->tell() == end);
}
// larger buffers: reads and writes that start and end around boundaries
static size_t const BIG[] = {300, 5000, 70000};
HARNESS(C02_large_read) {
	size_t const n = BIG[choose(0, 2, "size")]; unsigned src = choose(0, 2, "source");
	std::vector<std::byte> vec(n);
	for (size_t i = 0; i < n; ++i) vec[i] = (std::byte) (i * 31 + i / 251);
	uint8_t x = sym<uint8_t>("x"); vec[n - 1] = (std::byte) x; vec[256] = (std::byte) x;
	std::byte* exact = new std::byte[n]; memcpy(exact, vec.data(), n);
	auto r = src == 0 ? Read::from(exact, n) : src == 1 ? Read::from(&vec) : Read::from(vec);
	std::vector<uint8_t> out(n + 8);
	for (size_t at : {(size_t) 0, (size_t) 255, (size_t) 256, n / 2, n - 5, n - 1, n})
		for (size_t len : {(size_t) 1, (size_t) 4, (size_t) 256, (size_t) 4096, n, n + 3}) {
			unsigned how = (unsigned) (at + len) % 3;
			if (how == 0) r->seek((ssize_t) at, Whence::BEG); else if (how == 1) r->seek((ssize_t) at - (ssize_t) n, Whence::END); else r->seek((ssize_t) at - (ssize_t) r->tell(), Whence::CUR);
			CHECK(r->tell() == at);
			std::fill(out.begin(), out.end(), 0xA5);
			size_t can = len < n - at ? len : n - at;
			CHECK(r->read(out.data(), len) == can);
			CHECK(same_bytes(out.data(), exact + at, can)); CHECK(out[can] == 0xA5);
			CHECK(r->tell() == at + can); CHECK(r->eof() == (at + can == n));
			r->seek((ssize_t) n + 1, Whence::BEG); CHECK(r->tell() == at + can);
			r->seek(1, Whence::END); CHECK(r->tell() == at + can);
			r->seek(-(ssize_t) n - 1, Whence::END); CHECK(r->tell() == at + can);
		}
	delete[] exact;
}
HARNESS(C02_large_write) {
	size_t const n = BIG[choose(0, 2, "size")]; bool fixed = choose(0, 1, "fixed");
	std::vector<uint8_t> ref(n), data(2 * n);
	for (size_t i = 0; i < n; ++i) ref[i] = (uint8_t) (i * 31 + i / 251);
	for (size_t i = 0; i < 2 * n; ++i) data[i] = (uint8_t) (i * 17 + i / 253);
	uint8_t x = sym<uint8_t>("x"); data[0] = x; ref[n - 1] = x;
	for (size_t at : {(size_t) 0, (size_t) 255, n / 2, n - 1, n, n + 1, n + 5000, n + 70000})
		for (size_t len : {(size_t) 1, (size_t) 257, n, n + 3}) {
			std::vector<std::byte> vec((std::byte*) ref.data(), (std::byte*) ref.data() + n);
			std::byte* exact = new std::byte[n]; memcpy(exact, ref.data(), n);
			auto w = fixed ? Write::to(exact, n) : Write::to(&vec);
			w->seek((ssize_t) at, Whence::BEG);
			size_t p = fixed && at > n ? 0 : at; CHECK(w->tell() == p);
			size_t can = !fixed ? len : len < n - p ? len : n - p;
			CHECK(w->write(data.data(), len) == can); CHECK(w->tell() == p + can);
			std::vector<uint8_t> want = ref;
			if (p + can > want.size()) want.resize(p + can);
			std::copy(data.begin(), data.begin() + (ptrdiff_t) can, want.begin() + (ptrdiff_t) p);
			if (fixed) CHECK(same_bytes(exact, want.data(), n));
			else { CHECK(vec.size() == want.size()); if (vec.size() == want.size()) CHECK(same_bytes(vec.data(), want.data(), vec.size())); }
			w->seek(0, Whence::END); CHECK(w->tell() == want.size());
			delete[] exact;
		}
}
