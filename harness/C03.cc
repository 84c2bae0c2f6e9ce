// C03: reading a text line consumes exactly that line
//@bound arbitrary stream contents of 0..6 bytes (all 256 byte values), every start position, with and without whitespace skipping, arbitrary ignore set drawn from 2 characters
//@bound written lines: texts of 0,1,3 arbitrary bytes and of 300 bytes with 4 arbitrary ones
//@bound sources: memory, FILE*, std::istream (position compared only before the end for std::istream)
//@bound lines of 127..65536 bytes, 300 lines in a row and 5000 blanks after a line, from every source
//@outside longer inputs
#include "zse.h"
#include <cstdio>
#include <sstream>
#include <zenkit/Stream.hh>
using namespace zenkit;

static bool is_term(uint8_t c) { return (c == 0) | (c == '\n') | (c == '\r'); }
static bool is_ws(uint8_t c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n') | (c == '\v') | (c == '\f'); }

struct Ref { size_t len, pos; bool nulEnd; };
// end of the line starting at p, and the position afterwards
template <typename IGN> static Ref ref_line(uint8_t const* d, size_t n, size_t p, bool skip, IGN ign) {
	size_t e = p;
	while (e < n && !is_term(d[e])) ++e;
	Ref r {e - p, e, false};
	if (e == n) return r;
	r.pos = e + 1;
	if (d[e] == 0 || !skip) return r;
	while (r.pos < n && d[r.pos] != 0 && ign(d[r.pos])) ++r.pos;
	// a final NUL after skipped whitespace may or may not be consumed
	r.nulEnd = r.pos + 1 == n && d[r.pos] == 0;
	return r;
}

template <size_t N> static void lines(int source) {
	static uint8_t d[N + 1];
	sym_bytes(d, N, "data");
	unsigned start = choose(0, N, "start");
	unsigned mode = choose(0, 2, "mode");
	std::unique_ptr<Read> r;
	std::stringstream ss;
	FILE* f = nullptr;
	std::vector<std::byte> exact((std::byte*) d, (std::byte*) d + N);
	if (source == 0) r = Read::from(&exact);
	else if (source == 1) {
		f = tmpfile();
		fwrite(d, 1, N, f);
		rewind(f);
		r = Read::from(f);
	} else {
		ss.write((char*) d, N);
		r = Read::from((std::istream*) &ss);
	}
	r->seek(start, Whence::BEG);
	char set[2] = {};
	std::string got;
	Ref want;
	if (mode == 0) {
		want = ref_line(d, N, start, false, [](uint8_t) { return false; });
		got = r->read_line(false);
	} else if (mode == 1) {
		want = ref_line(d, N, start, true, is_ws);
		got = r->read_line(true);
	} else {
		sym_bytes(set, 2, "set");
		ASSUME((set[0] != 0) & (set[1] != 0));
		want = ref_line(d, N, start, true, [&](uint8_t c) { return (c == (uint8_t) set[0]) | (c == (uint8_t) set[1]); });
		got = r->read_line_then_ignore(std::string_view {set, 2});
	}
	CHECK(got.size() == want.len);
	CHECK(same_bytes(got.data(), d + start, want.len));
	if (source == 2 && want.pos >= N) return; // a std::istream has no position once it hit the end
	if (want.nulEnd) { CHECK(r->tell() == want.pos || r->tell() == want.pos + 1); return; }
	CHECK(r->tell() == want.pos);
	CHECK(r->tell() <= N);
	if (source == 0) CHECK(r->eof() == (want.pos == N));
	if (f) fclose(f);
}
HARNESS(C03_memory_0) { lines<0>(0); }
HARNESS(C03_memory_1) { lines<1>(0); }
HARNESS(C03_memory_3) { lines<3>(0); }
HARNESS(C03_memory_4) { lines<4>(0); }
HARNESS(C03_memory_5) { lines<5>(0); }
HARNESS(C03_memory_6) { lines<6>(0); }
HARNESS(C03_file_3) { lines<3>(1); }
HARNESS(C03_istream_3) { lines<3>(2); }

// what was written is read back, line after line
HARNESS(C03_roundtrip) {
	unsigned la = choose(0, 3, "la"), lb = choose(0, 3, "lb");
	std::string a = sym_line(la, "a"), b = sym_line(lb, "b");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	w->write_line(a);
	w->write_line(b);
	w->write_string0(a);
	w->write_ubyte(0x7f);
	CHECK(w->tell() == 2 * la + lb + 4);
	auto r = Read::from(&buf);
	CHECK(same(r->read_line(false), a));
	CHECK(r->tell() == la + 1);
	CHECK(same(r->read_line(false), b));
	CHECK(r->tell() == la + lb + 2);
	CHECK(same(r->read_line(false), a));
	CHECK(r->read_ubyte() == 0x7f);
	CHECK(r->eof());
}
HARNESS(C03_roundtrip_ws) {
	unsigned la = choose(0, 2, "la"), lb = choose(1, 3, "lb");
	std::string a = sym_line(la, "a"), b = sym_line(lb, "b");
	ASSUME(!is_ws(b[0]));
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	w->write_line(a);
	w->write_string(" \t\n");
	size_t at = w->tell();
	w->write_line(b);
	auto r = Read::from(&buf);
	CHECK(same(r->read_line(true), a));
	CHECK(r->tell() == at);
	CHECK(same(r->read_line(true), b));
	CHECK(r->eof());
}
HARNESS(C03_long_line) {
	std::string a(300, 'x');
	auto s = sym_line(4, "a");
	for (int i = 0; i < 4; ++i) a[i * 99] = s[i];
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	w->write_line(a);
	w->write_string0(a);
	auto r = Read::from(&buf);
	CHECK(same(r->read_line(false), a));
	CHECK(same(r->read_line(true), a));
	CHECK(r->eof());
}
// long lines, many lines, long runs of blanks; from every source
HARNESS(C03_large) {
	static size_t const LEN[] = {127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65536};
	size_t const n = LEN[choose(0, 15, "len")]; unsigned source = n > 20000 ? 0 : choose(0, 2, "source");
	std::string s(n, 'x'), sy = sym_line(4, "s");
	for (size_t i = 0; i < n; ++i) s[i] = (char) ('!' + i % 90);
	s[0] = sy[0]; s[n / 2] = sy[1]; s[n - 2] = sy[2]; s[n - 1] = sy[3];
	ASSUME(!is_ws((uint8_t) sy[0]));
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	w->write_line(s); w->write_string0(s); w->write_string(s); w->write_string("\r\n"); w->write_line("");
	for (unsigned i = 0; i < 300; ++i) w->write_line(std::string(i % 7, 'l') + (char) (uint8_t) sy[i % 4]);
	w->write_line(s); w->write_string(std::string(5000, ' ') + "\t\n" + std::string(300, '\n')); w->write_line(s); w->write_string("#####" + std::string(600, '#')); w->write_string("E"); w->write_ubyte(0);
	std::unique_ptr<Read> r; std::stringstream ss; FILE* f = nullptr;
	if (source == 0) r = Read::from(&buf);
	else if (source == 1) { f = tmpfile(); fwrite(buf.data(), 1, buf.size(), f); rewind(f); r = Read::from(f); }
	else { ss.write((char*) buf.data(), (std::streamsize) buf.size()); r = Read::from((std::istream*) &ss); }
	size_t at = 0;
	CHECK(same(r->read_line(false), s)); at += n + 1; CHECK(r->tell() == at);
	CHECK(same(r->read_line(true), s)); at += n + 1; CHECK(r->tell() == at);
	CHECK(same(r->read_line(false), s)); at += n + 1; CHECK(r->tell() == at); // at the line feed of the pair
	CHECK(r->read_line(false).empty()); CHECK(r->tell() == at + 1);
	CHECK(r->read_line(false).empty()); at += 2; CHECK(r->tell() == at);
	for (unsigned i = 0; i < 300; ++i) { CHECK(same(r->read_line(false), std::string(i % 7, 'l') + (char) (uint8_t) sy[i % 4])); at += i % 7 + 2; CHECK(r->tell() == at); }
	CHECK(same(r->read_line(true), s)); at += n + 1 + 5302; CHECK(r->tell() == at);
	CHECK(same(r->read_line_then_ignore("#"), s)); at += n + 1 + 605; CHECK(r->tell() == at);
	CHECK(same(r->read_line(false), std::string("E")));
	if (f) fclose(f);
}
