// damaged files: a stream that counts reads beyond its end, truncation and corruption of valid files
#pragma once
#include "mesh.h"
#include <zenkit/Stream.hh>
// makes v <= hi concrete: one path per value, by bisection
static size_t split(size_t v, size_t hi) {
	size_t lo = 0;
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (zse_concretize(v <= mid)) hi = mid;
		else lo = mid + 1;
	}
	return (size_t) zse_concretize(lo);
}
struct Watch final : Read {
	std::unique_ptr<Read> in;
	size_t len;
	unsigned past = 0, limit;
	bool endless; // running on past the limit means an endless loop (no count in the file is that large)
	Watch(std::vector<std::byte> const& v, size_t len, unsigned limit, bool endless) : in(Read::from(v.data(), len)), len(len), limit(limit), endless(endless) {}
	void over() {
		if (++past <= limit) return;
		if (endless) CHECKM(false, "the loader goes on reading long after the end of the file");
		ASSUME(false);
	}
	size_t read(void* buf, size_t len) noexcept override {
		size_t rest = this->len - in->tell();
		bool more = zse_concretize(len > rest);
		size_t want = more ? rest : split(len, rest); // one path per new position within the file
		size_t n = in->read(buf, want);
		if (more || in->eof()) over();
		return n;
	}
	void seek(ssize_t off, Whence w) noexcept override { // one path per new position within the file
		size_t at = (w == Whence::BEG ? 0 : w == Whence::CUR ? in->tell() : len) + (size_t) off;
		if (at > len) { in->seek(off, w); return; }
		in->seek((ssize_t) split(at, len), Whence::BEG);
	}
	size_t tell() const noexcept override { return in->tell(); }
	bool eof() const noexcept override { const_cast<Watch*>(this)->polls(); return in->eof(); }
	void polls() { if (in->eof()) over(); }
};
// one path per value, decided bit by bit
static unsigned choose16(unsigned lo, unsigned hi, char const* name) {
	unsigned v = 0, bits = 0;
	while ((hi - lo) >> bits) ++bits;
	while (bits--) {
		v = v * 2 + sym<bool>(name);
		v = (unsigned) zse_concretize(v);
		if ((v << bits) > hi - lo) ASSUME(false);
	}
	return lo + v;
}
template <typename L> static void attempt(Read* r, L load) {
	try { load(r); } catch (...) {}
}
// every prefix of a valid file
template <typename L> static void truncated(std::vector<std::byte> const& f, L load) {
	Watch r(f, choose16(0, (unsigned) f.size(), "len"), 5000, true);
	attempt(&r, load);
}
// a valid file in which `width` bytes at an offset that is a multiple of `step` have arbitrary values
template <typename L> static void damaged(std::vector<std::byte> f, unsigned width, unsigned step, L load, unsigned begin = 0, unsigned end = ~0u) {
	unsigned n = (unsigned) f.size(), off = begin + step * choose16(0, ((end < n ? end : n) - 1 - begin) / step, "offset");
	sym_bytes(f.data() + off, off + width > n ? n - off : width, "bytes");
	Watch r(f, f.size(), 400, false);
	attempt(&r, load);
}
// n arbitrary bytes
template <typename L> static void arbitrary(unsigned n, L load) {
	std::vector<std::byte> f(n);
	sym_bytes(f.data(), n, "file");
	Watch r(f, f.size(), 400, false);
	attempt(&r, load);
}
