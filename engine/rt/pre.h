// Force-included when the sources are compiled for the symbolic executor.
// Replaces libstdc++'s decimal formatting kernels by calls into the runtime,
// which introduces the decimal digits as solver variables (see libc.cc).
#pragma once
#ifdef __cplusplus
#include <bits/charconv.h>
extern "C" unsigned zse_rt_dec_len(unsigned long long v, int base) noexcept;
extern "C" void zse_rt_dec_digits(char* first, unsigned len, unsigned long long v) noexcept;
namespace std _GLIBCXX_VISIBILITY(default) {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail {
template<> inline unsigned __to_chars_len<unsigned>(unsigned v, int b) noexcept { return zse_rt_dec_len(v, b); }
template<> inline unsigned __to_chars_len<unsigned long>(unsigned long v, int b) noexcept { return zse_rt_dec_len(v, b); }
template<> inline unsigned __to_chars_len<unsigned long long>(unsigned long long v, int b) noexcept { return zse_rt_dec_len(v, b); }
template<> inline void __to_chars_10_impl<unsigned>(char* f, unsigned n, unsigned v) noexcept { zse_rt_dec_digits(f, n, v); }
template<> inline void __to_chars_10_impl<unsigned long>(char* f, unsigned n, unsigned long v) noexcept { zse_rt_dec_digits(f, n, v); }
template<> inline void __to_chars_10_impl<unsigned long long>(char* f, unsigned n, unsigned long long v) noexcept { zse_rt_dec_digits(f, n, v); }
}
_GLIBCXX_END_NAMESPACE_VERSION
}
// File streams: see libfs.cc.
#ifndef ZSE_RT
#include <istream>
#include <ostream>
#include <filesystem>
#pragma push_macro("_GLIBCXX_EXTERN_TEMPLATE")
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <fstream>
#pragma pop_macro("_GLIBCXX_EXTERN_TEMPLATE")
namespace std _GLIBCXX_VISIBILITY(default) {
template<> basic_filebuf<char>::basic_filebuf();
template<> basic_filebuf<char>* basic_filebuf<char>::open(char const*, ios_base::openmode);
template<> basic_filebuf<char>* basic_filebuf<char>::close();
template<> streamsize basic_filebuf<char>::xsputn(char const*, streamsize);
template<> int basic_filebuf<char>::overflow(int);
template<> streamsize basic_filebuf<char>::xsgetn(char*, streamsize);
template<> int basic_filebuf<char>::underflow();
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff(off_type, ios_base::seekdir, ios_base::openmode);
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos(pos_type, ios_base::openmode);
template<> int basic_filebuf<char>::sync();
template<> void basic_filebuf<char>::imbue(locale const&);
template<> streamsize basic_filebuf<char>::showmanyc();
template<> int basic_filebuf<char>::pbackfail(int);
template<> basic_streambuf<char>* basic_filebuf<char>::setbuf(char*, streamsize);
}
#endif
#endif
