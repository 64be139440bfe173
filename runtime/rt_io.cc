// Models of the out-of-line parts of the stream library (symbolic build only): the stream templates are instantiated
// from the library's headers; locales are replaced by one "C" locale, and the formatting of numbers is written out.
// Compiled with -fno-access-control.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
#include <limits>
#include <locale>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
namespace std {
alignas(ctype<char>) static char vf_raw[sizeof(ctype<char>)];
static ctype_base::mask vf_table[256];
static bool vf_fill() {
  auto* c = reinterpret_cast<ctype<char>*>(vf_raw);
  c->_M_widen_ok = 1;
  c->_M_narrow_ok = 1;
  c->_M_table = vf_table;
  for (int i = 0; i < 256; i++) {
    c->_M_widen[i] = c->_M_narrow[i] = static_cast<char>(i);
    vf_table[i] = (i == ' ' || (i >= 9 && i <= 13)) ? ctype_base::space : 0;
    if (i >= '0' && i <= '9') vf_table[i] |= ctype_base::digit;
  }
  return true;
}
bool vf_filled = vf_fill();
static const ctype<char>* vf_ctype() { return vf_filled ? reinterpret_cast<ctype<char>*>(vf_raw) : nullptr; }
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale&) throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
ios_base::ios_base() throw()
    : _M_precision(0), _M_width(0), _M_flags(fmtflags()), _M_exception(goodbit), _M_streambuf_state(badbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(nullptr) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
  _M_precision = 6; _M_width = 0; _M_flags = skipws | dec;
}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
template <> void basic_ios<char>::_M_cache_locale(const locale&) {
  _M_ctype = vf_ctype(); _M_num_put = nullptr; _M_num_get = nullptr;
}
static ostream& vf_put(ostream& os, const char* p, long n, long prefix) {
  long pad = os.width() > n ? os.width() - n : 0;
  auto adj = os.flags() & ios_base::adjustfield;
  string s;
  if (adj == ios_base::left) s.append(p, n).append(pad, os.fill());
  else if (adj == ios_base::internal) s.append(p, prefix).append(pad, os.fill()).append(p + prefix, n - prefix);
  else s.append(pad, os.fill()).append(p, n);
  os.width(0);
  if (os.good() && os.rdbuf()->sputn(s.data(), s.size()) != static_cast<long>(s.size())) os.setstate(ios_base::badbit);
  return os;
}
static ostream& vf_number(ostream& os, unsigned long v, bool neg, int bits) {
  char b[80]; int n = 80; long prefix = 0;
  auto base = os.flags() & ios_base::basefield;
  bool up = os.flags() & ios_base::uppercase, show = (os.flags() & ios_base::showbase) && v;
  unsigned r = base == ios_base::hex ? 16 : base == ios_base::oct ? 8 : 10;
  if (r != 10 && neg) { v = -v; if (bits < 64) v &= (1ul << bits) - 1; neg = false; }
  do { unsigned d = v % r; b[--n] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= r; } while (v);
  if (show && r == 16) { b[--n] = up ? 'X' : 'x'; b[--n] = '0'; prefix = 2; }
  if (show && r == 8) b[--n] = '0';
  if (r == 10 && neg) { b[--n] = '-'; prefix = 1; }
  else if (r == 10 && (os.flags() & ios_base::showpos)) { b[--n] = '+'; prefix = 1; }
  return vf_put(os, b + n, 80 - n, prefix);
}
template <> template <> ostream& ostream::_M_insert<long>(long v) { return vf_number(*this, v < 0 ? 0 - static_cast<unsigned long>(v) : v, v < 0, 64); }
template <> template <> ostream& ostream::_M_insert<long long>(long long v) { return vf_number(*this, v < 0 ? 0 - static_cast<unsigned long>(v) : v, v < 0, 64); }
template <> template <> ostream& ostream::_M_insert<unsigned long>(unsigned long v) { return vf_number(*this, v, false, 64); }
template <> template <> ostream& ostream::_M_insert<unsigned long long>(unsigned long long v) { return vf_number(*this, v, false, 64); }
template <> template <> ostream& ostream::_M_insert<bool>(bool v) { return flags() & boolalpha ? vf_put(*this, v ? "true" : "false", v ? 4 : 5, 0) : vf_number(*this, v, false, 64); }
template <> ostream& ostream::operator<<(int v) {
  auto base = flags() & basefield;
  if (base == oct || base == hex) return vf_number(*this, static_cast<unsigned>(v), false, 32);
  return _M_insert(static_cast<long>(v));
}
template <> ostream& ostream::operator<<(short v) {
  auto base = flags() & basefield;
  if (base == oct || base == hex) return vf_number(*this, static_cast<unsigned short>(v), false, 32);
  return _M_insert(static_cast<long>(v));
}
template <> ostream& __ostream_insert(ostream& os, const char* s, streamsize n) { return vf_put(os, s, n, 0); }
template <> istream& getline(istream& is, string& s, char delim) {
  s.clear();
  bool got = false;
  while (is.good()) {
    int c = is.rdbuf()->sbumpc();
    if (c == EOF) { is.setstate(got ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
    got = true;
    if (static_cast<char>(c) == delim) return is;
    s.push_back(static_cast<char>(c));
  }
  if (!got) is.setstate(ios_base::failbit);
  return is;
}
bool uncaught_exception() noexcept { return false; }
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template class basic_iostream<char>;
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, const char*);
template istream& getline(istream&, string&, char);
template istream& getline(istream&, string&);
}  // namespace std
