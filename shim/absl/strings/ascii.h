#ifndef SHIM_ABSL_ASCII_H_
#define SHIM_ABSL_ASCII_H_
#include <string>
#include <string_view>
namespace absl {
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isdigit(unsigned char c) { return c - '0' < 10u; }
inline bool ascii_isxdigit(unsigned char c) { return static_cast<bool>(static_cast<int>(c - '0' < 10u) | static_cast<int>((c | 32) - 'a' < 6u)); }
inline bool ascii_isalpha(unsigned char c) { return (c | 32) - 'a' < 26u; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isdigit(c) || ascii_isalpha(c); }
inline char ascii_toupper(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
inline char ascii_tolower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isgraph(c) && !ascii_isalnum(c); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == 9; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) c = ascii_tolower((unsigned char)c); }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) c = ascii_toupper((unsigned char)c); }
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); AsciiStrToLower(&r); return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); AsciiStrToUpper(&r); return r; }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace((unsigned char)s.front())) s.remove_prefix(1); return s; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace((unsigned char)s.back())) s.remove_suffix(1); return s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(std::string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(std::string_view(*s))); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(std::string_view(*s))); }
}
#endif
