// Stand-in for utfcpp (not installable offline): the two conversions SeQuant
// uses, for well-formed input.
#ifndef SIM_SHIM_UTF8_H
#define SIM_SHIM_UTF8_H
#include <stdexcept>
#include <string>
#include <string_view>
namespace utf8 {
inline std::string utf16to8(std::u16string_view s) {
  std::string out;
  for (std::size_t i = 0; i < s.size(); ++i) {
    char32_t c = s[i];
    if (c >= 0xD800 && c < 0xDC00) {
      if (i + 1 >= s.size()) throw std::runtime_error("bad utf-16");
      char32_t d = s[++i];
      if (d < 0xDC00 || d > 0xDFFF) throw std::runtime_error("bad utf-16");
      c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00);
    } else if (c >= 0xDC00 && c < 0xE000)
      throw std::runtime_error("bad utf-16");
    if (c < 0x80)
      out += char(c);
    else if (c < 0x800) {
      out += char(0xC0 | (c >> 6));
      out += char(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
      out += char(0xE0 | (c >> 12));
      out += char(0x80 | ((c >> 6) & 0x3F));
      out += char(0x80 | (c & 0x3F));
    } else {
      out += char(0xF0 | (c >> 18));
      out += char(0x80 | ((c >> 12) & 0x3F));
      out += char(0x80 | ((c >> 6) & 0x3F));
      out += char(0x80 | (c & 0x3F));
    }
  }
  return out;
}
inline std::u16string utf8to16(std::string_view s) {
  std::u16string out;
  for (std::size_t i = 0; i < s.size();) {
    unsigned char b = s[i];
    int n = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
    if (n == 0 || i + n > s.size()) throw std::runtime_error("bad utf-8");
    char32_t c = n == 1 ? b : b & (0xFF >> (n + 1));
    for (int k = 1; k < n; ++k) {
      unsigned char x = s[i + k];
      if ((x & 0xC0) != 0x80) throw std::runtime_error("bad utf-8");
      c = (c << 6) | (x & 0x3F);
    }
    i += n;
    if (c < 0x10000)
      out += char16_t(c);
    else {
      c -= 0x10000;
      out += char16_t(0xD800 + (c >> 10));
      out += char16_t(0xDC00 + (c & 0x3FF));
    }
  }
  return out;
}
}  // namespace utf8
#endif
