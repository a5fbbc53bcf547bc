// Stand-in for the transcoding library that ADA_USE_SIMDUTF selects (it is not installed here):
// the functions of its documented interface for UTF-8 and UTF-32, written plainly.
// The length functions do not validate; the conversions answer 0 for malformed input.
#ifndef VERIF_SIMDUTF_H
#define VERIF_SIMDUTF_H
#include <cstddef>
#include <cstdint>
namespace simdutf {
enum error_code { SUCCESS = 0, HEADER_BITS, TOO_SHORT, TOO_LONG, OVERLONG, TOO_LARGE, SURROGATE, OTHER };
struct result {
  error_code error;
  size_t count;
};
namespace standin {
// one scalar value from at most n bytes: its length, or 0
inline size_t one(const char* s, size_t n, char32_t& out) {
  auto b = [&](size_t i) { return static_cast<uint32_t>(static_cast<unsigned char>(s[i])); };
  uint32_t c = b(0);
  if (c < 0x80) { out = c; return 1; }
  size_t k = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
  if (c < 0xC2 || c > 0xF4 || n < k) return 0;
  uint32_t v = c & (0xFFu >> (k + 1));
  for (size_t i = 1; i < k; ++i) {
    if ((b(i) & 0xC0) != 0x80) return 0;
    v = v << 6 | (b(i) & 0x3F);
  }
  if ((k == 3 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (k == 4 && (v < 0x10000 || v > 0x10FFFF))) return 0;
  out = v;
  return k;
}
}  // namespace standin
inline bool validate_utf8(const char* s, size_t n) noexcept {
  char32_t c;
  for (size_t i = 0, k; i < n; i += k)
    if ((k = standin::one(s + i, n - i, c)) == 0) return false;
  return true;
}
inline bool validate_ascii(const char* s, size_t n) noexcept {
  for (size_t i = 0; i < n; ++i)
    if (static_cast<unsigned char>(s[i]) >= 0x80) return false;
  return true;
}
inline bool validate_utf32(const char32_t* s, size_t n) noexcept {
  for (size_t i = 0; i < n; ++i)
    if (s[i] > 0x10FFFF || (s[i] >= 0xD800 && s[i] < 0xE000)) return false;
  return true;
}
inline size_t count_utf8(const char* s, size_t n) noexcept {
  size_t k = 0;
  for (size_t i = 0; i < n; ++i) k += (static_cast<unsigned char>(s[i]) & 0xC0) != 0x80;
  return k;
}
inline size_t utf32_length_from_utf8(const char* s, size_t n) noexcept { return count_utf8(s, n); }
inline size_t utf8_length_from_utf32(const char32_t* s, size_t n) noexcept {
  size_t k = 0;
  for (size_t i = 0; i < n; ++i) k += s[i] < 0x80 ? 1 : s[i] < 0x800 ? 2 : s[i] < 0x10000 ? 3 : 4;
  return k;
}
inline size_t convert_valid_utf8_to_utf32(const char* s, size_t n, char32_t* o) noexcept {
  size_t m = 0;
  for (size_t i = 0, k; i < n; i += k) {
    char32_t c = 0;
    if ((k = standin::one(s + i, n - i, c)) == 0) return m;
    o[m++] = c;
  }
  return m;
}
inline size_t convert_utf8_to_utf32(const char* s, size_t n, char32_t* o) noexcept {
  size_t m = 0;
  for (size_t i = 0, k; i < n; i += k) {
    char32_t c = 0;
    if ((k = standin::one(s + i, n - i, c)) == 0) return 0;
    o[m++] = c;
  }
  return m;
}
inline size_t convert_utf32_to_utf8(const char32_t* s, size_t n, char* o) noexcept {
  char* const start = o;
  for (size_t i = 0; i < n; ++i) {
    uint32_t c = s[i];
    if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
    auto put = [&](uint32_t v) { *o++ = static_cast<char>(v); };
    if (c < 0x80) put(c);
    else if (c < 0x800) { put(0xC0 | c >> 6); put(0x80 | (c & 63)); }
    else if (c < 0x10000) { put(0xE0 | c >> 12); put(0x80 | (c >> 6 & 63)); put(0x80 | (c & 63)); }
    else { put(0xF0 | c >> 18); put(0x80 | (c >> 12 & 63)); put(0x80 | (c >> 6 & 63)); put(0x80 | (c & 63)); }
  }
  return static_cast<size_t>(o - start);
}
inline size_t convert_valid_utf32_to_utf8(const char32_t* s, size_t n, char* o) noexcept { return convert_utf32_to_utf8(s, n, o); }
}  // namespace simdutf
#endif
