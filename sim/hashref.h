// Reference hashes of passwords for the search and server scenarios.
#pragma once
#include "../shim/sha1.h"
#include <string>
#include <vector>
inline std::string ref_sha1_hex(const std::string& pw) { return SHA1{}(pw); }
inline std::string ref_md4(const std::string& in) {
  auto rol = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
  uint32_t s[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
  std::string m = in; const uint64_t bits = static_cast<uint64_t>(in.size()) * 8;
  m += '\x80'; while (m.size() % 64 != 56) m += '\0';
  for (int i = 0; i < 8; ++i) m += static_cast<char>(bits >> (8 * i));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t x[16]; for (size_t i = 0; i < 16; ++i) { x[i] = 0; for (size_t j = 0; j < 4; ++j) x[i] |= static_cast<uint32_t>(static_cast<unsigned char>(m[o + 4 * i + j])) << (8 * j); }
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3];
    static const int k2[16] = {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15}, k3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
    static const int r1[4] = {3, 7, 11, 19}, r2[4] = {3, 5, 9, 13}, r3[4] = {3, 9, 11, 15};
    for (int i = 0; i < 48; ++i) {
      uint32_t f, k; int r;
      if (i < 16) { f = (b & c) | (~b & d); k = x[i]; r = r1[i % 4]; }
      else if (i < 32) { f = (b & c) | (b & d) | (c & d); k = x[k2[i - 16]] + 0x5a827999u; r = r2[i % 4]; }
      else { f = b ^ c ^ d; k = x[k3[i - 32]] + 0x6ed9eba1u; r = r3[i % 4]; }
      uint32_t t = rol(a + f + k, r); a = d; d = c; c = b; b = t;
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d;
  }
  std::string o; for (auto v : s) for (int j = 0; j < 4; ++j) o += static_cast<char>(v >> (8 * j));
  return o;
}
// MD4 of the UTF-16LE form of a valid UTF-8 password
inline std::string ref_ntlm(const std::string& pw) {
  std::string u; auto put = [&u](uint32_t w) { u += static_cast<char>(w & 0xFF); u += static_cast<char>(w >> 8 & 0xFF); };
  for (size_t i = 0; i < pw.size();) {
    const unsigned char c = static_cast<unsigned char>(pw[i]); const size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    uint32_t cp = n == 1 ? c : c & (0xFFu >> (n + 1)); for (size_t j = 1; j < n && i + j < pw.size(); ++j) cp = cp << 6 | (static_cast<unsigned char>(pw[i + j]) & 0x3F);
    if (cp >= 0x10000) { cp -= 0x10000; put(0xD800 | cp >> 10); put(0xDC00 | (cp & 0x3FF)); } else put(cp);
    i += n;
  }
  return ref_md4(u);
}
