// Stand-in for hash-library's sha1.h, which is missing from this checkout: a real SHA-1.
#pragma once
#include <array>
#include <cstdint>
#include <string>
struct SHA1 {
  std::string operator()(const std::string& text) const {
    auto rol = [](std::uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
    std::array<std::uint32_t, 5> h{0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
    std::string m = text;
    const std::uint64_t bits = static_cast<std::uint64_t>(text.size()) * 8;
    m += '\x80';
    while (m.size() % 64 != 56) m += '\0';
    for (int i = 7; i >= 0; --i) m += static_cast<char>(bits >> (8 * i));
    for (std::size_t o = 0; o < m.size(); o += 64) {
      std::uint32_t w[80];
      for (int i = 0; i < 16; ++i) {
        w[i] = 0;
        for (int j = 0; j < 4; ++j) w[i] = (w[i] << 8) | static_cast<unsigned char>(m[o + static_cast<std::size_t>(4 * i + j)]);
      }
      for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
      std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      for (int i = 0; i < 80; ++i) {
        std::uint32_t f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999u; }
        else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1u; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDCu; }
        else { f = b ^ c ^ d; k = 0xCA62C1D6u; }
        const std::uint32_t t = rol(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rol(b, 30); b = a; a = t;
      }
      h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    static const char* const hex = "0123456789ABCDEF";
    std::string out;
    for (auto v : h) for (int i = 28; i >= 0; i -= 4) out += hex[(v >> i) & 15u];
    return out;
  }
};
