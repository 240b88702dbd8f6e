// The header of a WAV file as the (stand-in) header writer lays it out.
#pragma once
#include <cstdint>
#include <string>
namespace wavhdr {
inline size_t Size(int bits) { return bits == 24 ? 80 : 44; }
inline std::string Header(int nch, int rate, int bits, size_t ticks) {
  std::string h; auto w = [&](uint32_t v, int k) { for (int i = 0; i < k; ++i) h.push_back((char)(v >> (8 * i))); }; const uint32_t ds = (uint32_t)(ticks * nch * bits / 8); const bool ext = bits == 24;
  h += "RIFF"; w((uint32_t)Size(bits) - 8 + ds, 4); h += "WAVEfmt "; w(ext ? 40 : 16, 4); w(ext ? 0xfffe : 1, 2); w(nch, 2); w(rate, 4); w(rate * nch * bits / 8, 4); w(nch * bits / 8, 2); w(bits, 2);
  if (ext) { w(22, 2); w(bits, 2); w(0, 4); h += std::string("\x01\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71", 16); h += "fact"; w(4, 4); w((uint32_t)ticks, 4); }
  h += "data"; w(ds, 4); return h;
}
}  // namespace wavhdr
