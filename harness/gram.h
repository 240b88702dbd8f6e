// Reference grammar of IAMF OBUs, written from the specification's syntax tables:
// each production emits the bits of one OBU payload, a readable dump of every
// field, and whether the result is a valid OBU. Choice points select the field
// values; `out` is what a writer must produce for the parsed OBU (minimal ULEBs,
// clipped angles).
#pragma once
#include <cstdint>
#include <set>
#include <string>
#include <vector>
#include "choose.h"

namespace gram {
using Bytes = std::vector<uint8_t>;
struct Bits {
  Bytes b; int free = 0;
  void put(int n, uint64_t v) { for (int i = n - 1; i >= 0; --i) { if (!free) { b.push_back(0); free = 8; } b.back() |= (v >> i & 1) << --free; } }
  void bytes(const Bytes& x) { for (auto v : x) put(8, v); }
  void leb(uint64_t v, int pad = 0) { do { uint8_t x = v & 0x7f; v >>= 7; put(8, x | (v || pad ? 0x80 : 0)); } while (v); for (; pad; --pad) put(8, pad > 1 ? 0x80 : 0); }
  void iso(uint32_t v, int pad = 0) { Bytes x; do { x.insert(x.begin(), v & 0x7f); v >>= 7; } while (v); while (pad--) x.insert(x.begin(), 0); for (size_t i = 0; i + 1 < x.size(); ++i) x[i] |= 0x80; bytes(x); }
  void str(const std::string& s) { for (char c : s) put(8, (uint8_t)c); put(8, 0); }
};
struct G {
  Chooser& c;
  Bits in, out; std::string d; bool ok = true; bool rw = true; bool padding = true; bool unk = false;  // unk: the shape is legal or not depending on details this grammar does not track
  explicit G(Chooser& c_) : c(c_) {}
  void dump(const char* n, int64_t v) { d += n; d += '='; d += std::to_string(v); d += ';'; }
  void dump(const char* n, const std::string& v) { d += n; d += '='; d += v; d += ';'; }
  void dumpb(const char* n, const Bytes& v) { d += n; d += '='; for (auto x : v) { d += std::to_string(x); d += ' '; } d += ';'; }
  void raw(int bits, uint64_t v) { in.put(bits, v); out.put(bits, v); }
  uint64_t f(const char* n, int bits, uint64_t v) { raw(bits, v); dump(n, (int64_t)v); return v; }
  int64_t s(const char* n, int bits, int64_t v) { raw(bits, (uint64_t)v); dump(n, v); return v; }
  void leb_raw(uint64_t v) { in.leb(v, padding ? c(2) : 0); out.leb(v); }
  uint64_t leb(const char* n, uint64_t v) { leb_raw(v); dump(n, (int64_t)v); if (v > 0xffffffffull) ok = false; return v; }
  void str(const char* n, const std::string& v) { in.str(v); out.str(v); dump(n, v); if (v.size() > 127) ok = false; }
  void bytes(const char* n, const Bytes& v) { in.bytes(v); out.bytes(v); dumpb(n, v); }
  void append(const G& o) { in.bytes(o.in.b); out.bytes(o.out.b); d += o.d; ok &= o.ok; rw &= o.rw; unk |= o.unk; }
};
constexpr uint64_t kMaxObu = 2097152;

inline void IaSequenceHeader(G& g) {
  uint32_t code = g.c.alt<uint32_t>({0x69616d66, 0x69616d67, 0x49414d46});
  g.raw(32, code); g.ok &= code == 0x69616d66;
  int p = g.c.alt<int>({0, 1, 2, 3, 4, 5, 6, 127, 255});
  g.f("primary", 8, p); g.ok &= p <= 5;
  g.f("additional", 8, g.c.alt<int>({0, 1, 5, 6, 200, 255}));
}
inline bool IsLpcmRate(uint32_t r) { return r == 16000 || r == 32000 || r == 44100 || r == 48000 || r == 96000; }
inline bool IsFlacRate(uint32_t r) { for (uint32_t x : {8000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000}) if (r == x) return true; return false; }

inline void CodecConfig(G& g) {
  auto& c = g.c;
  g.leb("id", c.alt<uint64_t>({0, 1, 127, 128, 0xffffffff, 0x100000000ull}));
  int codec = c.alt<int>({0, 1, 2, 3, 4});
  static const uint32_t ids[] = {0x6970636d, 0x4f707573, 0x664c6143, 0x6d703461, 0x12345678};
  g.raw(32, ids[codec]); g.dump("codec", ids[codec]);
  uint32_t n = c.alt<uint32_t>({1024, 1, 960, 16, 3840, 3841, 96000, 96001, 0});
  g.leb("nspf", n); g.ok &= n >= 1 && n <= 96000;
  int want_roll = codec == 1 && n ? -(int)((3840 + n - 1) / n) : codec == 3 ? -1 : 0;
  int roll = want_roll + c.alt<int>({0, 1, -1, 256});
  g.s("roll", 16, roll); g.ok &= (int16_t)roll == want_roll;
  auto outs = [&](int64_t orate, int64_t irate, int64_t bd) { g.dump("orate", orate); g.dump("irate", irate); g.dump("bd", bd); };
  if (codec == 0) {
    int flags = g.f("flags", 8, c.alt<int>({1, 0, 2, 255})), size = g.f("size", 8, c.alt<int>({16, 24, 32, 8, 20, 0, 255}));
    uint32_t rate = g.f("rate", 32, c.alt<uint32_t>({48000, 16000, 32000, 44100, 96000, 0, 8000, 192000, 0x80bb0000}));
    g.ok &= flags <= 1 && (size == 16 || size == 24 || size == 32) && IsLpcmRate(rate);
    outs(rate, rate, size);
  } else if (codec == 1) {
    int ver = g.f("version", 8, c.alt<int>({1, 15, 0, 16, 17, 255}));
    int ch = g.f("channels", 8, c.alt<int>({2, 1, 0, 3}));
    g.f("pre_skip", 16, c.alt<int>({312, 0, 65535, 256}));
    uint32_t ir = g.f("input_rate", 32, c.alt<uint32_t>({48000, 44100, 0, 0xffffffff, 16000}));
    int gain = g.s("gain", 16, c.alt<int>({0, 1, -1}));
    int fam = g.f("family", 8, c.alt<int>({0, 1, 255}));
    g.ok &= ver >= 1 && ver <= 15 && ch == 2 && gain == 0 && fam == 0;
    outs(48000, ir, 32);
  } else if (codec == 2) {
    int nb = c.alt<int>({1, 2, 3, 128, 129});
    g.dump("blocks", nb);
    uint32_t rate = 0, bps = 0;
    for (int i = 0; i < nb; ++i) {
      int type = i == 0 ? c.alt<int>({0, 1}) : i < 3 ? c.alt<int>({1, 0, 4, 127}) : 1;
      g.raw(1, i == nb - 1); g.f("type", 7, type);
      if (i == 0 && type != 0) g.ok = false;
      if (i > 0 && type == 0) g.ok = g.ok && true;  // a second STREAMINFO is passed through
      if (type == 0) {
        g.in.put(24, c.alt<int>({34, 0, 255})); g.out.put(24, 34);
        uint32_t mn = g.f("minb", 16, (n + c.alt<int>({0, 1})) & 0xffff), mx = g.f("maxb", 16, (n + c.alt<int>({0, 1})) & 0xffff);
        uint32_t mif = g.f("minf", 24, c.alt<int>({0, 1, 0xffffff})), maf = g.f("maxf", 24, c.alt<int>({0, 1, 0xffffff}));
        uint32_t r = g.f("rate", 20, c.alt<int>({48000, 8000, 16000, 22050, 24000, 32000, 44100, 88200, 96000, 176400, 192000, 0, 48001}));
        uint32_t ch = g.f("ch", 3, c.alt<int>({1, 0, 2})), b = g.f("bps", 5, c.alt<int>({15, 23, 31, 7, 16}));
        g.f("total", 36, c.alt<uint64_t>({0, 1, 0xfffffffffull, 0x123456789ull}));
        Bytes md5(16, 0); int m = c.alt<int>({0, 1}); if (m) md5[15] = 7;
        g.bytes("md5", md5);
        if (i == 0) { g.ok &= mn == n && mx == n && IsFlacRate(r) && ch == 1 && (b == 15 || b == 23 || b == 31); rate = r; bps = b; if (mif || maf || m) g.rw = false; }
      } else {
        int len = i < 3 ? c.alt<int>({0, 1, 5}) : 0; Bytes p(len); for (int k = 0; k < len; ++k) p[k] = 0xa0 + k;
        g.raw(24, len); g.bytes("block", p);
      }
    }
    g.ok &= nb <= 128;
    outs(rate, rate, bps + 1);
  } else if (codec == 3) {
    int tag = g.f("tag", 8, c.alt<int>({4, 5})); 
    G inner(c), spec(c);
    int oti = inner.f("oti", 8, c.alt<int>({0x40, 0x41})), st = inner.f("st", 6, c.alt<int>({5, 4})), up = inner.f("up", 1, c.alt<int>({0, 1})), res = inner.f("res", 1, c.alt<int>({1, 0}));
    inner.f("buf", 24, c.alt<int>({0, 1, 0xffffff})); inner.f("max", 32, c.alt<uint32_t>({0, 64000, 0xffffffff})); inner.f("avg", 32, c.alt<uint32_t>({0, 64000, 0xffffffff}));
    int tag2 = inner.f("tag2", 8, c.alt<int>({5, 4}));
    static const uint32_t rates[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
    int aot = spec.f("aot", 5, c.alt<int>({2, 5})), fi = spec.f("fi", 4, c.alt<int>({3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})), ch = spec.f("ch", 4, c.alt<int>({2, 1})),
        f1 = spec.f("f1", 1, c.alt<int>({0, 1})), f2 = spec.f("f2", 1, c.alt<int>({0, 1})), f3 = spec.f("f3", 1, c.alt<int>({0, 1}));
    Bytes e1 = c.alt<Bytes>({{}, {9}, {1, 2, 3}}), e2 = c.alt<Bytes>({{}, {8}, {3, 2, 1}, Bytes(130, 6)});
    spec.bytes("ext1", e1);
    int delta1 = c.alt<int>({0, -1, 1});  // declared size of the inner descriptor
    int size1 = std::max(0, (int)spec.in.b.size() + delta1), size1o = spec.out.b.size();
    inner.in.iso(size1, c(2)); inner.out.iso(size1o); inner.append(spec); inner.bytes("ext2", e2);
    int delta2 = c.alt<int>({0, -1, 1});
    g.in.iso(std::max(0, (int)inner.in.b.size() + delta2), c(2)); g.out.iso(inner.out.b.size()); g.append(inner);
    if (delta1 || delta2) g.unk = true;
    g.ok &= tag == 4 && oti == 0x40 && st == 5 && !up && res && tag2 == 5 && aot == 2 && fi <= 12 && ch == 2 && !f1 && !f2 && !f3;
    int64_t r = fi <= 12 ? rates[fi] : 0; outs(r, r, 16);
  } else {
    g.raw(32, 0x01020304); g.ok = false;
  }
}

// --- parameter definitions ---------------------------------------------------
struct Sched { uint64_t dur = 0, cdur = 0; std::vector<uint64_t> sub; };
// mode 0 schedule in a definition. `strict`: demixing/recon gain (one subblock).
inline void Schedule(G& g, uint64_t dur, bool strict) {
  auto& c = g.c;
  g.leb("dur", dur); g.ok &= dur != 0;
  uint64_t cd = c.alt<uint64_t>({dur, dur / 2, dur + 1, 0, 3});
  g.leb("cdur", cd);
  if (cd) { g.ok &= cd <= dur; if (dur) g.dump("nsub", (int64_t)((dur + cd - 1) / cd)); }
  else {
    std::vector<uint64_t> subs = c.alt<std::vector<uint64_t>>({{dur - 1, 1}, {dur}, {dur - 2, 1, 1}, {dur - 1, 2}, {dur, 0}, {}, {dur - 2, 1}, {1, 1, 1, 1, 1, 1}});
    // A declared count above the limit is refused before any duration is read.
    uint64_t n = subs.size() + c.alt<uint64_t>({0, 192001, 1000000000});
    g.leb("nsub", n); g.ok &= n >= 1 && n <= 192000 && n <= dur && n == subs.size();
    uint64_t sum = 0;
    for (auto x : subs) { g.leb("sub", x); sum += x; g.ok &= x != 0; }
    g.ok &= sum == dur;
    if (strict) g.ok = false;
  }
  if (strict && cd != dur) g.ok = false;
  if (cd == 0 && dur == 0) g.ok = false;
}
inline void ParamBase(G& g, uint64_t id, uint64_t rate, uint64_t dur, bool strict = false, bool small = false) {
  auto& c = g.c;
  g.leb("pid", small ? id : c.alt<uint64_t>({id, 0xffffffff, 0x100000000ull}));
  uint64_t r = g.leb("prate", c.alt<uint64_t>({rate, 0, 1}));
  int mode = g.f("mode", 1, c(2)); g.f("pres", 7, c.alt<int>({0, 1, 127}));
  if (mode == 0) { if (r == 0) g.ok = false; Schedule(g, c.alt<uint64_t>({dur, 1, 0, 6}), strict); }
  else if (r == 0 || strict) g.rw = false;  // accepted when read, refused when written
}
inline void DefaultDemixing(G& g) {
  int p = g.f("dmixp", 3, g.c.alt<int>({0, 1, 2, 3, 4, 5, 6, 7})); g.ok &= p != 3 && p != 7;
  g.f("dres", 5, g.c.alt<int>({0, 1, 31})); g.f("dw", 4, g.c.alt<int>({0, 10, 15})); g.f("dwres", 4, g.c.alt<int>({0, 15}));
}
inline void MixGainDef(G& g, uint64_t id, uint64_t rate = 48000, uint64_t dur = 1024) { ParamBase(g, id, rate, dur); g.s("mg", 16, g.c.alt<int>({0, -32768, 32767, 256, -1})); }

inline void AudioElement(G& g) {
  auto& c = g.c;
  g.leb("id", c.alt<uint64_t>({300, 0, 0xffffffff}));
  int type = c.alt<int>({0, 1, 2, 3, 7});
  g.f("type", 3, type); g.raw(5, c.alt<int>({0, 1, 31})); g.leb("ccid", c.alt<uint64_t>({200, 0, 0xffffffff}));
  // Number of substreams follows from the config below; generate the config first.
  G cfg(c); uint64_t want = 1; bool exact = true;
  if (type == 0) {
    int nl = c.alt<int>({1, 2, 6, 0, 7}); cfg.f("layers", 3, nl); cfg.f("lres", 5, c.alt<int>({0, 31}));
    cfg.ok &= nl >= 1 && nl <= 6; want = 0;
    for (int i = 0; i < nl; ++i) {
      bool rich = i < 2;
      int lay = rich ? c.alt<int>({1, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15}) : 7;
      cfg.f("layout", 4, lay); if (lay == 9 && nl > 1) cfg.ok = false;
      int og = rich ? c(2) : 0; cfg.f("og", 1, og); cfg.f("rg", 1, rich ? c(2) : 0); cfg.f("ra", 2, rich ? c.alt<int>({0, 3}) : 0);
      int sc = rich ? c.alt<int>({1, 2, 3, 200}) : 1, cc = rich ? c.alt<int>({1, 0, 2}) : 1;
      cfg.f("sc", 8, sc); cfg.f("cc", 8, cc); want += sc;
      if (og) { cfg.f("ogf", 6, c.alt<int>({0, 1, 32, 63})); cfg.f("rb", 2, c.alt<int>({0, 3})); cfg.s("ogv", 16, c.alt<int>({0, -32768, 32767})); }
      if (lay == 15) cfg.f("exp", 8, c.alt<int>({0, 1, 8, 12, 13, 18, 19, 20, 255}));
      else cfg.d += "exp=none;";
    }
  } else if (type == 1) {
    int mode = c.alt<int>({0, 1, 2, 7}); cfg.leb("amode", mode);
    if (mode == 0) {
      int occ = c.alt<int>({1, 4, 9, 16, 225, 0, 2, 3, 224, 255}); int n = c.alt<int>({occ < 4 ? 1 : 4, 1, 0, 3, 5});
      cfg.f("occ", 8, occ); cfg.f("n", 8, n);
      Bytes m(occ); for (int i = 0; i < occ; ++i) m[i] = n ? i % n : 0;
      int twist = c(5);
      if (occ) { if (twist == 1) m[0] = 255; if (twist == 2) m[occ - 1] = n; if (twist == 3) m[0] = m[occ - 1]; if (twist == 4) for (auto& x : m) x = 255; }
      cfg.bytes("map", m);
      std::set<int> used; for (auto x : m) if (x != 255) { used.insert(x); if (x >= n) cfg.ok = false; }
      int r = 0; while (r * r < occ) ++r;
      cfg.ok &= occ >= 1 && occ <= 225 && r * r == occ && n >= 1 && n <= occ && (int)used.size() == n; want = n;
    } else if (mode == 1) {
      int occ = c.alt<int>({4, 1, 9, 0, 5, 225, 226}), n = c.alt<int>({2, 1, 0, 4, 200}), m = c.alt<int>({1, 0, 2, 3, 56});
      cfg.f("occ", 8, occ); cfg.f("n", 8, n); cfg.f("m", 8, m);
      int r = 0; while (r * r < occ) ++r;
      bool good = occ >= 1 && occ <= 225 && r * r == occ && m <= n && n + m >= 1 && n + m <= occ;
      cfg.ok &= good;
      int cnt = good ? (n + m) * occ : 8;
      for (int i = 0; i < cnt; ++i) cfg.s("dm", 16, i == 0 ? c.alt<int>({-32768, 32767, 1}) : i % 7 - 3);
      want = n;
    } else { cfg.rw = false; exact = false; cfg.d = "amode=?;"; want = c.alt<int>({1, 2}); cfg.ok = want == 1; }
  } else if (type == 2) {
    int size = c.alt<int>({1, 3, 0, 200}), no = c.alt<int>({1, 2, 0, 3, 255});
    cfg.raw(8, size); cfg.ok &= size >= 1 && no >= 1 && no <= 2;
    cfg.f("nobj", 8, no); Bytes e(std::max(0, size - 1)); for (size_t i = 0; i < e.size(); ++i) e[i] = i + 3;
    cfg.bytes("oext", e); exact = false; want = c.alt<int>({1, 2});
  } else {
    Bytes e = c.alt<Bytes>({{}, {1}, {9, 8, 7}, Bytes(130, 5)}); cfg.leb_raw(e.size()); cfg.bytes("ext", e); exact = false; want = c.alt<int>({1, 0, 3});
  }
  int delta = exact ? c.alt<int>({0, 1, -1}) : 0;
  uint64_t ns = std::max<int64_t>(0, (int64_t)want + delta);
  g.leb("nsub", ns);
  int dup = c(3); uint64_t base = c.alt<uint64_t>({0, 100, 0xffffffff});
  std::set<uint64_t> ids;
  for (uint64_t i = 0; i < ns; ++i) { uint64_t v = base > 1000 ? base - i : base + i; if (dup && i + 1 == ns && ns > 1) v = dup == 1 ? base : v + 1000; v &= 0xffffffff; if (dup == 1 && ns == 1) v = base; bool save = g.padding; g.padding = i < 2; g.leb("sid", v); g.padding = save; if (!ids.insert(v).second) g.ok = false; }
  if (delta && ns != want) g.ok = false;
  // Parameters: a list of kinds.
  std::vector<int> kinds = c.alt<std::vector<int>>({{}, {1}, {2}, {1, 2}, {9}, {2, 1, 9, 1000}, {0}, {1, 1}, {9, 9}, {3}});
  uint64_t claimed = kinds.size(); int overflow = c(2); if (overflow) claimed = 257;
  g.leb("nparam", claimed);
  if (overflow) g.ok = false;
  std::set<int> seen;
  for (int k : kinds) {
    g.leb("ptype", k); if (!seen.insert(k).second || k == 0) g.ok = false;
    if (k == 1) { ParamBase(g, 1000, 48000, 1024, true); DefaultDemixing(g); }
    else if (k == 2) { ParamBase(g, 1001, 48000, 1024, true); }
    else if (k == 0) { MixGainDef(g, 5); }
    else { Bytes e = c.alt<Bytes>({{1, 2}, {}, Bytes(200, 3)}); g.leb_raw(e.size()); g.bytes("pbytes", e); }
  }
  g.append(cfg);
}

// Position parameters. Angles outside the legal range are clipped when read.
inline void Clip(G& g, const char* n, int bits, int64_t v, int64_t lo, int64_t hi) { int64_t w = std::min(hi, std::max(lo, v)); g.in.put(bits, (uint64_t)v); g.out.put(bits, (uint64_t)w); g.dump(n, w); }
inline void PositionDef(G& g, int type) {
  auto& c = g.c;
  ParamBase(g, 77, 48000, 1024);
  auto polar = [&] { Clip(g, "az", 9, c.alt<int>({0, -180, 180, 181, -256, 255, -181}), -180, 180); Clip(g, "el", 8, c.alt<int>({0, -90, 90, 91, -128, 127}), -90, 90); g.f("di", 7, c.alt<int>({0, 127, 1})); };
  auto cart = [&](int bits) { int64_t lo = -(1ll << (bits - 1)), hi = -lo - 1; g.s("x", bits, c.alt<int64_t>({0, lo, hi})); g.s("y", bits, c.alt<int64_t>({1, lo, hi})); g.s("z", bits, c.alt<int64_t>({2, lo, hi})); };
  if (type == 3) polar(); if (type == 6) { polar(); polar(); }
  if (type == 4) cart(8); if (type == 7) { cart(8); cart(8); }
  if (type == 5) cart(16); if (type == 8) { cart(16); cart(16); }
}
inline void ElementGainOffset(G& g) {
  auto& c = g.c; int t = c.alt<int>({0, 1, 2, 255}); g.raw(8, t);
  if (t == 0) { g.raw(16, (uint16_t)c.alt<int>({0, -32768, 300})); }
  else if (t == 1) { int d = c.alt<int>({0, 5, -6}), lo = c.alt<int>({-5, 0, 1}), hi = c.alt<int>({5, 0, -1}); g.raw(16, (uint16_t)d); g.raw(16, (uint16_t)lo); g.raw(16, (uint16_t)hi); if (!(lo <= d && d <= hi)) g.ok = false; }
  else { Bytes e = c.alt<Bytes>({{}, {4, 5}}); g.leb_raw(e.size()); g.in.bytes(e); g.out.bytes(e); }
}
inline void RenderingConfig(G& g, bool rich) {
  auto& c = g.c;
  int mode = c.alt<int>({0, 1, 2, 3}), filt = c.alt<int>({0, 1, 2, 3}), res = c.alt<int>({0, 7});
  int shape = c.alt<int>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12});
  (void)rich;
  if (shape == 0) { g.f("hrm", 2, mode); g.raw(1, 0); g.f("bfp", 2, filt); g.f("rres", 3, res); g.dump("ego", 0); g.leb_raw(0); g.d += "rext=;"; return; }
  bool ego = shape == 7 || shape == 8 || shape == 9;
  g.f("hrm", 2, mode); g.raw(1, ego); g.f("bfp", 2, filt); g.f("rres", 3, res); g.dump("ego", ego);
  G e(c);
  if (shape >= 1 && shape <= 6) { e.leb_raw(1); e.leb("rtype", shape + 2); PositionDef(e, shape + 2); }
  else if (shape == 7) { e.leb_raw(0); ElementGainOffset(e); }
  else if (shape == 8) { e.leb_raw(2); e.leb("rtype", 3); PositionDef(e, 3); e.leb("rtype", 8); PositionDef(e, 8); ElementGainOffset(e); }
  else if (shape == 9) { e.leb_raw(1); e.leb("rtype", 4); PositionDef(e, 4); ElementGainOffset(e); }
  else if (shape == 11) { e.leb_raw(1); e.leb("rtype", 3); PositionDef(e, 3); }
  else { e.leb_raw(0); }
  Bytes x = c.alt<Bytes>({{}, {1, 2, 3}, Bytes(140, 9)}); if (shape == 10 && x.empty()) x = {7};
  if (shape == 11) x = {};
  const bool fallback = !e.ok;  // the size is what delimits it, so an unreadable extension is kept as raw bytes
  e.bytes("rext", x);
  int delta = shape == 11 ? -1 : shape == 12 ? 0 : 0;
  g.in.leb(e.in.b.size() + delta, c(2));
  if (e.out.b.size() == 1 && e.out.b[0] == 0) g.out.leb(0); else { g.out.leb(e.out.b.size()); g.out.bytes(e.out.b); }
  g.in.bytes(e.in.b); g.d += e.d; g.rw &= e.rw;
  if (fallback) { g.rw = false; g.d = "?"; }
  if (shape == 11) { if (fallback) g.unk = true; g.ok = false; g.d = "?"; }
}
inline void Layout(G& g, int type, int ss) {
  auto& c = g.c;
  g.f("lt", 2, type);
  if (type == 2) { g.f("ss", 4, ss); g.f("lres", 2, c.alt<int>({0, 3})); } else g.f("lres", 6, c.alt<int>({0, 63}));
  int it = c.alt<int>({0, 1, 2, 3, 4, 0x80, 0xff}); g.f("it", 8, it);
  g.s("il", 16, c.alt<int>({0, -32768, 32767})); g.s("dp", 16, c.alt<int>({1, -32768, 32767}));
  if (it & 1) g.s("tp", 16, c.alt<int>({2, -32768})); else g.d += "tp=none;";
  if (it & 2) {
    std::vector<int> a = c.alt<std::vector<int>>({{1}, {}, {0, 1, 2}, {1, 1}, {200, 255}});
    g.f("nanch", 8, a.size()); std::set<int> seen;
    for (int x : a) { g.f("ae", 8, x); g.s("al", 16, c.alt<int>({-1, 32767})); if (!seen.insert(x).second) g.ok = false; }
  } else g.d += "nanch=none;";
  if (it & 0xfc) { Bytes e = c.alt<Bytes>({{1}, {}, Bytes(129, 2)}); uint64_t lie = c.alt<uint64_t>({0, kMaxObu + 1}); g.leb_raw(lie ? lie : e.size()); g.bytes("lext", e); if (lie) g.ok = false; }
  else g.d += "lext=none;";
}
struct MixLayout { bool tags = false; size_t tags_at = 0; };
// `optional_flag`: the header's type-specific flag.
inline void MixPresentation(G& g, bool optional_flag, size_t* end_of_submixes = nullptr) {
  auto& c = g.c;
  g.leb("id", c.alt<uint64_t>({42, 0, 0xffffffff}));
  int nlab = c.alt<int>({1, 0, 2, 3, 257}); g.leb("nlab", nlab); if (nlab > 256) g.ok = false;
  std::vector<std::string> langs = {"en-us", "", "fr"}; int lt = c.alt<int>({0, 1, 2, 3});
  if (lt == 1) langs[1] = "en-us"; if (lt == 2) langs[0] = std::string(127, 'x'); if (lt == 3) langs[0] = std::string(128, 'x');
  std::set<std::string> seen;
  for (int i = 0; i < nlab && i < 3; ++i) { g.str("lang", langs[i]); if (!seen.insert(langs[i]).second) g.ok = false; }
  for (int i = 0; i < nlab && i < 3; ++i) g.str("ann", i == 0 ? c.alt<std::string>({"mix", "", std::string(127, 'a'), std::string(128, 'b')}) : "a\xc3\xa9");
  int nsm = c.alt<int>({1, 2, 0, 28, 29}); g.leb("nsm", nsm); g.ok &= nsm >= 1 && nsm <= 28;
  std::set<uint64_t> aes;
  for (int s = 0; s < nsm; ++s) {
    const bool rich = s < 2;
    int ne = rich ? c.alt<int>({1, 2, 0}) : 1; g.leb("ne", ne); if (!ne) g.ok = false;
    for (int e = 0; e < ne; ++e) {
      uint64_t id = rich ? c.alt<uint64_t>({(uint64_t)300 + 2 * s + e, 300, 0xffffffff}) : 300 + 2 * s; g.leb("aeid", id); if (!aes.insert(id).second) g.ok = false;
      for (int i = 0; i < nlab && i < 3; ++i) g.str("eann", "e" + std::to_string(i));
      if (rich && e < 2) { RenderingConfig(g, true); MixGainDef(g, 100); }
      else { g.d += "hrm=0;"; g.raw(8, 0); g.d += "bfp=0;rres=0;ego=0;rext=;"; g.leb_raw(0); g.padding = false; g.leb("pid", 100); g.leb("prate", 48000); g.f("mode", 1, 1); g.f("pres", 7, 0); g.s("mg", 16, 0); g.padding = true; }
    }
    if (rich) MixGainDef(g, 101); else { g.padding = false; g.leb("pid", 101); g.leb("prate", 48000); g.f("mode", 1, 1); g.f("pres", 7, 0); g.s("mg", 16, 0); g.padding = true; }
    struct L { int t, ss; };
    std::vector<std::vector<L>> sets = {{{2, 0}}, {{2, 0}, {2, 1}}, {{3, 0}, {2, 0}}, {{2, 7}, {2, 0}}, {{2, 8}, {2, 9}, {2, 10}, {2, 11}, {2, 12}, {2, 13}, {2, 14}, {2, 15}, {2, 0}}, {{0, 0}, {1, 0}, {2, 0}}, {{2, 1}}, {}, {{3, 0}, {2, 2}}};
    int ls = rich ? c((int)sets.size()) : 0; auto& L_ = sets[ls];
    bool stereo = false; for (auto& l : L_) stereo |= l.t == 2 && l.ss == 0;
    // A sub-mix without the mandatory stereo layout is read with one appended.
    if (!stereo) { g.rw = false; g.in.leb(L_.size()); g.d += "nlay=?;"; G t(c); for (auto& l : L_) Layout(t, l.t, l.ss); g.append(t); }
    else { g.leb("nlay", L_.size()); for (auto& l : L_) Layout(g, l.t, l.ss); }
  }
  if (end_of_submixes) *end_of_submixes = g.in.b.size();
  int tags = optional_flag ? c.alt<int>({1, 2, 3, 4, 0, 5, 6}) : c.alt<int>({0, 1, 2, 3, 4, 5, 6});
  if (tags) {
    std::vector<std::vector<std::pair<std::string, std::string>>> T = {{}, {}, {{"a", "b"}}, {{"content_language", "eng"}, {"x", ""}}, {{"content_language", "en"}}, {{"content_language", "eng"}, {"content_language", "fra"}}, {{std::string(127, 't'), std::string(127, 'v')}, {"a", "a"}, {"a", "a"}}};
    auto& v = T[tags]; g.f("ntag", 8, v.size()); for (auto& [n, x] : v) { g.str("tn", n); g.str("tv", x); }
    if (tags == 4 || tags == 5) g.rw = false;
  } else g.d += "ntag=none;";
  if (optional_flag) {
    if (!tags) { g.ok = false; return; }
    Bytes e = c.alt<Bytes>({{}, {5}, Bytes(130, 4)}); uint64_t lie = c.alt<uint64_t>({0, 1, 2, 3});
    if (lie == 0) { g.leb("ofs", e.size() + 2); } else { g.leb_raw(lie == 1 ? 0 : lie == 2 ? 1 : kMaxObu + 1); g.ok = false; }
    g.f("plr", 8, c.alt<int>({0, 1, 255})); g.f("pbr", 8, c.alt<int>({0, 1, 255})); g.bytes("ofb", e);
  } else g.d += "ofs=none;";
}

// --- OBU framing --------------------------------------------------------------
enum Type { kCodecConfig = 0, kAudioElement = 1, kMixPresentation = 2, kParameterBlock = 3, kTemporalDelimiter = 4, kAudioFrame = 5, kAudioFrame0 = 6, kMetadata = 24, kSequenceHeader = 31 };
// `in`/`out` headers with their own padding; returns the framed OBU.
struct Framed { Bytes in, out; bool ok = true; std::string d; size_t header_size = 0; };
inline Framed Frame(Chooser& c, int type, const Bytes& pin, const Bytes& pout, bool redundant = false, bool flag = false, bool explore = true) {
  Framed r; Bits hi, ho; int red = redundant ^ (explore ? c(2) : 0), fl = flag, ext = explore ? c.alt<int>({0, 1, 2, 3}) : 0;
  const bool frame = type >= kAudioFrame && type <= 23;
  if (explore && c(2)) fl = !fl;
  if (red && (frame || type == kParameterBlock || type == kTemporalDelimiter)) r.ok = false;
  if (fl && !frame && type != kTemporalDelimiter && type != kMixPresentation) r.ok = false;
  Bits body_i, body_o;
  if (frame && fl) { uint64_t e = c.alt<uint64_t>({1, 0, 128, 0xffffffff}), s = c.alt<uint64_t>({2, 0, 300, 0xffffffff}); int pe = explore ? c(2) : 0; body_i.leb(e, pe); body_o.leb(e); body_i.leb(s); body_o.leb(s); r.d += "te=" + std::to_string(e) + ";ts=" + std::to_string(s) + ";"; }
  else r.d += "te=0;ts=0;";
  if (ext) { Bytes x = ext == 1 ? Bytes{} : ext == 2 ? Bytes{1, 2} : Bytes(128, 3); body_i.leb(x.size(), explore ? c(2) : 0); body_o.leb(x.size()); body_i.bytes(x); body_o.bytes(x); r.d += "ext="; for (auto v : x) r.d += std::to_string(v) + " "; r.d += ";"; }
  else r.d += "ext=none;";
  hi.put(5, type); hi.put(1, red); hi.put(1, fl); hi.put(1, ext != 0); ho.put(5, type); ho.put(1, red); ho.put(1, fl); ho.put(1, ext != 0);
  hi.leb(body_i.b.size() + pin.size(), explore ? c.alt<int>({0, 1, 4}) : 0); ho.leb(body_o.b.size() + pout.size());
  r.d += "red=" + std::to_string(red) + ";flag=" + std::to_string(fl) + ";";
  hi.bytes(body_i.b); ho.bytes(body_o.b); r.header_size = hi.b.size(); hi.bytes(pin); ho.bytes(pout); r.in = hi.b; r.out = ho.b;
  return r;
}
}  // namespace gram
