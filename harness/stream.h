// Builds IAMF sequences bit by bit (from the syntax tables, without the code
// under test) and predicts what a decoder must output for them: LPCM substreams,
// single-layer channel layouts and ambisonics, mix gains, trimming.
#pragma once
#include <cmath>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "gram.h"
#include "gains.h"

namespace st {
using gram::Bits; using gram::Bytes;
enum Kind { kMono, kStereo, k51, k512, k514, k71, k714, k712, k312, kBinaural, kFoa, kFoaProj, kToa, kFoaMixed };
struct KindInfo { int layout; const char* key; std::vector<int> sub; };  // sub: channels per substream, coupled first
inline const KindInfo& Info(Kind k) {
  static const std::vector<KindInfo> t = {
      {0, "0+1+0", {1}}, {1, "0+2+0", {2}}, {2, "0+5+0", {2, 2, 1, 1}}, {3, "2+5+0", {2, 2, 2, 1, 1}}, {4, "4+5+0", {2, 2, 2, 2, 1, 1}},
      {5, "0+7+0", {2, 2, 2, 1, 1}}, {7, "4+7+0", {2, 2, 2, 2, 2, 1, 1}}, {6, "7.1.2", {2, 2, 2, 2, 1, 1}}, {8, "3.1.2", {2, 2, 1, 1}}, {9, "", {2}},
      {-1, "A1", {1, 1, 1, 1}}, {-1, "A1", {2, 1, 1}}, {-1, "A3", std::vector<int>(16, 1)}, {-1, "A1", {1, 1}}};
  return t[k];
}
inline int NumCh(Kind k) { int n = 0; for (int x : Info(k).sub) n += x; return n; }
// Position, in the rendered channel order, of each coded channel.
inline std::vector<int> CodedToOrder(Kind k) {
  switch (k) {
    case k51: return {0, 1, 4, 5, 2, 3};
    case k512: return {0, 1, 4, 5, 6, 7, 2, 3};
    case k514: return {0, 1, 4, 5, 6, 7, 8, 9, 2, 3};
    case k71: return {0, 1, 4, 5, 6, 7, 2, 3};
    case k714: return {0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 2, 3};
    case k712: return {0, 1, 4, 5, 6, 7, 8, 9, 2, 3};
    case k312: return {0, 1, 4, 5, 2, 3};
    default: { std::vector<int> v(NumCh(k)); for (size_t i = 0; i < v.size(); ++i) v[i] = i; return v; }
  }
}
struct Gain { uint32_t id; int16_t def = 0; int mode = 1; uint32_t dur = 0, cdur = 0; std::vector<uint32_t> sub; };
struct Elem { uint32_t id; Kind kind; uint32_t sid; std::vector<uint32_t> sids; };
struct MixElem { uint32_t id; Gain g; int hrm = 0; };
struct Mix { uint32_t id; std::vector<MixElem> es; Gain out; std::vector<int> layouts = {0}; };  // sound systems; 100 = binaural
struct Anim { int type = 0; int a = 0, b = 0, c = 0, rel = 0; };
struct Block { uint32_t id; uint32_t dur, cdur; std::vector<uint32_t> sub; std::vector<Anim> anim; };
struct Tu { uint32_t trim_start = 0, trim_end = 0; bool delim = true; std::vector<Block> blocks; Bytes extra_before, extra_mid, extra_after; int order = 0; };
struct Stream {
  int bits = 16, big = 0; uint32_t rate = 48000, n = 8; int primary = 0, additional = 0;
  std::vector<Elem> elems; std::vector<Mix> mixes; std::vector<Tu> tus;
  Bytes desc_extra;  // reserved OBUs inside the descriptors
  bool full_scale = false;
  int drop = 0;  // low bits that are zero in every sample
  std::vector<std::vector<int>> chmap;  // per element: which channel of the signal each coded channel carries
  uint64_t zero_to = 0, zero_from = ~0ull;  // samples outside are zero (encoder delay and padding)
};
inline Bytes Obu(int type, const Bytes& payload, bool red = false, bool flag = false, const Bytes* ext = nullptr, uint32_t ts = 0, uint32_t te = 0, int pad = 0) {
  Bits h, b; h.put(5, type); h.put(1, red); h.put(1, flag); h.put(1, ext != nullptr);
  const bool frame = type >= 5 && type <= 23;
  if (frame && flag) { b.leb(te); b.leb(ts); }
  if (ext) { b.leb(ext->size()); b.bytes(*ext); }
  h.leb(b.b.size() + payload.size(), pad); h.bytes(b.b); h.bytes(payload); return h.b;
}
inline void PutGain(Bits& b, const Gain& g, uint32_t rate) {
  b.leb(g.id); b.leb(rate); b.put(1, g.mode); b.put(7, 0);
  if (!g.mode) { b.leb(g.dur); b.leb(g.cdur); if (!g.cdur) { b.leb(g.sub.size()); for (auto x : g.sub) b.leb(x); } }
  b.put(16, (uint16_t)g.def);
}
inline Bytes SequenceHeader(const Stream& s, bool red = false) { Bits b; b.put(32, 0x69616d66); b.put(8, s.primary); b.put(8, s.additional); return Obu(31, b.b, red); }
inline Bytes CodecConfig(const Stream& s, bool red = false) { Bits b; b.leb(200); b.put(32, 0x6970636d); b.leb(s.n); b.put(16, 0); b.put(8, !s.big); b.put(8, s.bits); b.put(32, s.rate); return Obu(0, b.b, red); }
inline std::vector<int16_t> ProjMatrix() { return {16384, -8192, 4096, 32767, -32768, 1000, 0, 3, 77, 20000, -20000, 1, 5000, 6000, -7000, 8000}; }
inline Bytes ElementObu(const Elem& e, bool red = false) {
  Bits b; b.leb(e.id); const auto& k = Info(e.kind); b.put(3, k.layout < 0 ? 1 : 0); b.put(5, 0); b.leb(200);
  b.leb(k.sub.size()); for (size_t i = 0; i < k.sub.size(); ++i) b.leb(e.sids.empty() ? e.sid + i : e.sids[i]);
  b.leb(0);
  if (k.layout >= 0) { int c = 0; for (int x : k.sub) c += x == 2; b.put(3, 1); b.put(5, 0); b.put(4, k.layout); b.put(4, 0); b.put(8, k.sub.size()); b.put(8, c); }
  else if (e.kind == kFoaProj) { b.leb(1); b.put(8, 4); b.put(8, 3); b.put(8, 1); for (auto v : ProjMatrix()) b.put(16, (uint16_t)v); }
  else if (e.kind == kFoaMixed) { b.leb(0); b.put(8, 4); b.put(8, 2); b.put(8, 0); b.put(8, 255); b.put(8, 1); b.put(8, 255); }
  else { b.leb(0); int n = NumCh(e.kind); b.put(8, n); b.put(8, n); for (int i = 0; i < n; ++i) b.put(8, i); }
  return Obu(1, b.b, red);
}
inline Bytes MixObu(const Stream& s, const Mix& m, bool red = false) {
  Bits b; b.leb(m.id); b.leb(0); b.leb(1); b.leb(m.es.size());
  for (auto& e : m.es) { b.leb(e.id); b.put(2, e.hrm); b.put(6, 0); b.leb(0); PutGain(b, e.g, s.rate); }
  PutGain(b, m.out, s.rate); b.leb(m.layouts.size());
  for (int l : m.layouts) { if (l == 100) { b.put(2, 3); b.put(6, 0); } else { b.put(2, 2); b.put(4, l); b.put(2, 0); } b.put(8, 0); b.put(16, 0); b.put(16, 0); }
  return Obu(2, b.b, red);
}
inline Bytes Descriptors(const Stream& s, bool red = false) {
  Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  add(SequenceHeader(s, red)); add(CodecConfig(s, red)); if (!red) add(s.desc_extra);
  for (auto& e : s.elems) add(ElementObu(e, red)); for (auto& m : s.mixes) add(MixObu(s, m, red));
  return o;
}
// Deterministic test signal: coded channel `ch` of element `e` at absolute tick `t`, as an integer of `bits` bits.
inline int64_t RawSample(const Stream& s, int e, int ch, uint64_t t) {
  uint64_t x = (e * 977 + ch * 131 + t * 2654435761ull + 12345) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  int64_t full = 1ll << (s.bits - 1);
  if (s.full_scale) { int r = x % 5; return r == 0 ? full - 1 : r == 1 ? -full : r == 2 ? 0 : (int64_t)(x % (2 * full)) - full; }
  return (int64_t)(x % (full / 4)) - full / 8;
}
inline int64_t Sample(const Stream& s, int e, int ch, uint64_t t) {
  if (t < s.zero_to || t >= s.zero_from) return 0;
  if ((size_t)e < s.chmap.size() && !s.chmap[e].empty()) ch = s.chmap[e][ch];
  return (RawSample(s, e, ch, t) >> s.drop) * (1ll << s.drop);
}
inline Bytes FrameObu(const Stream& s, int e, int sub, uint64_t tu) {
  const auto& k = Info(s.elems[e].kind); int first = 0; for (int i = 0; i < sub; ++i) first += k.sub[i];
  Bits b; uint32_t id = s.elems[e].sids.empty() ? s.elems[e].sid + sub : s.elems[e].sids[sub]; if (id > 17) b.leb(id);
  for (uint32_t t = 0; t < s.n; ++t) for (int c = 0; c < k.sub[sub]; ++c) {
    uint64_t v = Sample(s, e, first + c, tu * s.n + t);
    if (s.big) b.put(s.bits, v); else for (int i = 0; i < s.bits; i += 8) b.put(8, v >> i & 255);
  }
  const Tu& u = s.tus[tu];
  return Obu(id > 17 ? 5 : 6 + id, b.b, false, u.trim_start || u.trim_end, nullptr, u.trim_start, u.trim_end);
}
inline const Gain* FindGain(const Stream& s, uint32_t id) { for (auto& m : s.mixes) { for (auto& e : m.es) if (e.g.id == id) return &e.g; if (m.out.id == id) return &m.out; } return nullptr; }
inline std::vector<uint32_t> SubDur(uint32_t dur, uint32_t cdur, const std::vector<uint32_t>& sub) { if (!cdur) return sub; std::vector<uint32_t> v; for (uint32_t d = dur; d;) { uint32_t x = std::min(d, cdur); v.push_back(x); d -= x; } return v; }
inline Bytes BlockObu(const Stream& s, const Block& k) {
  Bits b; b.leb(k.id); const Gain* g = FindGain(s, k.id); const bool inl = g->mode;
  if (inl) { b.leb(k.dur); b.leb(k.cdur); if (!k.cdur) b.leb(k.sub.size()); }
  for (size_t i = 0; i < k.anim.size(); ++i) {
    if (inl && !k.cdur) b.leb(k.sub[i]);
    auto& a = k.anim[i]; b.leb(a.type); b.put(16, (uint16_t)a.a); if (a.type) b.put(16, (uint16_t)a.b); if (a.type == 2) { b.put(16, (uint16_t)a.c); b.put(8, a.rel); }
  }
  return Obu(3, b.b);
}
inline Bytes TuBytes(const Stream& s, size_t i) {
  const Tu& u = s.tus[i]; Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  if (u.delim) add(Obu(4, {}));
  add(u.extra_before);
  for (auto& b : u.blocks) add(BlockObu(s, b));
  std::vector<Bytes> fr; for (size_t e = 0; e < s.elems.size(); ++e) for (size_t k = 0; k < Info(s.elems[e].kind).sub.size(); ++k) fr.push_back(FrameObu(s, e, k, i));
  if (u.order) std::reverse(fr.begin(), fr.end());
  for (size_t k = 0; k < fr.size(); ++k) { add(fr[k]); if (k == 0) add(u.extra_mid); }
  add(u.extra_after); return o;
}
inline Bytes All(const Stream& s) { Bytes o = Descriptors(s); for (size_t i = 0; i < s.tus.size(); ++i) { auto t = TuBytes(s, i); o.insert(o.end(), t.begin(), t.end()); } return o; }

// --- reference renderer -------------------------------------------------------
inline const char* OutKey(int l) { static const char* k[] = {"0+2+0", "0+5+0", "2+5+0", "4+5+0", "4+5+1", "3+7+0", "4+9+0", "9+10+3", "0+7+0", "4+7+0", "7.1.2", "3.1.2", "0+1+0", "9.1.6", "7.1.5.4"}; return l == 100 ? "0+2+0" : k[l]; }
inline int OutCh(int l) { static const int n[] = {2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 17}; return l == 100 ? 2 : n[l]; }
inline double Db(double q78) { return std::pow(10.0, q78 / 256.0 / 20.0); }
inline double AnimAt(const Anim& a, double t, double dur) {
  if (a.type == 0) return a.a;
  if (a.type == 1) { double x = t / dur; return (1 - x) * a.a + x * a.b; }
  double n1 = std::floor(dur * (a.rel / 256.0) + 0.5), al = dur - 2 * n1, be = 2 * n1, x = al == 0 ? t / be : (-be + std::sqrt(be * be + 4 * al * t)) / (2 * al);
  return (1 - x) * (1 - x) * a.a + 2 * (1 - x) * x * a.c + x * x * a.b;
}
inline double GainAt(const Stream& s, const Gain& g, const Tu& u, uint32_t t) {
  for (auto& b : u.blocks) if (b.id == g.id) {
    auto d = g.mode ? SubDur(b.dur, b.cdur, b.sub) : SubDur(g.dur, g.cdur, g.sub); uint32_t at = 0;
    for (size_t i = 0; i < d.size(); ++i) { if (t < at + d[i]) return Db(AnimAt(b.anim[i], t - at, d[i])); at += d[i]; }
  }
  return Db(g.def);
}
using Pcm = std::vector<std::vector<double>>;  // [tick][channel]
// Output of one temporal unit rendered to `layout`.
inline Pcm Render(const Stream& s, const Mix& m, int layout, size_t tu, bool trim_b = true, bool trim_e = true) {
  const Tu& u = s.tus[tu]; uint32_t a = trim_b ? u.trim_start : 0, z = s.n - (trim_e ? u.trim_end : 0);
  Pcm o(z - a, std::vector<double>(OutCh(layout), 0.0));
  for (auto& me : m.es) {
    int e = 0; while (s.elems[e].id != me.id) ++e;
    const Kind k = s.elems[e].kind; const auto& info = Info(k); auto order = CodedToOrder(k); const int nc = NumCh(k);
    std::vector<std::vector<double>> mat;  // [input channel][out]
    const bool pass = info.key == std::string(OutKey(layout)) || (k == kBinaural && (layout == 100 || layout == 0));
    if (pass) { mat.assign(nc, std::vector<double>(OutCh(layout), 0.0)); for (int i = 0; i < nc; ++i) mat[i][i] = 1; }
    else { auto* g = gains::Find(info.key, OutKey(layout)); if (!g) return {}; mat = *g; }
    if (k == kFoaProj) { auto d = ProjMatrix(); std::vector<std::vector<double>> c(4, std::vector<double>(OutCh(layout), 0.0)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (size_t q = 0; q < c[i].size(); ++q) c[i][q] += d[i * 4 + j] / 32768.0 * mat[j][q]; mat = c; }
    if (k == kFoaMixed) mat = {mat[0], mat[2]};
    for (uint32_t t = a; t < z; ++t) {
      double g = GainAt(s, me.g, u, t - a);
      for (int c = 0; c < nc; ++c) { double v = Sample(s, e, c, tu * s.n + t) / (double)(1ll << (s.bits - 1)) * g; for (size_t q = 0; q < o[t - a].size(); ++q) o[t - a][q] += v * mat[order[c]][q]; }
    }
  }
  for (uint32_t t = 0; t < o.size(); ++t) { double g = GainAt(s, m.out, u, t); for (auto& x : o[t]) x *= g; }
  return o;
}
// PCM bytes the API must return, as integers.
inline int64_t ToInt32(double v) { double c = std::min(1.0, std::max(-1.0, v)) * 2147483648.0; return c >= 2147483647.0 ? 2147483647 : (int64_t)c; }

// --- recipes ------------------------------------------------------------------
struct Recipe { std::string name; Stream s; };
inline Mix Simple(uint32_t id, std::vector<uint32_t> es, std::vector<int> layouts = {0}) { Mix m{id, {}, {900}, layouts}; uint32_t p = 901; for (auto e : es) m.es.push_back({e, {p++}}); return m; }
inline std::vector<Recipe> Recipes() {
  std::vector<Recipe> v;
  Bytes reserved = Obu(26, {1, 2, 3}), meta = Obu(24, {1, 0xb5, 9, 9}), empty_res = Obu(27, {});
  Bytes ext = {7, 7};
  { Stream s; s.elems = {{300, kStereo, 0, {}}}; s.mixes = {Simple(42, {300})}; s.tus.resize(3); v.push_back({"stereo", s}); }
  { Stream s; s.elems = {{300, kStereo, 0, {}}}; s.mixes = {Simple(42, {300})}; s.tus.resize(3); for (auto& t : s.tus) t.delim = false; v.push_back({"nodelim", s}); }
  { Stream s; s.bits = 24; s.big = 1; s.elems = {{300, kMono, 0, {}}}; s.mixes = {Simple(42, {300}, {12, 0})}; s.tus.resize(4); s.tus[0].trim_start = 3; s.tus[3].trim_end = 5; v.push_back({"trim", s}); }
  { Stream s; s.elems = {{300, kStereo, 0, {}}}; s.mixes = {Simple(42, {300})}; s.tus.resize(4); s.tus[0].trim_start = 8; s.tus[1].trim_start = 2; s.tus[3].trim_end = 8; v.push_back({"fulltrim", s}); }
  { Stream s; s.bits = 32; s.primary = 1; s.elems = {{300, k51, 3, {}}, {301, kFoa, 0, {25, 300, 17, 18}}}; s.mixes = {Simple(42, {300, 301}, {0, 1})}; s.mixes[0].es[0].g.def = -1536; s.mixes[0].es[1].g.def = 300; s.mixes[0].out.def = -700; s.tus.resize(3); s.tus[1].order = 1; v.push_back({"51+foa", s}); }
  { Stream s; s.elems = {{300, kStereo, 0, {}}}; s.mixes = {Simple(42, {300})}; auto& m = s.mixes[0]; m.out = {900, -256, 0, 8, 4, {}}; m.es[0].g = {901, -512, 1, 0, 0, {}};
    s.tus.resize(4); s.tus[0].blocks = {{900, 8, 4, {}, {{1, 0, -1536}, {1, -1536, 0}}}, {901, 8, 0, {3, 5}, {{0, -600}, {2, -100, -900, -1500, 128}}}};
    s.tus[1].blocks = {{901, 8, 8, {}, {{1, 512, -512}}}}; s.tus[1].blocks.push_back({900, 8, 4, {}, {{0, -1536}, {0, -3000}}}); s.tus[2].blocks = {{901, 8, 1, {}, {{0, 1}, {1, 2, 300}, {0, -300}, {0, 1000}, {0, 5}, {0, 6}, {0, 7}, {2, 90, 90, 90, 128}}}}; v.push_back({"gains", s}); }
  { Stream s; s.elems = {{300, kStereo, 0, {}}}; s.mixes = {Simple(42, {300})}; s.desc_extra = reserved; s.tus.resize(3); s.tus[0].extra_mid = reserved; s.tus[1].extra_before = meta; s.tus[1].extra_after = empty_res; s.tus[2].extra_before = Descriptors(s, true); v.push_back({"reserved", s}); }
  { Stream s; s.primary = 1; s.elems = {{300, kStereo, 0, {}}, {301, kMono, 7, {}}, {302, k714, 40, {}}}; s.mixes = {Simple(42, {300}), Simple(43, {301, 300}, {0, 12}), Simple(44, {302}, {0, 9, 1})}; s.mixes[1].es[0].g.id = 911; s.mixes[1].es[1].g.id = 912; s.mixes[1].out = {913, -100}; s.mixes[2].es[0].g.id = 914; s.mixes[2].out = {915, -300}; s.tus.resize(2); v.push_back({"mixes", s}); }
  { Stream s; s.full_scale = true; s.elems = {{300, kStereo, 0, {}}}; s.mixes = {Simple(42, {300})}; s.mixes[0].out.def = 512; s.tus.resize(2); v.push_back({"clip", s}); }
  { Stream s; s.elems = {{300, kFoaProj, 1, {}}}; s.mixes = {Simple(42, {300}, {0, 1, 9})}; s.tus.resize(2); v.push_back({"foaproj", s}); }
  { Stream s; s.elems = {{300, kFoaMixed, 1, {}}}; s.mixes = {Simple(42, {300}, {0, 9})}; s.tus.resize(2); s.tus[0].trim_start = 2; s.tus[1].trim_end = 1; v.push_back({"foamixed", s}); }
  { Stream s; s.n = 1; s.elems = {{300, k71, 0, {}}}; s.mixes = {Simple(42, {300}, {0, 8})}; s.tus.resize(5); v.push_back({"71tiny", s}); }
  { Stream s; s.elems = {{300, kBinaural, 0, {}}}; s.mixes = {Simple(42, {300}, {0, 100})}; s.tus.resize(2); v.push_back({"binaural", s}); }
  return v;
}
}  // namespace st
