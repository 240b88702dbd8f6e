// Audio elements of every kind (scalable channel layouts, expanded layouts,
// ambisonics), built bit by bit from a chosen top-layer signal, and the output a
// decoder must give for any layout. Independent of the code under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "gains.h"
#include "stream.h"

namespace sc {
using gram::Bits; using gram::Bytes; using Labels = std::vector<std::string>; using Pcm = st::Pcm;
struct LayoutInfo { const char* name; int s, lfe, h; const char* key; Labels order; };
inline const LayoutInfo& Info(int layout) {
  static const std::vector<LayoutInfo> t = {
      {"mono", 1, 0, 0, "0+1+0", {"M"}}, {"stereo", 2, 0, 0, "0+2+0", {"L2", "R2"}}, {"5.1", 5, 1, 0, "0+5+0", {"L5", "R5", "C", "LFE", "Ls5", "Rs5"}},
      {"5.1.2", 5, 1, 2, "2+5+0", {"L5", "R5", "C", "LFE", "Ls5", "Rs5", "Ltf2", "Rtf2"}}, {"5.1.4", 5, 1, 4, "4+5+0", {"L5", "R5", "C", "LFE", "Ls5", "Rs5", "Ltf4", "Rtf4", "Ltb4", "Rtb4"}},
      {"7.1", 7, 1, 0, "0+7+0", {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7"}}, {"7.1.2", 7, 1, 2, "7.1.2", {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf2", "Rtf2"}},
      {"7.1.4", 7, 1, 4, "4+7+0", {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4"}}, {"3.1.2", 3, 1, 2, "3.1.2", {"L3", "R3", "C", "LFE", "Ltf3", "Rtf3"}},
      {"binaural", 2, 0, 0, "", {"L2", "R2"}}};
  return t[layout];
}
// Expanded layouts: the layout they are a part of, coupled then single labels.
struct ExpInfo { int sound_system; Labels coupled, single; };
inline const Labels& FullOrder(int ss) {
  static const Labels s13 = {"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "SiL", "SiR", "TpFL", "TpFR", "TpBL", "TpBR", "TpSiL", "TpSiR"},
      s7 = {"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "BC", "LFE2", "SiL", "SiR", "TpFL", "TpFR", "TpFC", "TpC", "TpBL", "TpBR", "TpSiL", "TpSiR", "TpBC", "BtFC", "BtFL", "BtFR"},
      s14 = {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4", "TpC", "BtFL", "BtFR", "BtBL", "BtBR"};
  return ss == 13 ? s13 : ss == 7 ? s7 : ss == 14 ? s14 : ss == 3 ? Info(4).order : Info(7).order;
}
inline const ExpInfo& Exp(int e) {
  static const std::vector<ExpInfo> t = {{9, {}, {"LFE"}}, {3, {"Ls5", "Rs5"}, {}}, {9, {"Lss7", "Rss7"}, {}}, {9, {"Lrs7", "Rrs7"}, {}}, {9, {"Ltf4", "Rtf4"}, {}}, {9, {"Ltb4", "Rtb4"}, {}},
      {9, {"Ltf4", "Rtf4", "Ltb4", "Rtb4"}, {}}, {9, {"L7", "R7"}, {"C"}},
      {13, {"FLc", "FRc", "FL", "FR", "SiL", "SiR", "BL", "BR", "TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR"}, {"FC", "LFE"}}, {13, {"FL", "FR"}, {}}, {13, {"SiL", "SiR"}, {}}, {13, {"TpSiL", "TpSiR"}, {}},
      {13, {"TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR"}, {}},
      {7, {"FLc", "FRc", "FL", "FR", "SiL", "SiR", "BL", "BR", "TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR", "BtFL", "BtFR"}, {"FC", "BC", "TpFC", "TpC", "TpBC", "BtFC", "LFE", "LFE2"}}, {7, {}, {"LFE", "LFE2"}}, {7, {"BtFL", "BtFR"}, {"BtFC"}},
      {14, {"L7", "R7", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4", "BtFL", "BtFR", "BtBL", "BtBR"}, {"C", "TpC", "LFE"}}, {14, {"BtFL", "BtFR", "BtBL", "BtBR"}, {}}, {14, {}, {"TpC"}}, {14, {"Ltf4", "Rtf4", "Ltb4", "Rtb4"}, {"TpC"}}};
  return t[e];
}
struct Layer { int layout; int og_flags = 0; int16_t og = 0; bool og_present = false, recon = false; };
struct Elem {
  uint32_t id = 300, sid = 0; std::vector<Layer> layers; int exp = -1;                       // channel based
  int order = -1; std::vector<int> mapping; int coupled = -1; std::vector<int16_t> matrix; int subs = 0;  // scene based
  int demix = -1, def_mode = 0, def_w = 0, recon = -1;                                       // parameter ids
  int16_t gain = 0; int hrm = 0; std::vector<uint32_t> sids;
  std::string Name() const {
    std::string s; if (order >= 0) s = "amb" + std::to_string(order) + (coupled >= 0 ? "p" + std::to_string(subs) + "c" + std::to_string(coupled) : "m" + std::to_string(subs)); else if (exp >= 0) s = "exp" + std::to_string(exp);
    else for (auto& l : layers) s += (s.empty() ? "" : ">") + std::string(Info(l.layout).name) + (l.og_present ? "*" + std::to_string(l.og_flags) + "*" + std::to_string(l.og) : ""); return s;
  }
};
struct Group { Labels coupled, single; };
inline std::vector<Group> Groups(const Elem& e) {
  std::vector<Group> g;
  if (e.order >= 0) { Group x; if (e.coupled >= 0) { for (int i = 0; i < 2 * e.coupled; ++i) x.coupled.push_back("P" + std::to_string(i)); for (int i = 2 * e.coupled; i < e.subs + e.coupled; ++i) x.single.push_back("P" + std::to_string(i)); } else for (int i = 0; i < e.subs; ++i) x.single.push_back("S" + std::to_string(i)); return {x}; }
  if (e.exp >= 0) return {{Exp(e.exp).coupled, Exp(e.exp).single}};
  int s = 0, l = 0, h = 0; auto add = [](Labels& v, std::initializer_list<const char*> x) { for (auto c : x) v.push_back(c); };
  for (auto& ly : e.layers) {
    const auto& i = Info(ly.layout); Group x; bool l2 = false;
    if (ly.layout == 9) { add(x.coupled, {"L2", "R2"}); g.push_back(x); continue; }
    if (s == 0) {
      if (i.s == 1) add(x.single, {"M"}); else if (i.s == 2) add(x.coupled, {"L2", "R2"}); else if (i.s == 3) add(x.coupled, {"L3", "R3"}); else if (i.s == 5) add(x.coupled, {"L5", "R5", "Ls5", "Rs5"}); else add(x.coupled, {"L7", "R7", "Lss7", "Rss7", "Lrs7", "Rrs7"});
      if (i.s >= 3) add(x.single, {"C"});
    } else for (int k = s + 1; k <= i.s; ++k) { if (k == 2) l2 = true; if (k == 3) add(x.single, {"C"}); if (k == 5) add(x.coupled, {"L5", "R5"}); if (k == 7) add(x.coupled, {"Lss7", "Rss7"}); }
    if (i.h > h) { if (h == 0 && i.h == 4) add(x.coupled, {"Ltf4", "Rtf4", "Ltb4", "Rtb4"}); else if (h == 0) { if (i.s == 3) add(x.coupled, {"Ltf3", "Rtf3"}); else add(x.coupled, {"Ltf2", "Rtf2"}); } else add(x.coupled, {"Ltf4", "Rtf4"}); }
    if (i.lfe > l) add(x.single, {"LFE"});
    if (l2) add(x.single, {"L2"});
    s = i.s; l = i.lfe; h = i.h; g.push_back(x);
  }
  return g;
}
inline std::vector<Labels> Substreams(const Elem& e) { std::vector<Labels> v; for (auto& g : Groups(e)) { for (size_t i = 0; i < g.coupled.size(); i += 2) v.push_back({g.coupled[i], g.coupled[i + 1]}); for (auto& x : g.single) v.push_back({x}); } return v; }
inline bool GainFlag(int flags, const std::string& l) {
  if (l == "M" || l == "L2" || l == "L3") return flags & 32; if (l == "R2" || l == "R3") return flags & 16; if (l == "Ls5") return flags & 8; if (l == "Rs5") return flags & 4;
  if (l == "Ltf2" || l == "Ltf3") return flags & 2; if (l == "Rtf2" || l == "Rtf3") return flags & 1; return false;
}
// Output gain of a coded channel: that of the layer which carries it.
inline std::map<std::string, double> OutGains(const Elem& e) {
  std::map<std::string, double> m; auto g = Groups(e);
  for (size_t i = 0; i < e.layers.size(); ++i) { auto put = [&](const std::string& l) { if (e.layers[i].og_present && GainFlag(e.layers[i].og_flags, l)) m[l] = st::Db(e.layers[i].og); }; for (auto& l : g[i].coupled) put(l); for (auto& l : g[i].single) put(l); }
  return m;
}
struct Mix { std::vector<size_t> es; int16_t out = 0; std::vector<int> layouts; };
struct Tu { std::map<int, int> mode; uint32_t trim_start = 0, trim_end = 0; std::map<int, std::vector<std::map<int, int>>> recon; };  // demix parameter id -> mode; recon id -> per layer: bit -> gain
struct Stream { uint32_t n = 4, rate = 48000; std::vector<Elem> elems; Mix mix; std::vector<Tu> tus; int primary = 2; bool silent_top = false; std::map<std::string, double> level; };
struct Dmx { double a, b, g, d, w; bool in_stream; };
inline double W(int i) { static const double w[] = {0, .0179, .0391, .0658, .1038, .25, .3962, .4342, .4609, .4821, .5}; return w[i]; }
inline Dmx Mode(int m) { switch (m) { case 0: case 4: return {1, 1, .707, .707, 0, true}; case 1: case 5: return {.707, .707, .707, .707, 0, true}; default: return {1, .866, .866, .866, 0, true}; } }
inline Dmx Params(const Stream& s, const Elem& e, size_t tu) {
  if (e.demix < 0) return {.707, .707, .707, .707, 0, false};
  int w = 0; for (size_t i = 0; i <= tu; ++i) { auto it = s.tus[i].mode.find(e.demix); if (it == s.tus[i].mode.end()) { if (i == tu) { Dmx x = Mode(e.def_mode); x.w = W(e.def_w); return x; } continue; } if (i) w = std::clamp(w + (it->second >= 4 ? 1 : -1), 0, 10); }
  Dmx x = Mode(s.tus[tu].mode.at(e.demix)); x.w = W(w); return x;
}
inline double Top(const Stream& s, size_t e, const std::string& label, uint64_t t) {
  uint64_t x = e * 977 + t * 2654435761ull + 12345; for (char c : label) x = x * 131 + c; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  double v = ((int64_t)(x % (1u << 29)) - (1 << 28)) / 2147483648.0;  // within +-1/8
  auto it = s.level.find(label); return it == s.level.end() ? v : v * it->second;
}
// Every channel that exists at or below the top layer, by the down-mix equations.
inline std::map<std::string, double> Channels(const Stream& s, size_t ei, uint64_t tick) {
  const auto& e = s.elems[ei]; std::map<std::string, double> m;
  if (e.order >= 0 || e.exp >= 0 || e.layers[0].layout == 9) { for (auto& sub : Substreams(e)) for (auto& l : sub) m[l] = Top(s, ei, l, tick); return m; }
  for (auto& l : Info(e.layers.back().layout).order) m[l] = Top(s, ei, l, tick);
  const Dmx p = Params(s, e, tick / s.n);
  auto has = [&](const char* l) { return m.count(l) > 0; };
  if (has("L7")) { m["L5"] = m["L7"]; m["R5"] = m["R7"]; m["Ls5"] = p.a * m["Lss7"] + p.b * m["Lrs7"]; m["Rs5"] = p.a * m["Rss7"] + p.b * m["Rrs7"]; }
  if (has("L5")) { m["L3"] = m["L5"] + p.d * m["Ls5"]; m["R3"] = m["R5"] + p.d * m["Rs5"]; }
  if (has("L3")) { m["L2"] = m["L3"] + .707 * m["C"]; m["R2"] = m["R3"] + .707 * m["C"]; }
  if (has("L2")) m["M"] = .5 * (m["L2"] + m["R2"]);
  if (has("Ltf4")) { m["Ltf2"] = m["Ltf4"] + p.g * m["Ltb4"]; m["Rtf2"] = m["Rtf4"] + p.g * m["Rtb4"]; }
  if (has("Ltf2")) { m["Ltf3"] = m["Ltf2"] + p.w * p.d * m["Ls5"]; m["Rtf3"] = m["Rtf2"] + p.w * p.d * m["Rs5"]; }
  return m;
}
inline void PutGain(Bits& b, uint32_t id, uint32_t rate, int16_t def) { b.leb(id); b.leb(rate); b.put(1, 1); b.put(7, 0); b.put(16, (uint16_t)def); }
inline uint32_t Sid(const Elem& e, size_t i) { return e.sids.empty() ? e.sid + i : e.sids[i]; }
inline Bytes ElementObu(const Stream& s, const Elem& e) {
  Bits b; b.leb(e.id); b.put(3, e.order >= 0 ? 1 : 0); b.put(5, 0); b.leb(200); const auto subs = Substreams(e); b.leb(subs.size()); for (size_t i = 0; i < subs.size(); ++i) b.leb(Sid(e, i));
  b.leb((e.demix >= 0) + (e.recon >= 0));
  if (e.demix >= 0) { b.leb(1); b.leb(e.demix); b.leb(s.rate); b.put(8, 0); b.leb(s.n); b.leb(s.n); b.put(3, e.def_mode); b.put(5, 0); b.put(4, e.def_w); b.put(4, 0); }
  if (e.recon >= 0) { b.leb(2); b.leb(e.recon); b.leb(s.rate); b.put(8, 0); b.leb(s.n); b.leb(s.n); }
  if (e.order >= 0) {
    const int n = (e.order + 1) * (e.order + 1);
    if (e.coupled >= 0) { b.leb(1); b.put(8, n); b.put(8, e.subs); b.put(8, e.coupled); for (auto v : e.matrix) b.put(16, (uint16_t)v); }
    else { b.leb(0); b.put(8, n); b.put(8, e.subs); for (int m : e.mapping) b.put(8, m); }
  } else {
    const auto g = Groups(e); b.put(3, g.size()); b.put(5, 0);
    for (size_t i = 0; i < g.size(); ++i) { const Layer l = e.exp >= 0 ? Layer{15} : e.layers[i]; b.put(4, l.layout); b.put(1, l.og_present); b.put(1, l.recon); b.put(2, 0); b.put(8, g[i].coupled.size() / 2 + g[i].single.size()); b.put(8, g[i].coupled.size() / 2); if (l.og_present) { b.put(6, l.og_flags); b.put(2, 0); b.put(16, (uint16_t)l.og); } if (e.exp >= 0) b.put(8, e.exp); }
  }
  return st::Obu(1, b.b);
}
inline Bytes Descriptors(const Stream& s) {
  Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  { Bits b; b.put(32, 0x69616d66); b.put(8, s.primary); b.put(8, s.primary); add(st::Obu(31, b.b)); }
  { Bits b; b.leb(200); b.put(32, 0x6970636d); b.leb(s.n); b.put(16, 0); b.put(8, 1); b.put(8, 32); b.put(32, s.rate); add(st::Obu(0, b.b)); }
  for (auto& e : s.elems) add(ElementObu(s, e));
  { Bits b; b.leb(42); b.leb(0); b.leb(1); b.leb(s.mix.es.size()); uint32_t p = 9000; for (auto i : s.mix.es) { auto& e = s.elems[i]; b.leb(e.id); b.put(2, e.hrm); b.put(6, 0); b.leb(0); PutGain(b, p++, s.rate, e.gain); } PutGain(b, p, s.rate, s.mix.out);
    b.leb(s.mix.layouts.size()); for (int l : s.mix.layouts) { if (l == 100) { b.put(2, 3); b.put(6, 0); } else { b.put(2, 2); b.put(4, l); b.put(2, 0); } b.put(8, 0); b.put(16, 0); b.put(16, 0); } add(st::Obu(2, b.b)); }
  return o;
}
inline int32_t Quant(double v) { double x = std::round(v * 2147483648.0); return x > 2147483647 ? 2147483647 : x < -2147483648.0 ? INT32_MIN : (int32_t)x; }
// How an encoder codes a stream: samples are delayed by the codec and only
// [0, samples) are not padding. `words` receives the offset of every 4-byte sample.
struct Coding { bool floats = false, by_id = false; int64_t delay = 0; uint64_t samples = ~0ull; std::vector<size_t>* words = nullptr; };
inline Bytes TuBytes(const Stream& s, size_t tu, const Coding& cod = {}) {
  const Tu& u = s.tus[tu]; Bytes o = st::Obu(4, {}); auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  for (auto& [id, m] : u.mode) { Bits b; b.leb(id); b.put(3, m); b.put(5, 0); add(st::Obu(3, b.b)); }
  for (auto& [id, ls] : u.recon) { Bits b; b.leb(id); for (auto& e : s.elems) if (e.recon == id) { for (size_t i = 0; i < e.layers.size(); ++i) if (e.layers[i].recon) { uint32_t f = 0; for (auto& [bit, g] : ls[i]) f |= 1u << bit; b.leb(f); for (auto& [bit, g] : ls[i]) b.put(8, g); } break; } add(st::Obu(3, b.b)); }
  for (size_t ei = 0; ei < s.elems.size(); ++ei) {
    const auto& e = s.elems[ei]; const auto subs = Substreams(e); const auto og = OutGains(e); std::vector<std::map<std::string, double>> ch; for (uint32_t t = 0; t < s.n; ++t) { int64_t at = (int64_t)(tu * s.n + t) - cod.delay; const bool in = at >= 0 && (uint64_t)at < cod.samples; ch.push_back(Channels(s, ei, in ? at : 0)); if (!in) for (auto& [l, v] : ch.back()) v = 0; }
    std::vector<size_t> order; for (size_t k = 0; k < subs.size(); ++k) order.push_back(k); if (cod.by_id) std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return Sid(e, x) < Sid(e, y); });
    for (size_t k : order) {
      Bits b; uint32_t id = Sid(e, k); if (id > 17) b.leb(id);
      for (uint32_t t = 0; t < s.n; ++t) for (auto& l : subs[k]) { auto g = og.find(l); if (cod.words) cod.words->push_back(b.b.size()); const double x = ch[t].at(l) / (g == og.end() ? 1 : g->second); uint32_t v; if (cod.floats) { float f = x; std::memcpy(&v, &f, 4); } else v = Quant(x); for (int i = 0; i < 32; i += 8) b.put(8, v >> i & 255); }
      const Bytes ob = st::Obu(id > 17 ? 5 : 6 + id, b.b, false, u.trim_start || u.trim_end, nullptr, u.trim_start, u.trim_end);
      if (cod.words) for (size_t q = cod.words->size() - (size_t)s.n * subs[k].size(); q < cod.words->size(); ++q) (*cod.words)[q] += o.size() + ob.size() - b.b.size();
      add(ob);
    }
  }
  return o;
}
inline Bytes All(const Stream& s) { Bytes o = Descriptors(s); for (size_t i = 0; i < s.tus.size(); ++i) { auto t = TuBytes(s, i); o.insert(o.end(), t.begin(), t.end()); } return o; }
inline int LayerSoundSystem(int layout) { static const int t[] = {12, 0, 1, 2, 3, 8, 10, 9, 11, 0}; return t[layout]; }
// What the stand-in for the binaural renderer makes of its input channels.
inline std::vector<double> Binaural(const std::vector<double>& in, int kind) { std::vector<double> o(2, 0.0); for (int c = 0; c < (int)in.size(); ++c) { o[0] += in[c] * (128 + 5 * c + kind) / 1024.0; o[1] += in[c] * (256 - 3 * c - 2 * kind) / 1024.0; } return o; }
// One element, one tick, rendered to sound system `out`.
inline std::vector<double> RenderElem(const Stream& s, size_t ei, uint64_t tick, int out) {
  const auto& e = s.elems[ei]; auto ch = Channels(s, ei, tick); const std::string ok = st::OutKey(out); std::vector<double> in; const gains::Matrix* g = nullptr; gains::Matrix dyn; std::vector<double> o(st::OutCh(out), 0.0);
  if (e.order >= 0) {
    const int n = (e.order + 1) * (e.order + 1); in.assign(n, 0.0);
    if (e.coupled >= 0) { const int c = e.subs + e.coupled; for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) in[i] += e.matrix[j * n + i] / 32768.0 * ch["P" + std::to_string(j)]; }
    else for (int i = 0; i < n; ++i) if (e.mapping[i] != 255) in[i] = ch["S" + std::to_string(e.mapping[i])];
    if (out == 100 && e.hrm == 1) return Binaural(in, e.order);
    g = gains::Find("A" + std::to_string(e.order), ok);
  } else if (e.exp >= 0) {
    const int ss = Exp(e.exp).sound_system; for (auto& l : FullOrder(ss)) in.push_back(ch.count(l) ? ch[l] : 0.0); g = gains::Find(st::OutKey(ss), ok);
  } else if (e.layers[0].layout == 9) { o[0] = ch["L2"]; o[1] = ch["R2"]; return o; }
  else {
    int layer = -1; for (auto& l : e.layers) if (layer < 0 && LayerSoundSystem(l.layout) == (out == 100 ? 0 : out)) layer = l.layout;
    if (out == 100 && e.hrm == 1) { static const int kind[] = {9, 10, 12, 13, 14, 15, 16, 17, 11}; layer = e.layers.back().layout; for (auto& l : Info(layer).order) in.push_back(ch.at(l)); return Binaural(in, kind[layer]); }
    if (layer < 0) layer = e.layers.back().layout;
    for (auto& l : Info(layer).order) in.push_back(ch.at(l)); g = gains::Find(Info(layer).key, ok);
    const Dmx p = Params(s, e, tick / s.n);
    if (layer == 7 && p.in_stream && (out == 11 || out == 10)) {  // down-mix parameters in the stream say how
      const Labels want = Info(out == 11 ? 8 : 6).order; for (size_t i = 0; i < want.size(); ++i) o[i] = ch.at(want[i]); if (out == 11) { o[0] = ch["L7"]+ p.d * ch["Ls5"]; o[1] = ch["R7"] + p.d * ch["Rs5"]; }
      if (out == 11) { /* L3, R3 as the down-mix equations give them */ o[0] = ch["L3"]; o[1] = ch["R3"]; }
      return o;
    }
  }
  if (!g) return {};
  for (size_t i = 0; i < in.size(); ++i) for (size_t c = 0; c < o.size(); ++c) o[c] += in[i] * (*g)[i][c];
  return o;
}
inline Pcm Render(const Stream& s, int out, size_t tu) {
  const Tu& u = s.tus[tu]; Pcm p;
  for (uint32_t t = u.trim_start; t < s.n - u.trim_end; ++t) { std::vector<double> o(st::OutCh(out), 0.0); for (auto i : s.mix.es) { auto x = RenderElem(s, i, tu * s.n + t, out); if (x.empty()) return {}; for (size_t c = 0; c < o.size(); ++c) o[c] += x[c] * st::Db(s.elems[i].gain); } for (auto& x : o) x *= st::Db(s.mix.out); p.push_back(o); }
  return p;
}
// Every ladder of layouts with non-decreasing channel numbers, up to `depth` layers.
inline std::vector<std::vector<int>> Ladders(size_t depth) {
  std::vector<std::vector<int>> out, cur; for (int i = 0; i < 9; ++i) cur.push_back({i});
  while (!cur.empty()) { std::vector<std::vector<int>> next; for (auto& c : cur) { out.push_back(c); if (c.size() < depth) for (int j = 0; j < 9; ++j) { const auto &a = Info(c.back()), &b = Info(j); if (j != c.back() && b.s >= a.s && b.lfe >= a.lfe && b.h >= a.h) { auto d = c; d.push_back(j); next.push_back(d); } } } cur = next; }
  return out;
}
}  // namespace sc
