// C16: which mix presentation and which layout a decoder plays. Every menu of
// one or two (thorough: three) mix presentations out of ~45 shapes x requested
// profiles x requested id x requested layout, against the selection rules
// written down again below; the selected mix is also decoded.
#include "vh_main.h"
#include "dec.h"
#include "iamf/cli/obu_processor.h"
using vh::Ctx; using gram::Bits; using gram::Bytes; namespace api = iamf_tools::api;
namespace {
constexpr uint32_t kN = 120;
enum P { kS = 1, kB = 2, kE = 4, kBA = 8, kA1 = 16, kA2 = 32, kPub = 7, kAll = 63 };
struct El { uint32_t id; int type; int first, last; int exp; int ch; uint32_t cfg; bool known; std::string kind; };
// type: 0 channel, 1 scene, 2 object, 3 reserved. first/last: loudspeaker_layout of the first and last layer.
const std::vector<El>& Els() {
  static const std::vector<El> t = {
      {300, 0, 1, 1, -1, 2, 200, true, "stereo"}, {301, 0, 2, 2, -1, 6, 200, true, "5.1"}, {302, 0, 9, 9, -1, 2, 200, true, "binaural"}, {303, 1, -1, -1, -1, 4, 200, true, "foa"},
      {304, 0, 0, 1, -1, 2, 200, true, "mono>stereo"}, {305, 0, 1, 2, -1, 6, 200, true, "stereo>5.1"}, {306, 0, 15, 15, 7, 3, 200, true, "exp3.0"}, {307, 0, 15, 15, 15, 3, 200, true, "expBt3"},
      {308, 0, 1, 1, -1, 2, 201, true, "stereo@201"}, {309, 0, 1, 1, -1, 2, 202, true, "stereo@202"}, {310, 2, -1, -1, -1, 1, 200, true, "object"}, {311, 1, -1, -1, -1, 16, 200, true, "toa"},
      {312, 0, 7, 7, -1, 12, 200, true, "7.1.4"}, {313, 0, 1, 1, -1, 2, 299, false, "nocodec"}, {314, 0, 15, 15, 20, 2, 200, true, "exp20"}, {315, 0, 10, 10, -1, 2, 200, true, "layout10"},
      {316, 3, -1, -1, -1, 1, 200, true, "type3"}, {317, 0, 1, 1, -1, 2, 203, true, "stereo@opus"}, {318, 0, 1, 1, -1, 2, 204, true, "stereo@flac"}, {319, 1, -1, -1, -1, 4, 200, true, "amb2"}, {320, 0, 0, 0, -1, 1, 200, true, "mono"}, {321, 0, 1, 1, -1, 2, 205, true, "stereo@44k"}, {322, 0, 8, 8, -1, 6, 200, true, "3.1.2"}};
  return t;
}
const El* Find(int i) { return i < 0 ? nullptr : &Els()[i]; }
// Layout codes: 0..14 sound systems, 100 binaural; +200: the same with its reserved bits set.
struct Sub { std::vector<std::pair<int, int>> es; std::vector<int> layouts; };  // (element index or -1, headphones mode)
struct Shape { const char* name; std::vector<Sub> subs; };
const std::vector<Shape>& Shapes() {
  static const std::vector<Shape> t = {
      {"stereo", {{{{0, 0}}, {0}}}}, {"stereo.hrm1", {{{{0, 1}}, {0}}}}, {"stereo/0,1", {{{{0, 0}}, {0, 1}}}}, {"stereo/1,0", {{{{0, 0}}, {1, 0}}}}, {"51", {{{{1, 0}}, {0, 1}}}}, {"51/0", {{{{1, 0}}, {0}}}},
      {"bin", {{{{2, 0}}, {0}}}}, {"bin/0,100", {{{{2, 0}}, {0, 100}}}}, {"stereo/0,100", {{{{0, 0}}, {0, 100}}}}, {"foa/0,1,9", {{{{3, 0}}, {0, 1, 9}}}}, {"stereo+foa", {{{{0, 0}, {3, 0}}, {0}}}}, {"bin+stereo/100", {{{{2, 0}, {0, 0}}, {0, 100}}}},
      {"scal2", {{{{4, 0}}, {0}}}}, {"scal51", {{{{5, 0}}, {0, 1}}}}, {"exp3", {{{{6, 0}}, {0}}}}, {"expBt3", {{{{7, 0}}, {0}}}}, {"mixedcfg", {{{{0, 0}, {8, 0}}, {0}}}}, {"cfg201", {{{{8, 0}}, {0}}}},
      {"toa+stereo", {{{{11, 0}, {0, 0}}, {0, 1}}}}, {"toa+714", {{{{11, 0}, {12, 0}}, {0}}}}, {"toa+714+mono", {{{{11, 0}, {12, 0}, {20, 0}}, {0}}}}, {"toa", {{{{11, 0}}, {0, 7}}}}, {"three", {{{{0, 0}, {3, 0}, {1, 0}}, {0}}}},
      {"twosub", {{{{0, 0}}, {0}}, {{{1, 0}}, {0, 1}}}}, {"twosub.100", {{{{1, 0}}, {0}}, {{{0, 0}}, {100}}}}, {"twosub.adv", {{{{0, 0}}, {0}}, {{{8, 0}}, {0, 2}}}}, {"twosub.rate", {{{{0, 0}}, {0}}, {{{9, 0}}, {0}}}}, {"twosub.44k", {{{{0, 0}}, {0}}, {{{21, 0}}, {0}}}},
      {"twosub.opusflac", {{{{17, 0}}, {0}}, {{{18, 0}}, {0}}}}, {"twosub.opus", {{{{0, 0}}, {0}}, {{{17, 0}}, {0}}}}, {"twosub.3cfg", {{{{0, 0}}, {0}}, {{{17, 0}, {8, 0}}, {0}}}}, {"threesub", {{{{0, 0}}, {0}}, {{{1, 0}}, {0}}, {{{3, 0}}, {0}}}},
      {"hrm2", {{{{0, 2}}, {0}}}}, {"hrm3", {{{{0, 3}}, {0}}}}, {"51+hrm2", {{{{1, 0}, {0, 2}}, {0, 1}}}}, {"object", {{{{10, 0}}, {0}}}}, {"stereo+object", {{{{0, 0}, {10, 0}}, {0}}}}, {"nocodec", {{{{13, 0}}, {0}}}}, {"nocodec2", {{{{0, 0}, {13, 0}}, {0}}}}, {"noelem", {{{{-1, 0}}, {0}}}},
      {"exp20", {{{{14, 0}}, {0}}}}, {"layout10", {{{{15, 0}}, {0}}}}, {"type3", {{{{16, 0}}, {0}}}}, {"amb2", {{{{19, 0}}, {0}}}}, {"mono/12,0", {{{{20, 0}}, {12, 0}}}}, {"mono/0,12", {{{{20, 0}}, {0, 12}}}}, {"312", {{{{22, 0}}, {0, 11}}}},
      {"stereo/0r", {{{{0, 0}}, {200}}}}, {"51/0,1r", {{{{1, 0}}, {0, 201}}}}, {"stereo/0,100r", {{{{0, 0}}, {0, 300}}}}, {"seventeen", {{{{11, 0}, {20, 0}}, {0}}}}, {"714/0,9", {{{{12, 0}}, {0, 9}}}}};
  return t;
}
struct MixT { uint32_t id; const Shape* sh; int16_t gain; };
// --- the bitstream ------------------------------------------------------------
int Lay(int code) { return code % 200; }
Bytes Lpcm(uint32_t id, uint32_t n, uint32_t rate) { Bits b; b.leb(id); b.put(32, 0x6970636d); b.leb(n); b.put(16, 0); b.put(8, 1); b.put(8, 16); b.put(32, rate); return st::Obu(0, b.b); }
std::vector<int> SubCh(const El& e) {
  if (e.type == 1) return std::vector<int>(e.ch, 1);
  if (e.kind == "5.1") return {2, 2, 1, 1}; if (e.kind == "stereo>5.1") return {2, 2, 1, 1}; if (e.kind == "mono>stereo") return {1, 1}; if (e.kind == "exp3.0") return {2, 1}; if (e.kind == "expBt3") return {2, 1}; if (e.kind == "7.1.4") return {2, 2, 2, 2, 2, 1, 1}; if (e.kind == "3.1.2") return {2, 2, 1, 1};
  return {e.ch == 1 ? 1 : 2};
}
uint32_t Sid(int i) { uint32_t s = 40; for (int k = 0; k < i; ++k) s += SubCh(Els()[k]).size(); return s; }
Bytes ElementObu(int i) {
  const El& e = Els()[i]; const auto subs = SubCh(e); Bits b; b.leb(e.id); b.put(3, e.type); b.put(5, 0); b.leb(e.cfg); b.leb(subs.size()); for (size_t k = 0; k < subs.size(); ++k) b.leb(Sid(i) + k);
  if (e.first != e.last) {  // scalable: a demixing definition comes along
    b.leb(1); b.leb(1); b.leb(5000 + i); b.leb(48000); b.put(1, 0); b.put(7, 0); b.leb(kN); b.leb(kN); b.put(3, 0); b.put(5, 0); b.put(4, 0); b.put(4, 0);
  } else b.leb(0);
  auto layer = [&](int layout, int n, int c) { b.put(4, layout); b.put(4, 0); b.put(8, n); b.put(8, c); };
  int c = 0; for (int x : subs) c += x == 2;
  if (e.type == 0 && e.first != e.last) { b.put(3, 2); b.put(5, 0); if (e.first == 0) { layer(0, 1, 0); layer(1, 1, 0); } else { layer(1, 1, 1); layer(2, 3, 1); } }
  else if (e.type == 0) { b.put(3, 1); b.put(5, 0); layer(e.first, subs.size(), c); if (e.exp >= 0) b.put(8, e.exp); }
  else if (e.type == 1) { b.leb(e.kind == "amb2" ? 2 : 0); b.put(8, e.ch); b.put(8, e.ch); for (int k = 0; k < e.ch; ++k) b.put(8, k); }
  else if (e.type == 2) { b.leb(1); b.put(8, 1); } else { b.leb(1); b.put(8, 0); }
  return st::Obu(1, b.b);
}
Bytes MixObu(const MixT& m) {
  Bits b; b.leb(m.id); b.leb(0); b.leb(m.sh->subs.size()); uint32_t p = m.id * 50; auto gain = [&](int16_t g) { b.leb(p++); b.leb(48000); b.put(1, 1); b.put(7, 0); b.put(16, (uint16_t)g); };
  for (auto& s : m.sh->subs) {
    b.leb(s.es.size()); for (auto& [e, hrm] : s.es) { b.leb(e < 0 ? 999 : Els()[e].id); b.put(2, hrm); b.put(6, 0); b.leb(0); gain(0); }
    gain(m.gain - 40 * (&s - &m.sh->subs[0])); b.leb(s.layouts.size());
    for (int c : s.layouts) { const int l = Lay(c), r = c >= 200; if (l == 100) { b.put(2, 3); b.put(6, r ? 41 : 0); } else { b.put(2, 2); b.put(4, l); b.put(2, r ? 2 : 0); } b.put(8, 0); b.put(16, 0); b.put(16, 0); }
  }
  return st::Obu(2, b.b);
}
std::set<int> Used(const std::vector<MixT>& ms) { std::set<int> u; for (auto& m : ms) for (auto& s : m.sh->subs) for (auto& [e, h] : s.es) if (e >= 0) u.insert(e); return u; }
Bytes Desc(const std::vector<MixT>& ms, bool with_all) {
  Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  { Bits b; b.put(32, 0x69616d66); b.put(8, 2); b.put(8, 2); add(st::Obu(31, b.b)); }
  const auto used = Used(ms); std::set<uint32_t> cfg; for (int e : used) cfg.insert(Els()[e].cfg);
  for (uint32_t c : cfg) {
    if (c == 200 || c == 201) add(Lpcm(c, kN, 48000)); if (c == 202) add(Lpcm(c, 2 * kN, 48000)); if (c == 205) add(Lpcm(c, kN, 44100));
    if (c == 203) { Bits b; b.leb(c); b.put(32, 0x4f707573); b.leb(kN); b.put(16, (uint16_t)-32); b.put(8, 1); b.put(8, 2); b.put(16, 312); b.put(32, 48000); b.put(16, 0); b.put(8, 0); add(st::Obu(0, b.b)); }
    if (c == 204) { Bits b; b.leb(c); b.put(32, 0x664c6143); b.leb(kN); b.put(16, 0); b.put(8, 0x80); b.put(24, 34); b.put(16, kN); b.put(16, kN); b.put(24, 0); b.put(24, 0); b.put(20, 48000); b.put(3, 1); b.put(5, 15); b.put(4, 0); b.put(32, 0); for (int i = 0; i < 16; ++i) b.put(8, 0); add(st::Obu(0, b.b)); }
  }
  (void)with_all; for (int e : used) add(ElementObu(e)); for (auto& m : ms) add(MixObu(m)); return o;
}
// --- the rules ----------------------------------------------------------------
bool Supported(const MixT& m, int profiles) {
  auto& subs = m.sh->subs; int p = profiles; if (subs.size() > 1) p &= ~kPub; if (subs.size() > 2) p = 0;
  std::set<uint32_t> cfg; int n = 0, ch = 0; bool lpcm = false, mixed = false; bool first_bad = false;
  auto shape = [](uint32_t c) { return c == 202 ? 2 : c == 205 ? 3 : 1; };
  for (size_t i = 0; i < subs.size(); ++i) {
    for (auto& [ei, hrm] : subs[i].es) {
      const El* e = Find(ei); if (!e || !e->known || e->type == 3) return false; ++n; ch += e->ch; cfg.insert(e->cfg); lpcm |= e->cfg != 203 && e->cfg != 204;
      if (hrm == 2) p &= ~kPub; if (hrm == 3) p = 0; if (e->type == 2) p &= ~kPub;
      if (e->kind == "amb2" || e->first == 10) p = 0; if (e->first == 15) { p &= ~(kS | kB); if (e->exp >= 13) p &= ~kE; if (e->exp >= 20) p = 0; }
    }
    if (i == 0 && cfg.size() > 1) first_bad = true;
  }
  for (auto c : cfg) mixed |= shape(c) != shape(*cfg.begin());
  if (first_bad || cfg.size() > 2 || mixed) return false; if (cfg.size() == 2) { p &= ~kPub; if (!lpcm) return false; }
  const int me[6] = {1, 2, 28, 18, 18, 28}, mc[6] = {16, 18, 28, 18, 18, 28}; for (int i = 0; i < 6; ++i) if (n > me[i] || ch > mc[i]) p &= ~(1 << i);
  return p != 0;
}
bool OneElementWith(const Sub& s, int layout) { if (s.es.size() != 1) return false; const El* e = Find(s.es[0].first); return e && e->type == 0 && e->last == layout; }
bool Has(const Sub& s, int l) { for (int c : s.layouts) if (Lay(c) == l) return true; return false; }
struct Want { int mix = -1; int sub = 0, layout = 0; };
Want Select(const std::vector<MixT>& ms, int profiles, int id, int layout) {
  std::vector<int> sup; for (size_t i = 0; i < ms.size(); ++i) if (Supported(ms[i], profiles)) sup.push_back(i);
  Want w; if (sup.empty()) return w; auto first = [&](auto f) { for (int i : sup) if (f(ms[i].sh->subs)) return i; return -1; }; using V = std::vector<Sub>;
  if (id >= 0) for (int i : sup) if (w.mix < 0 && ms[i].id == (uint32_t)id) w.mix = i;
  if (w.mix < 0 && layout == 100) { w.mix = first([](const V& s) { return OneElementWith(s[0], 9); }); if (w.mix < 0) w.mix = first([](const V& s) { for (auto& x : s) if (Has(x, 100)) return true; return false; }); }
  else if (w.mix < 0 && layout == 0) { auto st = [](const V& s) { return s[0].layouts.size() == 1 && Has(s[0], 0) && OneElementWith(s[0], 1); }; w.mix = first([&](const V& s) { return st(s) && s[0].es[0].second == 0; }); if (w.mix < 0) w.mix = first(st); }
  else if (w.mix < 0 && layout > 0) w.mix = first([&](const V& s) { for (auto& x : s) if (Has(x, layout)) return true; return false; });
  if (w.mix < 0) w.mix = sup[0];
  auto& subs = ms[w.mix].sh->subs; if (layout < 0) { w.layout = Lay(subs[0].layouts[0]); return w; }
  w.layout = layout; for (size_t i = 0; i < subs.size(); ++i) if (Has(subs[i], layout)) { w.sub = i; return w; }
  return w;
}
// --- decoding -------------------------------------------------------------
double Signal(int e, int ch, uint32_t t) { uint64_t x = (e * 977 + ch * 131 + t * 2654435761ull + 12345) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (int)(x % 4096) - 2048; }
Bytes Unit(const std::vector<MixT>& ms) {
  Bytes o = st::Obu(4, {}); const auto used = Used(ms); auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  for (int e : used) { auto subs = SubCh(Els()[e]); int c = 0; for (size_t k = 0; k < subs.size(); ++k) { Bits b; b.leb(Sid(e) + k); const uint32_t n = Els()[e].cfg == 202 ? 2 * kN : kN; for (uint32_t t = 0; t < n; ++t) for (int j = 0; j < subs[k]; ++j) { int v = (int)Signal(e, c + j, t); b.put(8, v & 255); b.put(8, v >> 8 & 255); } c += subs[k]; add(st::Obu(5, b.b)); } }
  return o;
}
// Kinds whose rendering is easy to predict here; C05, C13 and C14 judge all others.
bool Simple(const Sub& s, int layout) { for (auto& [e, h] : s.es) { if (e < 0 || (h && layout == 100)) return false; auto& k = Els()[e].kind; if (k == "binaural" && layout != 100 && layout != 0) return false; if (k != "stereo" && k != "5.1" && k != "foa" && k != "binaural" && k != "toa" && k != "7.1.4" && k != "mono" && k != "3.1.2") return false; } return true; }
std::string CheckPcm(const Bytes& got, const Sub& s, int layout, int16_t gain) {
  auto kind = [](const std::string& k) { return k == "stereo" ? st::kStereo : k == "5.1" ? st::k51 : k == "foa" ? st::kFoa : k == "binaural" ? st::kBinaural : k == "toa" ? st::kToa : k == "7.1.4" ? st::k714 : k == "3.1.2" ? st::k312 : st::kMono; };
  st::Pcm p(kN, std::vector<double>(st::OutCh(layout), 0.0));
  for (auto& [ei, h] : s.es) {
    const auto k = kind(Els()[ei].kind); auto& info = st::Info(k); auto order = st::CodedToOrder(k); const int nc = st::NumCh(k); const bool pass = info.key == std::string(st::OutKey(layout)) || (k == st::kBinaural && (layout == 100 || layout == 0));
    auto* g = pass ? nullptr : gains::Find(info.key, st::OutKey(layout)); if (!pass && !g) return "";
    for (uint32_t t = 0; t < kN; ++t) for (int c = 0; c < nc; ++c) { const double v = Signal(ei, c, t) / 32768.0; for (size_t q = 0; q < p[t].size(); ++q) p[t][q] += v * (pass ? (double)(order[c] == (int)q) : (*g)[order[c]][q]); }
  }
  for (auto& f : p) for (auto& x : f) x *= st::Db(gain);
  return dec::Compare(p, got, layout, false, false, 4096);
}
std::string Str(const Want& w) { return "mix " + std::to_string(w.mix) + " layout " + std::to_string(w.layout); }
int LayoutOf(const iamf_tools::Layout& l) { if (l.layout_type == iamf_tools::Layout::kLayoutTypeBinaural) return 100; auto* s = std::get_if<iamf_tools::LoudspeakersSsConventionLayout>(&l.specific_layout); return s ? (int)s->sound_system : -1; }
void Public(Ctx& ctx, const std::vector<MixT>& ms, const Bytes& desc, const Bytes& unit, const std::vector<int>& profs, const std::vector<int>& ids, const std::vector<int>& layouts) {
  std::set<std::pair<int, int>> rendered;
  for (int p : profs) for (int id : ids) for (int l : layouts) {
    const Want w = Select(ms, p ? p : kPub, id, l); const std::string at = "profiles " + std::to_string(p) + " id " + std::to_string(id) + " layout " + std::to_string(l) + ": want " + Str(w); ctx.Transitions(1);
    api::IamfDecoder::Settings set; set.requested_output_sample_type = api::OutputSampleType::kInt32LittleEndian; if (id >= 0) set.requested_mix.mix_presentation_id = id; if (l >= 0) set.requested_mix.output_layout = dec::ApiLayout(l);
    if (p) { set.requested_profile_versions.clear(); for (int i = 0; i < 3; ++i) if (p >> i & 1) set.requested_profile_versions.insert((api::ProfileVersion)i); }
    std::unique_ptr<api::IamfDecoder> d; const auto st = api::IamfDecoder::CreateFromDescriptors(set, desc.data(), desc.size(), d);
    if (st.ok() != (w.mix >= 0)) { ctx.Fail(st.ok() ? "unsupported-accepted" : "supported-refused", at + (st.ok() ? " but created" : ": " + st.error_message)); return; }
    if (!st.ok()) { ctx.Count("refused"); continue; }
    api::SelectedMix m; if (!d->GetOutputMix(m).ok()) { ctx.Fail("get-mix", at); return; }
    int ch = 0; if (!d->GetNumberOfOutputChannels(ch).ok()) { ctx.Fail("get-channels", at); return; } uint32_t rate = 0, frame = 0;
    if (m.mix_presentation_id != ms[w.mix].id) { ctx.Fail("mix", at + " got id " + std::to_string(m.mix_presentation_id)); return; }
    if (dec::Layout(m.output_layout) != w.layout || ch != st::OutCh(w.layout)) { ctx.Fail("layout", at + " got " + std::to_string(dec::Layout(m.output_layout)) + " with " + std::to_string(ch) + " channels"); return; }
    ctx.Outcome(vh::Fnv(ms[w.mix].sh->name) ^ (w.layout * 31 + w.sub)); ctx.Validated(); ctx.Count("selected");
    auto& sub = ms[w.mix].sh->subs[w.sub]; std::set<uint32_t> cfgs; for (int e : Used(ms)) cfgs.insert(Els()[e].cfg); bool plain = true; for (auto c : cfgs) plain &= c == 200; for (int e : Used(ms)) plain &= Els()[e].known && Els()[e].type < 2;
    if (!plain || !Simple(sub, w.layout) || !rendered.insert({w.mix, w.layout}).second) continue;
    if (!d->GetSampleRate(rate).ok() || rate != 48000 || !d->GetFrameSize(frame).ok() || frame != kN) { ctx.Fail("rate", at); return; }
    if (!d->Decode(unit.data(), unit.size()).ok() || !d->SignalEndOfDecoding().ok()) { ctx.Fail("decode", at); return; }
    Bytes out(kN * ch * 4 + 8), all; while (d->IsTemporalUnitAvailable()) { size_t n = 0; auto s2 = d->GetOutputTemporalUnit(out.data(), out.size(), n); if (!s2.ok()) { ctx.Fail("decode", at + " " + s2.error_message); return; } all.insert(all.end(), out.begin(), out.begin() + n); }
    auto e = CheckPcm(all, sub, w.layout, ms[w.mix].gain); if (!e.empty()) { ctx.Fail("samples", at + ": " + e); return; } ctx.Count("rendered");
  }
  // Switching the mix of a running decoder selects as a new decoder would.
  for (int id : ids) for (int l : layouts) {
    const Want w0 = Select(ms, kPub, -1, -1); if (w0.mix < 0) break; const Want w = Select(ms, kPub, id, l); api::IamfDecoder::Settings set; set.requested_profile_versions = {(api::ProfileVersion)0, (api::ProfileVersion)1, (api::ProfileVersion)2};
    std::unique_ptr<api::IamfDecoder> d; if (!api::IamfDecoder::CreateFromDescriptors(set, desc.data(), desc.size(), d).ok()) { ctx.Fail("supported-refused", "for a reset"); return; }
    api::RequestedMix rm; if (id >= 0) rm.mix_presentation_id = id; if (l >= 0) rm.output_layout = dec::ApiLayout(l); api::SelectedMix m; ctx.Transitions(1);
    const std::string at = "reset to id " + std::to_string(id) + " layout " + std::to_string(l) + ": want " + Str(w); auto st = d->ResetWithNewMix(rm, m); if (!st.ok()) { ctx.Fail("reset", at + ": " + st.error_message); return; }
    if (m.mix_presentation_id != ms[w.mix].id || dec::Layout(m.output_layout) != w.layout) { ctx.Fail("reset-mix", at + " got id " + std::to_string(m.mix_presentation_id) + " layout " + std::to_string(dec::Layout(m.output_layout))); return; }
  }
}
// All profiles, through the decoder core.
void Core(Ctx& ctx, const std::vector<MixT>& ms, const Bytes& desc, const std::vector<int>& profs, const std::vector<int>& ids, const std::vector<int>& layouts) {
  for (int p : profs) for (int id : ids) for (int l : layouts) {
    const Want w = Select(ms, p, id, l); const std::string at = "core profiles " + std::to_string(p) + " id " + std::to_string(id) + " layout " + std::to_string(l) + ": want " + Str(w); ctx.Transitions(1);
    iamf_tools::Layout il; if (l == 100) il = {iamf_tools::Layout::kLayoutTypeBinaural, iamf_tools::LoudspeakersReservedOrBinauralLayout{}}; else il = {iamf_tools::Layout::kLayoutTypeLoudspeakersSsConvention, iamf_tools::LoudspeakersSsConventionLayout{.sound_system = (iamf_tools::LoudspeakersSsConventionLayout::SoundSystem)std::max(l, 0)}};
    absl::flat_hash_set<iamf_tools::ProfileVersion> pv; for (int i = 0; i < 6; ++i) if (p >> i & 1) pv.insert((iamf_tools::ProfileVersion)i);
    auto rb = iamf_tools::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(desc)); bool insufficient = false;
    auto d = iamf_tools::ObuProcessor::CreateForRendering(pv, id < 0 ? std::optional<uint32_t>() : std::optional<uint32_t>(id), l < 0 ? std::optional<iamf_tools::Layout>() : std::optional<iamf_tools::Layout>(il), true, rb.get(), {}, insufficient);
    bool object = false; if (w.mix >= 0) for (auto& [e, h] : ms[w.mix].sh->subs[w.sub].es) object |= Els()[e].type == 2; if (object) { ctx.Count("object"); continue; }
    if ((d != nullptr) != (w.mix >= 0)) { ctx.Fail(d ? "unsupported-accepted" : "supported-refused", at); return; } if (!d) { ctx.Count("refused"); continue; }
    auto gid = d->GetOutputMixPresentationId(); auto gl = d->GetOutputLayout(); if (!gid.ok() || !gl.ok()) { ctx.Fail("get-mix", at); return; }
    if (*gid != ms[w.mix].id) { ctx.Fail("mix", at + " got id " + std::to_string(*gid)); return; } if (LayoutOf(*gl) != w.layout) { ctx.Fail("layout", at + " got " + std::to_string(LayoutOf(*gl))); return; }
    ctx.Validated(); ctx.Count("selected");
  }
}
void Explore(Ctx& ctx) {
  const auto& sh = Shapes(); std::vector<int> all = {-1, 100}; for (int i = 0; i < 14; ++i) all.push_back(i);
  auto run = [&](const std::vector<size_t>& ix, const std::vector<int>& pub, const std::vector<int>& core, const std::vector<int>& layouts) {
    if (!ctx.NextIsMine()) { ctx.Skip(); return; }
    std::string name; for (size_t i : ix) name += (name.empty() ? "" : " | ") + std::string(sh[i].name); if (!ctx.Mine(name)) return;
    std::vector<MixT> ms; std::vector<int> ids = {-1}; for (size_t i : ix) { ms.push_back({(uint32_t)(60 - 3 * ms.size()), &sh[i], (int16_t)(-100 - 128 * ms.size())}); ids.push_back(ms.back().id); } ids.push_back(99);
    const Bytes d = Desc(ms, false), u = Unit(ms); Public(ctx, ms, d, u, pub, ids, layouts); if (!ctx.failed_in_case) Core(ctx, ms, d, core, ids, layouts); ctx.State(vh::Fnv(name));
  };
  const std::vector<int> one_by_one = {1, 2, 4, 8, 16, 32, 63, 10, 20, 41};
  for (size_t a = 0; a < sh.size() && !ctx.stop; ++a) run({a}, {0, 1, 2, 3, 4, 5, 6, 7}, one_by_one, all);
  for (size_t a = 0; a < sh.size(); ++a) for (size_t b = 0; b < sh.size() && !ctx.stop; ++b) if (ctx.thorough) run({a, b}, {0, 1, 2, 3, 4, 5, 6, 7}, one_by_one, {-1, 0, 1, 100, 12, 9, 2, 11}); else run({a, b}, {0, 1 + (int)(a + b) % 7}, {8, 63}, {-1, 0, 1, 100});
  // Triples: shapes of which each stands for one rule (quick), all of them (thorough).
  std::vector<size_t> t3; for (size_t i = 0; i < sh.size(); ++i) { const std::string n = sh[i].name; bool rule = false; for (auto k : {"stereo", "stereo.hrm1", "stereo/0,1", "51", "bin", "stereo/0,100", "foa/0,1,9", "stereo+foa", "toa+714", "twosub", "mono/12,0", "noelem", "exp3"}) rule |= n == k; if (ctx.thorough || rule) t3.push_back(i); }
  for (size_t a : t3) for (size_t b : t3) for (size_t c : t3) if (!ctx.stop) run({a, b, c}, {0}, {63}, {-1, 0, 1, 100});
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C16";
  s.rule = "every menu of one and two mix presentations out of 51 shapes (and of three mix presentations out of 13 shapes, one for each rule; thorough: out of all 51) x requested profiles (public API: every subset of its three; core: all six alone and in groups) x requested mix id (none, each, unknown) x requested layout; the same through ResetWithNewMix";
  s.assumptions = {"selection rules as documented in obu_processor_utils.cc and profile_filter.h (IAMF 7.3.1, 4)", "object elements are filtered, not rendered"};
  s.min_cases = 500; return vh::Run(argc, argv, s, Explore);
}
