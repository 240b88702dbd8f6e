// C15: encoding audio elements of every kind: each ladder of channel layers,
// output gain, demixing history, expanded layout and ambisonics order. The coded
// substreams are the down-mix of the input, bit for bit apart from rounding, the
// descriptors and parameter blocks are exact, decoding gives the input back, and
// recon gains are those of the specification.
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "senc.h"
using vh::Ctx; using gram::Bytes; namespace api = iamf_tools::api;
namespace {
std::string Cls(const std::string& n) { return n.substr(0, n.find('/')); }
int32_t Word(const Bytes& b, size_t p) { return (int32_t)((uint32_t)b[p] | (uint32_t)b[p + 1] << 8 | (uint32_t)b[p + 2] << 16 | (uint32_t)b[p + 3] << 24); }
void CheckStream(Ctx& ctx, const std::string& name, senc::Cfg& c, const enc::Out& o, const std::vector<int>& outs) {
  const std::string cls = Cls(name); auto& s = c.s;
  if (o.units.size() != s.tus.size()) { ctx.Fail("units/" + cls, std::to_string(o.units.size()) + " want " + std::to_string(s.tus.size())); return; }
  if (!c.opus) {  // descriptors, apart from the loudness values
    Bytes want = sc::Descriptors(s); const size_t n = s.mix.layouts.size();
    for (int f = 0; f < 2; ++f) { Bytes w = want, g = f ? o.desc : o.desc0; if (g.size() == w.size()) { size_t p = w.size(); for (size_t i = n; i--;) { p -= 6; for (int k = 2; k < 6; ++k) w[p + k] = g[p + k]; } } if (w != g) { ctx.Fail("descriptors/" + cls, "got " + vh::Hex(g.data(), g.size()) + "\nwant " + vh::Hex(w.data(), w.size())); return; } }
    for (size_t i = 0; i < n; ++i) { const int l = s.mix.layouts[i]; auto w = enc::Weights(l); double en = 0, peak = 0; uint64_t cnt = 0; bool ok = true;
      for (size_t k = 0; k < s.tus.size() && ok; ++k) { auto p = sc::Render(s, l, k); if (p.empty() && s.tus[k].trim_start + s.tus[k].trim_end < s.n) ok = false; for (auto& row : p) { ++cnt; for (size_t q = 0; q < row.size(); ++q) { en += w[q] * row[q] * row[q]; peak = std::max(peak, std::fabs(row[q])); } } }
      if (!ok || !cnt) continue; auto cl = [](double x) { return std::min(127.99609375, std::max(-128.0, x)); }; const double il = en > 0 ? cl(-0.691 + 10 * std::log10(en / cnt)) : -128, pk = en > 0 ? cl(20 * std::log10(std::max(peak, 1e-9))) : -128;
      const size_t at = o.desc.size() - 6 * (n - i) + 2; auto q = [&](size_t p) { return (int16_t)(o.desc[p] << 8 | o.desc[p + 1]) / 256.0; };
      if (std::fabs(q(at) - il) > 1.01 / 256 || std::fabs(q(at + 2) - pk) > 1.01 / 256) { ctx.Fail("loudness/" + cls, "layout " + std::to_string(l) + " got " + std::to_string(q(at)) + "," + std::to_string(q(at + 2)) + " want " + std::to_string(il) + "," + std::to_string(pk)); return; } }
  } else for (auto& e : s.elems) { const Bytes w = sc::ElementObu(s, e); if (std::search(o.desc.begin(), o.desc.end(), w.begin(), w.end()) == o.desc.end()) { ctx.Fail("element/" + cls, "audio element OBU not found"); return; } }
  for (size_t i = 0; i < s.tus.size(); ++i) {
    std::vector<size_t> words; sc::Coding cod{c.opus, true, c.Delay(), c.samples, &words}; Bytes w = sc::TuBytes(s, i, cod); const Bytes& g = o.units[i];
    if (w.size() == g.size()) for (size_t p : words) {
      bool near; if (c.opus) { float a, b; int32_t x = Word(w, p), y = Word(g, p); memcpy(&a, &x, 4); memcpy(&b, &y, 4); near = std::fabs(a - b) < 1e-6; } else near = std::llabs((long long)Word(w, p) - Word(g, p)) <= 2;
      if (!near) { ctx.Fail("coded/" + cls, "unit " + std::to_string(i) + " byte " + std::to_string(p) + " got " + std::to_string(Word(g, p)) + " want " + std::to_string(Word(w, p))); return; }
      for (int k = 0; k < 4; ++k) w[p + k] = g[p + k];
    }
    if (w != g) { ctx.Fail("unit/" + cls, "unit " + std::to_string(i) + "\ngot  " + vh::Hex(g.data(), std::min<size_t>(g.size(), 200)) + "\nwant " + vh::Hex(w.data(), std::min<size_t>(w.size(), 200))); return; }
  }
  ctx.Validated(s.tus.size());
  if (c.opus) return;
  for (int out : outs) {
    Bytes all = o.desc; for (auto& u : o.units) all.insert(all.end(), u.begin(), u.end());
    api::IamfDecoder::Settings set; set.requested_output_sample_type = api::OutputSampleType::kInt32LittleEndian; set.requested_mix.output_layout = dec::ApiLayout(out);
    auto r = dec::Standalone(all, set, {}, dec::kDrainEach); if (!r.ok) { ctx.Fail("decode/" + cls, r.err); return; }
    st::Pcm want; bool ok = true; for (size_t k = 0; k < s.tus.size(); ++k) { auto p = sc::Render(s, out, k); if (p.empty() && s.tus[k].trim_start + s.tus[k].trim_end < s.n) ok = false; want.insert(want.end(), p.begin(), p.end()); } if (!ok) continue;
    Bytes pcm; for (auto& t : r.tus) pcm.insert(pcm.end(), t.begin(), t.end());
    auto e = dec::Compare(want, pcm, out, false, false, 8192); if (!e.empty()) { ctx.Fail("roundtrip/" + cls, "layout " + std::to_string(out) + ": " + e); return; }
    ctx.Count("roundtrips");
  }
}
// `must`: 1 has to be encoded, 0 has to be refused, -1 either.
void RunMine(Ctx& ctx, const std::string& name, senc::Cfg c, const std::vector<int>& outs, int must) {
  auto& s = c.s; const uint64_t fr = c.Frames(); s.tus.resize(fr); uint64_t left = c.trim_start; for (uint64_t i = 0; i < fr; ++i) { s.tus[i].trim_start = std::min<uint64_t>(s.n, left); left -= s.tus[i].trim_start; s.tus[i].trim_end = i + 1 == fr ? c.trim_end : 0; }
  if (c.s.mix.layouts.empty()) { c.s.mix.layouts = outs; if (std::find(outs.begin(), outs.end(), 0) == outs.end()) c.s.mix.layouts.push_back(0); }
  auto o = senc::Encode(c); ctx.Transitions(o.calls); ctx.Outcome(vh::Fnv(o.where) ^ vh::Fnv(o.desc.data(), o.desc.size()));
  if (!o.ok) { ctx.Count("refused"); if (must == 1) ctx.Fail("refused/" + Cls(name), o.where + ": " + o.err); return; }
  if (must == 0) { ctx.Fail("accepted/" + Cls(name), ""); return; }
  ctx.Count("encoded"); CheckStream(ctx, name, c, o, outs); ctx.State(vh::Fnv(name));
}
void Run(Ctx& ctx, const std::string& name, senc::Cfg c, const std::vector<int>& outs, int must = 1) {
  if (!ctx.NextIsMine()) { ctx.Skip(); return; }
  if (!ctx.Mine(name)) return;
  RunMine(ctx, name, c, outs, must);
}
sc::Elem MakeElem(const std::vector<int>& ladder, int demix) { sc::Elem e; for (int l : ladder) e.layers.push_back({l}); e.demix = demix; return e; }
std::vector<int> Outs(const std::vector<int>& ladder) { std::vector<int> o; for (int l : ladder) o.push_back(sc::LayerSoundSystem(l)); std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o; }
std::string Str(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
const std::vector<int> kModes = {0, 1, 2, 4, 5, 6};
void Plain(Ctx& ctx) {
  for (auto& l : sc::Ladders(7)) {
    if (ctx.stop) return;
    const std::string nm = MakeElem(l, -1).Name(); senc::Cfg b; b.s.mix.es = {0}; const bool deep = ctx.thorough || l.size() <= 2;
    // No demixing parameters: fine when nothing is down-mixed.
    { auto c = b; c.s.elems = {MakeElem(l, -1)}; c.samples = 8; Run(ctx, "bare/" + nm, c, Outs(l), l.size() == 1 ? 1 : -1); }
    // Defaults.
    for (int m : kModes) for (int w : {0, 3, 10}) { if (!deep && w != 3) continue; auto c = b; c.s.elems = {MakeElem(l, 70)}; c.s.elems[0].def_mode = m; c.s.elems[0].def_w = w; c.samples = 7; c.trim_end = 1; Run(ctx, "default/" + nm + "/" + Str({m, w}), c, Outs(l)); }
    // Every sequence of two modes (three when thorough).
    const int len = ctx.thorough && l.size() <= 3 ? 3 : 2; int total = 1; for (int i = 0; i < len; ++i) total *= 6;
    for (int q = 0; q < total; ++q) { { bool few = true; for (int i = 0, v = q; i < len; ++i, v /= 6) few &= v % 6 == 1 || v % 6 == 3; if (!deep && !few) continue; } auto c = b; c.s.elems = {MakeElem(l, 70)}; auto& e = c.s.elems[0]; e.def_mode = 2; e.def_w = 7; e.gain = -300; c.s.mix.out = 200; c.s.tus.resize(len); int v = q; std::vector<int> seq; for (int i = 0; i < len; ++i, v /= 6) { c.s.tus[i].mode[70] = kModes[v % 6]; seq.push_back(kModes[v % 6]); } c.samples = 4 * len; c.trim_start = q % 3; Run(ctx, "modes/" + nm + "/" + Str(seq), c, Outs(l)); }
    // Blocks for a prefix, then defaults.
    for (int pre = 1; pre <= 3; ++pre) { auto c = b; c.s.elems = {MakeElem(l, 70)}; c.s.elems[0].def_mode = 1; c.s.elems[0].def_w = 9; c.s.tus.resize(4); for (int i = 0; i < pre; ++i) c.s.tus[i].mode[70] = 4 + i % 3; c.samples = 14; c.trim_end = 2; c.trim_start = 5; Run(ctx, "prefix/" + nm + "/" + std::to_string(pre), c, Outs(l)); }
    { auto c = b; c.s.elems = {MakeElem(l, 70)}; c.s.tus.resize(16); for (int i = 0; i < 16; ++i) c.s.tus[i].mode[70] = kModes[(i < 12 ? 3 : 0) + i % 3]; c.samples = 64; Run(ctx, "ramp/" + nm, c, Outs(l)); }
    // Substream identifiers in any form.
    { auto c = b; c.s.elems = {MakeElem(l, 70)}; auto& e = c.s.elems[0]; const size_t n = sc::Substreams(e).size(); for (size_t i = 0; i < n; ++i) e.sids.push_back(i % 2 ? 300 - 7 * i : 12 + 29 * i); c.samples = 8; Run(ctx, "ids/" + nm, c, Outs(l)); }
    // Output gains.
    for (size_t k = 0; k < l.size(); ++k) for (int f : {0, 1, 2, 4, 8, 16, 32, 48, 63}) for (int16_t g : {int16_t(-700), int16_t(1536)}) { if (!deep && (g > 0 || (f != 63 && f != 16 && (l.size() > 3 || (f != 1 && f != 48))))) continue; auto c = b; c.s.elems = {MakeElem(l, 70)}; auto& y = c.s.elems[0].layers[k]; y.og_present = true; y.og_flags = f; y.og = g; c.s.tus.resize(2); c.s.tus[0].mode = c.s.tus[1].mode = {{70, 1}}; c.samples = 8; Run(ctx, "outgain/" + c.s.elems[0].Name(), c, Outs(l)); }
  }
  // Two elements with own or shared parameters.
  const std::vector<std::vector<int>> two = {{8, 7}, {1, 2}, {0, 1, 8, 3}, {2, 6}, {7}, {1, 4}};
  for (auto& x : two) for (auto& y : two) for (int shared = 0; shared < 2; ++shared) for (int seq = 0; seq < 6; ++seq) {
    if (ctx.stop) return;
    senc::Cfg c; c.s.mix.es = {0, 1}; c.s.elems = {MakeElem(x, 70), MakeElem(y, shared ? 70 : 72)}; c.s.elems[1].id = 301; c.s.elems[1].sid = 60; c.s.elems[1].gain = -512; c.s.tus.resize(4);
    for (int i = 0; i < 4; ++i) { c.s.tus[i].mode[70] = kModes[(i * (seq + 1) + seq) % 6]; if (!shared && i < 4 - seq) c.s.tus[i].mode[72] = kModes[(i + seq) % 6]; } c.samples = 16; c.s.mix.layouts = {0, 9}; Run(ctx, std::string("two/") + (shared ? "shared/" : "own/") + c.s.elems[0].Name() + "+" + c.s.elems[1].Name() + "/" + std::to_string(seq), c, {0, 9});
  }
  // Expanded layouts and ambisonics.
  for (int x = 0; x < 13; ++x) for (int n = 1; n <= 9; n += 4) { senc::Cfg c; c.s.mix.es = {0}; c.s.elems.resize(1); c.s.elems[0].exp = x; c.samples = n; c.trim_end = 3; Run(ctx, "expanded/" + std::to_string(x) + "/" + std::to_string(n), c, {9, 0, 13}); }
  for (int order = 0; order <= 4; ++order) for (int form = 0; form < 4; ++form) { senc::Cfg c; c.s.mix.es = {0}; c.s.elems.resize(1); auto& e = c.s.elems[0]; e.order = order; const int n = (order + 1) * (order + 1); int k = 0; for (int i = 0; i < n; ++i) e.mapping.push_back(form == 1 && i % 2 ? 255 : k++); e.subs = k; if (form == 2) std::reverse(e.mapping.begin(), e.mapping.end()); if (form == 3) { for (int i = 0; i < n; ++i) e.sids.push_back(200 - i); } c.samples = 10; c.trim_end = 2; c.trim_start = 1; Run(ctx, "ambisonics/" + std::to_string(order) + "." + std::to_string(form), c, {0, 9, 1}); }
}
// Recon gains. Levels per channel group pick each rule of the computation.
void Recon(Ctx& ctx) {
  static const double steps[] = {0, 1.0 / 512, 1.0 / 16384};
  for (auto& l : sc::Ladders(ctx.thorough ? 7 : 4)) {
    if (ctx.stop) return; if (l.size() < 2) continue; bool demixes = true; { auto e = MakeElem(l, 70); for (size_t k = 1; k < l.size(); ++k) demixes &= !senc::DemixedChannels(e, k).empty(); }
    for (int step = 0; step < 3; ++step) for (int lv = 0; lv < 5; ++lv) for (int form = 0; form < 4; ++form) {
      // form 0: right gains; 1: one gain off by one; 2: gains of the user's own; 3: a missing or superfluous flag.
      if (l.size() > 2 && !ctx.thorough && lv != 1 && (l.size() > 3 || lv != 4)) continue;
      const std::string name = "recon/" + MakeElem(l, 70).Name() + "/" + Str({step, lv, form});
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
      if (!ctx.Mine(name)) continue;
      senc::Cfg c; c.opus = true; c.s.n = 120; c.s.mix.es = {0}; c.s.elems = {MakeElem(l, 70)}; auto& e = c.s.elems[0]; e.recon = 71; e.def_mode = lv % 3; e.def_w = lv; for (size_t k = 1; k < l.size(); ++k) e.layers[k].recon = true; if (lv == 4) { e.layers[0].og_present = true; e.layers[0].og_flags = 63; e.layers[0].og = -300; }
      static const std::vector<std::map<std::string, double>> levels = {{}, {{"Lrs7", .02}, {"Rrs7", .1}, {"Ls5", .01}, {"Rs5", .2}, {"Ltb4", .03}, {"Rtb4", .1}, {"L3", .01}, {"R2", .05}, {"L7", .01}, {"R5", .1}}, {{"Lrs7", 0}, {"Rs5", 0}, {"Ltb4", 0}, {"R2", 0}, {"L3", 0}, {"L5", 0}, {"L7", 0}, {"Ltf2", 0}}, {{"Lrs7", 1e-4}, {"Rrs7", 1e-6}, {"Ls5", 1e-3}, {"Rs5", 1e-5}, {"Ltb4", 1e-3}, {"Rtb4", 1e-4}, {"Ltf2", .001}, {"R2", 1e-3}, {"R5", 1e-3}, {"R7", .01}}, {{"Lss7", .05}, {"C", 3}, {"Ls5", .1}, {"Lrs7", .05}, {"Rtb4", .05}, {"R2", .1}, {"L2", 2}}};
      c.s.level = levels[lv]; c.samples = 300 - 20 * lv; c.trim_start = 312; c.trim_end = (120 - (c.samples + 312) % 120) % 120; c.s.tus.resize(c.Frames()); g_standin_opus_step = steps[step];
      bool sure = true, changed = false; for (size_t i = 0; i < c.Frames(); ++i) { auto g = senc::ReconGains(c, 0, i, sure); if (form == 1 && i + 1 == c.Frames()) { for (auto& x : g) for (auto& [bit, v] : x) if (!changed) { v += v < 128 ? 1 : -1; changed = true; } } if (form == 2) for (auto& x : g) for (auto& [bit, v] : x) v = (v * 7 + bit * 31 + i) % 256; if (form == 3 && i == 0) { auto& x = g.back(); if (lv % 2 && !x.empty()) x.erase(x.begin()); else x[11] = 9; } c.s.tus[i].recon[71] = g; }
      if (!sure && form != 2) { ctx.Count("ambiguous"); g_standin_opus_step = 0; continue; }
      c.wants_override = form == 2;
      RunMine(ctx, name, c, {0}, form == 2 ? 1 : form == 0 && demixes ? 1 : 0); g_standin_opus_step = 0;
    }
    if (l.size() > 2 && !ctx.thorough) continue;
    // Each rebuilt channel at every level around the thresholds, in a loud, soft or lopsided mix.
    if (demixes) for (size_t k = 1; k < l.size(); ++k) for (auto& x : senc::DemixedChannels(MakeElem(l, 70), k)) for (int side = 0; side < 3; ++side) {
      static const std::vector<double> lv = {3, 1.5, .8, .6, .5, .45, .4, .36, .33, .3, .27, .25, .22, .18, .1, .03, 1e-3, 3e-7, 1.2e-7, 9e-8, 7e-8, 5e-8, 2e-8};
      for (size_t v = 0; v < lv.size(); ++v) {
        if (!ctx.thorough && side && v % 4 != 1) continue;  // lopsided mixes: six of the levels
        const std::string name = "reconlevel/" + MakeElem(l, 70).Name() + "/" + x.label + "/" + Str({(int)v, side}); if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine(name)) continue;
        senc::Cfg c; c.opus = true; c.s.n = 120; c.s.mix.es = {0}; c.s.elems = {MakeElem(l, 70)}; auto& e = c.s.elems[0]; e.recon = 71; e.def_mode = v % 3; e.def_w = v % 11; for (size_t q = 1; q < l.size(); ++q) e.layers[q].recon = true;
        for (const char* n : {"L2", "R2", "L3", "R3", "L5", "R5", "L7", "R7", "Ls5", "Rs5", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf2", "Rtf2", "Ltf4", "Rtf4", "Ltb4", "Rtb4"}) if (side == 1 && n[0] != x.label[0]) c.s.level[n] = .02; else if (side == 2 && n[0] != x.label[0]) c.s.level[n] = 3;
        c.s.level[x.label] = lv[v]; c.samples = 120; c.trim_start = 312; c.trim_end = 48; c.s.tus.resize(c.Frames()); g_standin_opus_step = 1.0 / 512;
        bool sure = true; for (size_t i = 0; i < c.Frames(); ++i) c.s.tus[i].recon[71] = senc::ReconGains(c, 0, i, sure);
        if (!sure) { ctx.Count("ambiguous"); g_standin_opus_step = 0; continue; }
        ctx.Count("recon_levels"); RunMine(ctx, name, c, {0}, 1); g_standin_opus_step = 0;
      }
    }
    if (l.size() > 2) continue;
    // Gains nobody can code: they are refused, not half written.
    for (int bad = 0; bad < 8; ++bad) { senc::Cfg c; c.opus = true; c.wants_override = true; c.s.n = 480; c.s.mix.es = {0}; c.s.elems = {MakeElem(l, 70)}; auto& e = c.s.elems[0]; e.recon = 71; e.layers[1].recon = true; c.samples = 120; c.trim_start = 312; c.trim_end = 48; c.s.tus.resize(4); for (auto& u : c.s.tus) { auto& r = u.recon[71]; r.resize(2); r[1] = {{0, 200}}; if (bad < 5) r[1][std::vector<int>{12, 13, 31, 32, 100000}[bad]] = 7; if (bad == 5) r[1][3] = 256; if (bad == 6) r.resize(1); if (bad == 7) r.resize(3); } Run(ctx, "badrecon/" + e.Name() + "/" + std::to_string(bad), c, {0}, 0); }
  }
}
void Explore(Ctx& ctx) { Plain(ctx); Recon(ctx); }
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C15"; s.min_cases = 1000;
  s.rule = "all ladders of channel layouts (1 to 7 layers) x {default demixing parameters, sequences of 2 (thorough: 3) demixing modes, block prefixes, ramps, output gains per layer and flag, substream id forms, trimming}; pairs of elements with own and shared parameter ids; expanded layouts 0-12; ambisonics orders 0-4; recon gains of ladders of 2-4 (thorough: 7) layers x 5 level patterns x 3 codec losses x {right, off by one, overridden, wrong flags}; recon gains that cannot be coded";
  s.assumptions = {"32-bit LPCM, and a stand-in of Opus with a chosen loss", "the loudness meter is a stand-in"};
  return vh::Run(argc, argv, s, Explore);
}
