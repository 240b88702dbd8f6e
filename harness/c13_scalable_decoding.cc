// C13: scalable channel audio. Every ladder of layers, every sequence of
// demixing modes up to a bound, output gains on every channel set, and every
// playback layout; the streams are built by the down-mix equations from a chosen
// top layer and the decoder has to give every layer back.
#include "vh_main.h"
#include "dec.h"
#include "scal.h"
using vh::Ctx; using namespace sc; namespace api = iamf_tools::api;
namespace {
void Run(Ctx& ctx, const std::string& name, const Stream& s, const std::vector<int>& outs) {
  if (!ctx.NextIsMine()) { ctx.Skip(); return; }
  if (!ctx.Mine(name)) return;
  for (int out : outs) {
    Stream x = s; x.mix.layouts = {out}; if (out) x.mix.layouts.push_back(0);
    const Bytes b = All(x); api::IamfDecoder::Settings set; set.requested_output_sample_type = api::OutputSampleType::kInt32LittleEndian;
    auto r = dec::Standalone(b, set, {}, dec::kDrainEach); ctx.Transitions(x.tus.size());
    const std::string at = " layout " + std::to_string(out);
    if (!r.ok) { ctx.Fail("decode/" + name.substr(0, name.find('/')), at + ": " + r.err); return; }
    if (r.ch != st::OutCh(out)) { ctx.Fail("channels", at); return; }
    std::vector<size_t> want; for (size_t i = 0; i < x.tus.size(); ++i) if (x.tus[i].trim_start + x.tus[i].trim_end < x.n) want.push_back(i);
    size_t k = 0; for (auto& t : r.tus) { if (t.empty()) continue; if (k == want.size()) { ctx.Fail("units", at + ": too many"); return; }
      auto p = Render(x, out, want[k]); if (p.empty()) { ctx.Fail("harness", "no gains" + at); return; }
      auto e = dec::Compare(p, t, out, false, false, 600); if (!e.empty()) { ctx.Fail("samples/" + name.substr(0, name.find('/')) + "/" + std::to_string(out), at + " unit " + std::to_string(want[k]) + ": " + e); return; } ctx.Validated(); ++k; ctx.Outcome(vh::Fnv(t.data(), t.size())); }
    if (k != want.size()) { ctx.Fail("units", at + ": " + std::to_string(k) + " of " + std::to_string(want.size())); return; }
    ctx.Count("decoded");
  }
  ctx.State(vh::Fnv(name));
}
Elem MakeElem(const std::vector<int>& ladder, int demix) { Elem e; for (int l : ladder) e.layers.push_back({l}); e.demix = demix; return e; }
std::vector<int> Outs(const std::vector<int>& ladder, bool all) {
  std::vector<int> o; if (all) { for (int i = 0; i < 15; ++i) o.push_back(i); return o; }
  for (int l : ladder) o.push_back(LayerSoundSystem(l)); for (int x : {0, 10, 11, 12}) if (std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x); return o;
}
std::string Str(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
void Explore(Ctx& ctx) {
  const std::vector<int> modes = {0, 1, 2, 4, 5, 6};
  const auto ladders = Ladders(7); ctx.Count("ladders", ctx.worker == 0 ? ladders.size() : 0);
  for (auto& l : ladders) {
    if (ctx.stop) return;
    Stream s; s.mix.es = {0};
    // No definition is needed with one layer; it may still be there.
    if (l.size() == 1) { s.elems = {MakeElem(l, -1)}; s.tus.assign(2, {}); Run(ctx, "plain/" + s.elems[0].Name(), s, Outs(l, true)); }
    // Defaults only.
    for (int m : modes) for (int w = 0; w <= 10; ++w) { if (!ctx.thorough && w != 0 && w != 4 && w != 7 && w != 10) continue; s.elems = {MakeElem(l, 70)}; s.elems[0].def_mode = m; s.elems[0].def_w = w; s.tus.assign(2, {}); Run(ctx, "default/" + s.elems[0].Name() + "/" + std::to_string(m) + "." + std::to_string(w), s, Outs(l, w == 10 && m == 1)); }
    // Blocks: every mode sequence over two units; three on short ladders (always, when thorough).
    const int len = ctx.thorough && l.size() <= 4 ? 3 : 2; int total = 1; for (int i = 0; i < len; ++i) total *= 6;
    for (int q = 0; q < total; ++q) { int v = q; std::vector<int> seq; s.tus.assign(len, {}); for (int i = 0; i < len; ++i, v /= 6) { s.tus[i].mode[70] = modes[v % 6]; seq.push_back(modes[v % 6]); } bool few = true; for (int m : seq) few &= m == 0 || m == 2 || m == 5; if (!ctx.thorough && l.size() > 3 && !few) continue; s.elems = {MakeElem(l, 70)}; s.elems[0].def_mode = 2; s.elems[0].def_w = 7; s.elems[0].gain = -300; s.mix.out = 256; Run(ctx, "modes/" + s.elems[0].Name() + "/" + Str(seq), s, Outs(l, false)); }
    s.elems = {MakeElem(l, 70)}; s.elems[0].gain = 0; s.mix.out = 0;
    // Long ramps: the index saturates at both ends.
    for (int up = 0; up < 3; ++up) { s.tus.assign(26, {}); for (int i = 0; i < 26; ++i) s.tus[i].mode[70] = modes[(i < 13 ? 3 : 0) + (up + i) % 3]; Run(ctx, "ramp/" + s.elems[0].Name() + "/" + std::to_string(up), s, Outs(l, false)); }
    // Blocks for a prefix of the stream, then defaults; trimming.
    for (int pre = 1; pre <= 3; ++pre) { s.tus.assign(4, {}); for (int i = 0; i < pre; ++i) s.tus[i].mode[70] = 4 + i % 3; s.elems[0].def_mode = 1; s.elems[0].def_w = 9; s.tus[0].trim_start = pre; s.tus[3].trim_end = 4 - pre; Run(ctx, "prefix/" + s.elems[0].Name() + "/" + std::to_string(pre), s, Outs(l, false)); }
    // Substream identifiers in any form.
    s.tus.assign(2, {}); s.elems = {MakeElem(l, 70)}; { const size_t n = Substreams(s.elems[0]).size(); for (size_t i = 0; i < n; ++i) s.elems[0].sids.push_back(i % 2 ? 40 - i : 17 - i); } Run(ctx, "ids/" + s.elems[0].Name(), s, Outs(l, false));
    // Output gains: each layer, each single flag, all flags, several gains.
    for (size_t k = 0; k < l.size(); ++k) for (int f = 0; f < 64; ++f) {
      const bool single = (f & (f - 1)) == 0 || f == 63 || f == 48; if (!single && (!ctx.thorough || l.size() > 3)) continue;
      for (int16_t g : {int16_t(-1536), int16_t(700), int16_t(-20000), int16_t(-28000)}) { s.level.clear(); if (g < -9999) { if (l.size() > 1 || f != 63) continue; for (auto& sub : Substreams(MakeElem(l, 70))) for (auto& n : sub) s.level[n] = std::pow(10.0, g / 256.0 / 20); } s.elems = {MakeElem(l, 70)}; auto& y = s.elems[0].layers[k]; y.og_present = true; y.og_flags = f; y.og = g; if (k) { auto& z = s.elems[0].layers[0]; z.og_present = true; z.og_flags = 63; z.og = -77; } s.tus.assign(2, {}); s.tus[1].mode = s.tus[0].mode = {{70, 1}}; Run(ctx, "outgain/" + s.elems[0].Name(), s, Outs(l, false)); s.level.clear(); }
    }
    // Recon gains of one (no change), per layer.
    if (l.size() > 1) for (int fl = 0; fl < 3; ++fl) { s.elems = {MakeElem(l, 70)}; auto& e = s.elems[0]; e.recon = 71; for (size_t k = 1; k < l.size(); ++k) e.layers[k].recon = fl != 2 || k == l.size() - 1; s.tus.assign(2, {}); for (auto& u : s.tus) { auto& r = u.recon[71]; r.resize(l.size()); for (size_t k = 1; k < l.size(); ++k) if (e.layers[k].recon) { if (fl == 0) r[k] = {{0, 255}, {2, 255}}; else for (int bit = 0; bit < 12; ++bit) r[k][bit] = 255; } } Run(ctx, "recon/" + e.Name() + "/" + std::to_string(fl), s, Outs(l, false)); }
  }
  // Two elements: own parameters or shared ones.
  std::vector<std::vector<int>> two = {{8, 7}, {1, 2}, {0, 1, 8, 3}, {2, 6}, {7}, {1, 4}};
  for (auto& a : two) for (auto& b : two) for (int shared = 0; shared < 2; ++shared) for (int seq = 0; seq < 6; ++seq) {
    if (ctx.stop) return;
    Stream s; s.mix.es = {0, 1}; s.elems = {MakeElem(a, 70), MakeElem(b, shared ? 70 : 72)}; s.elems[1].id = 301; s.elems[1].sid = 60; s.elems[1].gain = -512; s.tus.assign(4, {});
    for (int i = 0; i < 4; ++i) { s.tus[i].mode[70] = modes[(i * (seq + 1) + seq) % 6]; if (!shared && i < 4 - seq) s.tus[i].mode[72] = modes[(i + seq) % 6]; }
    Run(ctx, std::string("two/") + (shared ? "shared/" : "own/") + s.elems[0].Name() + "+" + s.elems[1].Name() + "/" + std::to_string(seq), s, {0, 9, 10, 11, 12, 1});
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C13";
  s.rule = "all ladders of channel layouts with non-decreasing channel numbers (1 to 7 layers) x {defaults: all modes x w indices; all sequences of 2 (thorough: 3) demixing modes; 26-unit ramps that saturate the w index; blocks for a prefix only; trimming; output gains per layer and flag; recon gains of one; substream id forms} x playback layouts; pairs of scalable elements with own and shared parameter ids";
  s.assumptions = {"32-bit LPCM substreams (4 ticks per frame)", "recon gains other than one are outside the property", "gain matrices recorded in harness/gains_golden.inc"};
  s.min_cases = 1000; return vh::Run(argc, argv, s, Explore);
}
