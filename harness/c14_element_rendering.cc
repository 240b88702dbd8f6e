// C14: every kind of audio element on every playback layout: channel layouts,
// expanded layouts, ambisonics (mono with any mapping, projection with any
// split), alone and mixed. The reference is scal.h with the recorded gains.
#include "vh_main.h"
#include "dec.h"
#include "scal.h"
#include "iamf/cli/obu_processor.h"
using vh::Ctx; using namespace sc; namespace api = iamf_tools::api;
namespace {
// The decoder core, with all profiles and all layouts.
std::string Core(const Bytes& b, int out, dec::Result& r) {
  auto rb = iamf_tools::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b)); bool insufficient = false;
  using iamf_tools::ProfileVersion;
  iamf_tools::Layout l; if (out == 100) l = {iamf_tools::Layout::kLayoutTypeBinaural, iamf_tools::LoudspeakersReservedOrBinauralLayout{}}; else l = {iamf_tools::Layout::kLayoutTypeLoudspeakersSsConvention, iamf_tools::LoudspeakersSsConventionLayout{.sound_system = (iamf_tools::LoudspeakersSsConventionLayout::SoundSystem)out}};
  auto p = iamf_tools::ObuProcessor::CreateForRendering({ProfileVersion::kIamfSimpleProfile, ProfileVersion::kIamfBaseProfile, ProfileVersion::kIamfBaseEnhancedProfile, ProfileVersion::kIamfBaseAdvancedProfile, ProfileVersion::kIamfAdvanced1Profile, ProfileVersion::kIamfAdvanced2Profile}, std::nullopt, l, false, rb.get(), {}, insufficient);
  if (!p) return "refused";
  auto got = p->GetOutputLayout(); if (!got.ok() || !(*got == l)) return "another layout was selected";
  r.ch = st::OutCh(out);
  for (bool more = true; more;) {
    std::optional<iamf_tools::ObuProcessor::OutputTemporalUnit> u; if (!p->ProcessTemporalUnit(true, u, more).ok()) return "unit"; if (!u) continue;
    auto s = p->RenderTemporalUnitAndMeasureLoudness(u->output_timestamp, u->output_parameter_blocks, u->output_audio_frames); if (!s.ok()) return std::string(s.status().message());
    if ((int)s->size() != r.ch) return "channels " + std::to_string(s->size()); Bytes o; const size_t ticks = (*s)[0].size();
    for (size_t t = 0; t < ticks; ++t) for (auto& c : *s) { if (c.size() != ticks) return "ragged"; uint32_t v = Quant(c[t]); for (int i = 0; i < 32; i += 8) o.push_back(v >> i & 255); }
    r.tus.push_back(o);
  }
  return "";
}
void Run(Ctx& ctx, const std::string& name, const Stream& s, const std::vector<int>& outs, bool core) {
  if (!ctx.NextIsMine()) { ctx.Skip(); return; }
  if (!ctx.Mine(name)) return;
  const std::string fam = name.substr(0, name.find('/'));
  for (int out : outs) {
    Stream x = s; x.mix.layouts = {out}; if (out) x.mix.layouts.push_back(0);
    const Bytes b = All(x); const std::string at = " layout " + std::to_string(out); dec::Result r; ctx.Transitions(x.tus.size());
    if (core || out == 14) { auto e = Core(b, out, r); if (!e.empty() && fam == "mono-shared") { ctx.Count("refused"); continue; } if (!e.empty()) { ctx.Fail("decode/" + fam, at + ": " + e); return; } }
    else { api::IamfDecoder::Settings set; set.requested_output_sample_type = api::OutputSampleType::kInt32LittleEndian; r = dec::Standalone(b, set, {}, dec::kDrainEach); if (!r.ok && fam == "mono-shared") { ctx.Count("refused"); continue; } if (!r.ok) { ctx.Fail("decode/" + fam, at + ": " + r.err); return; } if (r.layout != out) { ctx.Fail("layout", at + ": " + std::to_string(r.layout)); return; } }
    if (r.ch != st::OutCh(out)) { ctx.Fail("channels", at); return; }
    std::vector<size_t> want; for (size_t i = 0; i < x.tus.size(); ++i) if (x.tus[i].trim_start + x.tus[i].trim_end < x.n) want.push_back(i);
    size_t k = 0; for (auto& t : r.tus) { if (t.empty()) continue; if (k == want.size()) { ctx.Fail("units", at + ": too many"); return; }
      auto p = Render(x, out, want[k]); if (p.empty()) { ctx.Fail("harness", "no gains" + at); return; }
      auto e = dec::Compare(p, t, out, false, false, out == 100 ? 16384 : 4096); if (!e.empty()) { ctx.Fail("samples/" + fam + "/" + std::to_string(out), at + " unit " + std::to_string(want[k]) + ": " + e); return; } ctx.Validated(); ++k; ctx.Outcome(vh::Fnv(t.data(), t.size())); }
    if (k != want.size()) { ctx.Fail("units", at + ": " + std::to_string(k) + " of " + std::to_string(want.size())); return; }
    ctx.Count("rendered");
  }
  ctx.State(vh::Fnv(name));
}
Elem Ch(int layout) { Elem e; e.layers = {{layout}}; return e; }
Elem Ex(int x) { Elem e; e.exp = x; return e; }
Elem Mono(int order, std::vector<int> map) { Elem e; e.order = order; e.mapping = map; std::set<int> u(map.begin(), map.end()); u.erase(255); e.subs = u.size(); return e; }
Elem Proj(int order, int subs, int coupled, int pat) {
  Elem e; e.order = order; e.subs = subs; e.coupled = coupled; const int n = (order + 1) * (order + 1), c = subs + coupled;
  for (int j = 0; j < c; ++j) for (int i = 0; i < n; ++i) e.matrix.push_back(pat == 0 ? (i == j ? 32767 : 0) : pat == 1 ? (i == j ? -32768 : 0) : (int16_t)((j * 7919 + i * 104729 + 17) % 32768 - 16384));
  return e;
}
std::vector<int> Iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
std::string Str(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : ".") + (x == 255 ? std::string("x") : std::to_string(x)); return s; }
void Explore(Ctx& ctx) {
  std::vector<int> outs = Iota(15); 
  auto one = [&](const std::string& fam, const std::string& name, Elem e, bool core) {
    if (ctx.stop) return;
    Stream s; s.mix.es = {0}; s.elems = {e}; s.tus.assign(2, {}); Run(ctx, fam + "/" + name, s, outs, core);
    s.elems[0].gain = -700; s.mix.out = 300; s.n = 3; s.tus[0].trim_start = 2; s.tus[1].trim_end = 1; const size_t n = Substreams(e).size(); for (size_t i = 0; i < n; ++i) s.elems[0].sids.push_back(i % 2 ? 900 - i : 17 - i % 18); std::set<uint32_t> u(s.elems[0].sids.begin(), s.elems[0].sids.end()); if (u.size() != n) for (size_t i = 0; i < n; ++i) s.elems[0].sids[i] = 500 - i;
    Run(ctx, fam + "/" + name + "/trim", s, outs, core);
  };
  for (int l = 0; l < 9; ++l) { one("channel", Info(l).name, Ch(l), false); one("channel-core", Info(l).name, Ch(l), true); }
  for (int x = 0; x < 20; ++x) { if (x < 13) one("expanded", std::to_string(x), Ex(x), false); one("expanded-core", std::to_string(x), Ex(x), true); }
  // Ambisonics, one substream per channel: every mapping of order 1.
  for (int a = -1; a < 4; ++a) for (int b = -1; b < 4; ++b) for (int c = -1; c < 4; ++c) for (int d = -1; d < 4; ++d) {
    std::vector<int> m = {a, b, c, d}; std::set<int> u; for (int& x : m) { if (x < 0) x = 255; else u.insert(x); } if (u.empty() || *u.rbegin() + 1 != (int)u.size()) continue; int used = 0; for (int x : m) used += x != 255; one(used == (int)u.size() ? "mono" : "mono-shared", Str(m), Mono(1, m), false); }
  for (int o : {0, 2, 3, 4}) {
    const int n = (o + 1) * (o + 1); auto id = Iota(n), rev = id; std::reverse(rev.begin(), rev.end()); one("mono", Str(id), Mono(o, id), false); one("mono", Str(rev), Mono(o, rev), false);
    for (int r = 1; r < n; ++r) { auto rot = id; std::rotate(rot.begin(), rot.begin() + r, rot.end()); one("mono", Str(rot), Mono(o, rot), false); }
    for (int h = 0; h < n; ++h) { std::vector<int> x(n), y(n, 255), z = id; int k = 0; for (int i = 0; i < n; ++i) x[i] = i == h ? 255 : k++; y[h] = 0; for (int i = h; i < n; ++i) z[i] = 255; if (n > 1) one("mono", Str(x), Mono(o, x), false); one("mono", Str(y), Mono(o, y), false); if (h > 1) one("mono", Str(z), Mono(o, z), false); }
    if (n > 1) { std::vector<int> two(n); for (int i = 0; i < n; ++i) two[i] = i % 2; one("mono-shared", Str(two), Mono(o, two), false); }
  }
  // Projection: every number of substreams and of coupled ones.
  for (int o = 0; o < 5; ++o) {
    const int n = (o + 1) * (o + 1);
    for (int s = 1; s <= n; ++s) for (int c = 0; c <= s && s + c <= n; ++c) for (int pat = 0; pat < 3; ++pat) { one("projection", std::to_string(o) + "." + std::to_string(s) + "." + std::to_string(c) + "." + std::to_string(pat), Proj(o, s, c, pat), false); }
  }
  // On headphones, as stereo (mode 0) or through the binaural renderer (mode 1).
  for (int hrm = 0; hrm < 2; ++hrm) {
    auto bin = [&](const std::string& name, Elem e) {
      if (ctx.stop) return;
      e.hrm = hrm; const std::string n = (hrm ? "binaural/" : "headphones/") + name; Stream s; s.n = 32; s.mix.es = {0}; s.elems = {e}; s.tus.assign(2, {}); Run(ctx, n, s, {100}, false);
      s.elems[0].gain = -300; s.mix.out = 100; s.tus.assign(4, {}); s.tus[0].trim_start = 32; s.tus[1].trim_start = 5; s.tus[2].trim_start = 1; s.tus[2].trim_end = 30; s.tus[3].trim_end = 9; Run(ctx, n + "/trim", s, {100}, false);
      s.n = 45; s.tus.assign(2, {}); s.tus[1].trim_end = 44; Run(ctx, n + "/odd", s, {100, 0}, false);
    };
    for (int l = 0; l < 10; ++l) bin(Info(l).name, Ch(l));
    for (auto& l : Ladders(3)) { Elem e; for (int x : l) e.layers.push_back({x}); if (l.size() > 1) bin("scalable-" + e.Name(), e); }
    for (int o = hrm; o < 5; ++o) {
      const int n = (o + 1) * (o + 1); auto id = Iota(n), rev = id; std::reverse(rev.begin(), rev.end()); bin("mono" + Str(id), Mono(o, id)); bin("mono" + Str(rev), Mono(o, rev));
      for (int h = 0; h < n && n > 1; ++h) { std::vector<int> x(n), y(n, 255); int k = 0; for (int i = 0; i < n; ++i) x[i] = i == h ? 255 : k++; y[h] = 0; bin("mono" + Str(x), Mono(o, x)); bin("mono" + Str(y), Mono(o, y)); }
      for (int s = 1; s <= n; ++s) for (int c = 0; c <= s && s + c <= n; ++c) bin("projection" + std::to_string(o) + "." + std::to_string(s) + "." + std::to_string(c), Proj(o, s, c, 2));
    }
  }
  // Two or three elements of any kinds (the enhanced profile carries 28 channels).
  std::vector<Elem> kinds = {Ch(0), Ch(1), Ch(2), Ch(4), Ch(6), Ch(7), Ch(8), Ex(0), Ex(1), Ex(6), Ex(7), Ex(8), Ex(12), Mono(1, Iota(4)), Mono(2, {8, 7, 6, 5, 255, 3, 2, 1, 0, 4}), Mono(3, Iota(16)), Proj(1, 3, 1, 2), Proj(2, 5, 4, 2)};
  kinds[14] = Mono(2, {4, 7, 6, 5, 255, 3, 2, 1, 0});
  auto many = [&](const std::vector<size_t>& ix) {
    if (ctx.stop) return;
    Stream s; s.tus.assign(2, {}); s.tus[1].trim_end = 2; size_t ch = 0; std::string n; uint32_t sid = 3; int16_t g = -400;
    for (size_t i : ix) { Elem e = kinds[i]; e.id = 300 + s.elems.size(); e.sid = sid; e.gain = g; g += 350; size_t k = Substreams(e).size(); sid += k; for (auto& x : Substreams(e)) ch += x.size(); s.mix.es.push_back(s.elems.size()); s.elems.push_back(e); n += (n.empty() ? "" : "+") + e.Name(); }
    if (ch > 28) return; Run(ctx, "mixed/" + n, s, outs, false);
  };
  for (size_t a = 0; a < kinds.size(); ++a) for (size_t b = 0; b < kinds.size(); ++b) { many({a, b}); for (size_t c = 0; c < kinds.size(); ++c) { many({a, b, c}); if (ctx.thorough) for (size_t d = 0; d < kinds.size(); ++d) many({a, b, c, d}); } }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C14";
  s.rule = "each channel layout, expanded layout, ambisonics mapping (all 149 of order 1; identity, reversal, rotations, holes, prefixes of orders 0, 2, 3, 4) and projection split of orders 0 to 4 with three matrices each x 15 sound systems x {plain; gains, trimming and other substream ids}; all pairs and triples (thorough: quadruples) of 18 kinds of elements";
  s.assumptions = {"32-bit LPCM substreams", "gain matrices recorded in harness/gains_golden.inc", "binaural rendering is not compiled in"};
  s.min_cases = 500; return vh::Run(argc, argv, s, Explore);
}
