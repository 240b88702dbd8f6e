// C07: every history of public decoder calls, up to a depth, against a small
// model of the documented contract. The model is driven in lock step with the
// implementation: after every call all queries and outputs are compared.
#include "vh_main.h"
#include "dec.h"
using namespace dec;
using vh::Ctx;
namespace {
struct Target { std::string name; st::Stream s; Bytes desc; std::vector<Bytes> tus; };
Target Make(const std::string& name, st::Stream s) { Target t{name, s, st::Descriptors(s), {}}; for (size_t i = 0; i < s.tus.size(); ++i) t.tus.push_back(st::TuBytes(s, i)); return t; }
std::vector<Target> Targets() {
  std::vector<Target> v;
  { st::Stream s; s.n = 3; s.primary = 1; s.elems = {{300, st::kStereo, 0, {}}, {301, st::kMono, 7, {}}, {302, st::k71, 40, {}}};
    s.mixes = {st::Simple(42, {300}), st::Simple(43, {301, 300}, {0, 12}), st::Simple(44, {302}, {0, 8, 1})};
    s.mixes[1].es[0].g.id = 911; s.mixes[1].es[1].g.id = 912; s.mixes[1].out = {913, -100}; s.mixes[2].es[0].g.id = 914; s.mixes[2].out = {915, -300};
    s.tus.resize(4); s.tus[0].trim_start = 1; s.tus[3].trim_end = 1; v.push_back(Make("mixes", s)); }
  for (auto& r : st::Recipes()) if (r.name == "gains" || r.name == "fulltrim" || r.name == "nodelim" || r.name == "51+foa") v.push_back(Make(r.name, r.s));
  return v;
}
struct Sel { int layout = -1; int64_t mix = -1; };
bool g_android = false;  // channel ordering of every decoder of the current case; its first ResetWithNewMix goes to binaural
// What the stream must give for a request (see the selection rules of C12 for the
// general case; these streams only exercise the plain ones).
Sel Select(const st::Stream& s, const Sel& q) {
  const st::Mix* m = nullptr;
  if (q.mix >= 0) for (auto& x : s.mixes) if (x.id == q.mix) m = &x;
  auto has = [](const st::Mix& x, int l) { for (int y : x.layouts) if (y == l) return true; return false; };
  if (!m && q.layout >= 0) {
    if (q.layout == 0) { for (auto& x : s.mixes) { int st_layouts = 0; for (int l : x.layouts) st_layouts += l == 0; bool one = x.layouts.size() == 1 && st_layouts; int stereo = 0; for (auto& me : x.es) for (auto& e : s.elems) if (e.id == me.id) stereo += e.kind == st::kStereo; if (!m && one && x.es.size() == 1 && stereo == 1) m = &x; } }
    if (!m) for (auto& x : s.mixes) if (!m && has(x, q.layout)) m = &x;
  }
  if (!m) m = &s.mixes[0];
  return {q.layout >= 0 ? q.layout : m->layouts[0], (int64_t)m->id};
}
const st::Mix& MixOf(const st::Stream& s, int64_t id) { for (auto& m : s.mixes) if (m.id == id) return m; return s.mixes[0]; }
enum Act { kUnit, kTwo, kEmpty, kGet, kGetSmall, kSignal, kReset, kMixA, kMixB, kGarbage, kMove, kHalf, kDesc, kNumAct };
const char* kNames = "utegsERabxmhd";
struct Model {
  const Target& t; bool container, is16; Sel want, sel;
  bool desc = false, eos = false, tainted = false;
  size_t next = 0;            // next unit to feed
  bool half = false;          // first half of unit `next` already fed
  bool desc_fed = false;
  std::vector<size_t> buffered; size_t after = 0;  // whole units in the buffer; bytes of a following unit present?
  bool ready = false; size_t ready_unit = 0;
  Model(const Target& t, bool c, bool is16, Sel q) : t(t), container(c), is16(is16), want(q) { if (c) { desc = desc_fed = true; sel = Select(t.s, q); } }
  // The decoder moves on to the next unit if it can tell that it is complete.
  // With part of a later unit received it may or may not be able to.
  void Pull(const api::IamfDecoder& d) { if (ready || buffered.empty()) return; if (container || eos || buffered.size() > 1 || (half && d.IsTemporalUnitAvailable())) { ready = true; ready_unit = buffered[0]; buffered.erase(buffered.begin()); } }
};
struct St { bool good = true; std::string msg; St() {} St(const api::IamfStatus& s) : good(s.ok()), msg(s.error_message) {} bool ok() const { return good; } };
api::IamfDecoder::Settings MakeSettings(const Sel& q, bool is16) {
  api::IamfDecoder::Settings x; if (q.layout >= 0) x.requested_mix.output_layout = ApiLayout(q.layout); if (q.mix >= 0) x.requested_mix.mix_presentation_id = (uint32_t)q.mix;
  x.requested_output_sample_type = is16 ? api::OutputSampleType::kInt16LittleEndian : api::OutputSampleType::kInt32LittleEndian; if (g_android) x.channel_ordering = api::ChannelOrdering::kOrderingForAndroid; return x;
}
api::RequestedMix Req(const Sel& q) { api::RequestedMix r; if (q.layout >= 0) r.output_layout = ApiLayout(q.layout); if (q.mix >= 0) r.mix_presentation_id = (uint32_t)q.mix; return r; }
// Reference PCM of a unit, or an empty vector.
std::string CheckPcm(const Model& m, const Bytes& got) {
  static std::map<std::tuple<const void*, int64_t, int, size_t>, st::Pcm> cache;
  auto [it, fresh] = cache.try_emplace({&m.t, m.sel.mix, m.sel.layout, m.ready_unit});
  if (fresh) it->second = st::Render(m.t.s, MixOf(m.t.s, m.sel.mix), m.sel.layout, m.ready_unit);
  const st::Pcm& want = it->second;
  const auto& u = m.t.s.tus[m.ready_unit];
  if (u.trim_start + u.trim_end >= m.t.s.n) return got.empty() ? "" : "bytes from a fully trimmed unit";
  return Compare(want, got, m.sel.layout, m.is16, g_android, 4096);
}
std::string Queries(api::IamfDecoder& d, const Model& m) {
  if (m.tainted) {  // only safety
    d.IsTemporalUnitAvailable(); api::SelectedMix x; int c; uint32_t r; d.GetOutputMix(x); d.GetNumberOfOutputChannels(c); d.GetSampleRate(r); d.GetFrameSize(r); return "";
  }
  if (d.IsDescriptorProcessingComplete() != m.desc) return "descriptor completion";
  if (d.IsTemporalUnitAvailable() != m.ready) return m.ready ? "no unit available" : "a unit is available";
  api::SelectedMix x; int c = -7; uint32_t r = 4321, f = 4321;
  auto a = d.GetOutputMix(x), b = d.GetNumberOfOutputChannels(c), e = d.GetSampleRate(r), g = d.GetFrameSize(f);
  if (a.ok() != m.desc || b.ok() != m.desc || e.ok() != m.desc || g.ok() != m.desc) return "query status";
  if (d.GetOutputSampleType() != (m.is16 ? api::OutputSampleType::kInt16LittleEndian : api::OutputSampleType::kInt32LittleEndian)) return "sample type";
  if (!m.desc) return "";
  if (Layout(x.output_layout) != m.sel.layout || x.mix_presentation_id != m.sel.mix) return "selected mix " + std::to_string(x.mix_presentation_id) + "/" + std::to_string(Layout(x.output_layout)) + " want " + std::to_string(m.sel.mix) + "/" + std::to_string(m.sel.layout);
  if (c != st::OutCh(m.sel.layout) || r != m.t.s.rate || f != m.t.s.n) return "channels/rate/frame size";
  return "";
}
// Applies one action to both; returns a discrepancy. `skip` = not applicable.
std::string Apply(Act a, std::unique_ptr<api::IamfDecoder>& d, Model& m, bool& skip, Ctx& ctx) {
  skip = false; const Target& t = m.t; static Bytes out(1 << 16);
  auto feed = [&](const Bytes& b, size_t whole_units, bool part) -> std::string {
    Bytes copy = b;  // exact-size allocation: reads past it are caught
    St s = d->Decode(copy.data(), copy.size());
    if (m.eos) { if (s.ok()) return "Decode accepted after the end was signalled"; return ""; }
    std::fill(copy.begin(), copy.end(), 0xA5);  // the decoder must have kept its own copy
    if (m.tainted) return "";
    if (!s.ok()) return std::string("Decode: ") + s.msg;
    const bool before = m.desc;
    for (size_t i = 0; i < whole_units; ++i) m.buffered.push_back(m.next++);
    m.half = part;
    if (!m.container && !m.desc && m.desc_fed && (!m.buffered.empty() || part)) { m.desc = true; m.sel = Select(t.s, m.want); }
    if (before) m.Pull(*d);
    return "";
  };
  switch (a) {
    case kDesc: if (m.desc_fed || m.container) { skip = true; return ""; } { bool e = m.eos; if (!e) m.desc_fed = true; return feed(t.desc, 0, false); }
    case kUnit: case kTwo: {
      size_t n = a == kTwo ? 2 : 1; if (!m.desc_fed || (m.next + n > t.tus.size()) || (m.half && m.container)) { skip = true; return ""; }
      Bytes b; for (size_t i = 0; i < n; ++i) { auto& u = t.tus[m.next + i]; b.insert(b.end(), u.begin() + (i == 0 && m.half ? u.size() / 2 : 0), u.end()); }
      return feed(b, n, false);
    }
    case kHalf: {
      if (m.container || !m.desc_fed || m.half || m.next >= t.tus.size()) { skip = true; return ""; }
      auto& u = t.tus[m.next]; return feed(Bytes(u.begin(), u.begin() + u.size() / 2), 0, true);
    }
    case kEmpty: { const bool half = m.half; return feed({}, 0, half); }
    case kGarbage: {  // an OBU that must be rejected: a temporal delimiter header cut by a wrong size? use a non-redundant, broken codec config
      if (!m.container || m.eos) { skip = true; return ""; }
      Bytes b = {0xf8, 0x06, 1, 2, 3, 4, 0, 0}; d->Decode(b.data(), b.size()); m.tainted = true; return "";
    }
    case kGet: {
      size_t w = 999999; St s = d->GetOutputTemporalUnit(out.data(), out.size(), w);
      if (m.tainted) return w > out.size() ? "tainted size" : "";
      if (!s.ok()) return std::string("Get: ") + s.msg;
      if (!m.ready) return w == 0 ? "" : "bytes without a unit";
      auto e = CheckPcm(m, Bytes(out.begin(), out.begin() + w)); if (!e.empty()) return "unit " + std::to_string(m.ready_unit) + ": " + e;
      ctx.Validated(); m.ready = false; m.Pull(*d); return "";
    }
    case kGetSmall: {
      const auto& u = t.s.tus[m.ready_unit]; const bool empty = u.trim_start + u.trim_end >= t.s.n;
      if (m.ready && empty) { skip = true; return ""; }
      const size_t need = m.ready ? (t.s.n - u.trim_start - u.trim_end) * st::OutCh(m.sel.layout) * (m.is16 ? 2 : 4) : 1;
      size_t w = 999999; Bytes small(need - 1, 0x5c); St s = d->GetOutputTemporalUnit(small.data(), small.size(), w);
      if (m.tainted) return "";
      if (w != 0) return "bytes reported for a refused buffer";
      if (s.ok() != !m.ready) return m.ready ? "too small a buffer accepted" : "Get without a unit refused";
      for (auto x : small) if (x != 0x5c) return "a refused buffer was written";
      return "";
    }
    case kSignal: { if (!m.container && m.half) { skip = true; return ""; } St s = d->SignalEndOfDecoding(); if (m.tainted) { m.eos = true; return ""; } if (!s.ok()) return std::string("Signal: ") + s.msg; m.eos = true; if (!m.container && m.desc) m.Pull(*d); return ""; }
    case kReset: case kMixA: case kMixB: {
      Sel q = m.want; api::SelectedMix got{}; St s;
      if (a == kReset) s = d->Reset();
      else { q = a == kMixA ? Sel{g_android ? 100 : 1, -1} : Sel{-1, (int64_t)t.s.mixes.back().id}; s = d->ResetWithNewMix(Req(q), got); }
      if (!m.container) return s.ok() ? "reset accepted in standalone mode" : "";
      if (!s.ok()) return std::string("Reset: ") + s.msg;
      m.want = q; m.sel = Select(t.s, q);
      if (a != kReset && (Layout(got.output_layout) != m.sel.layout || got.mix_presentation_id != m.sel.mix)) return "ResetWithNewMix reports the wrong mix";
      m.tainted = m.eos = m.ready = m.half = false; m.buffered.clear();
      m.next = m.next % 3 == 1 ? 1 : 0;  // "seek": to unit 1 or to the start
      return "";
    }
    case kMove: { auto n = std::make_unique<api::IamfDecoder>(std::move(*d)); d = std::move(n); return ""; }
    default: return "";
  }
}
struct Config { size_t target; bool container, is16; Sel q; bool android = false; };
std::string Str(const std::vector<int>& seq) { std::string s; for (int a : seq) s += kNames[a]; return s; }
std::string Key(const Model& m) { std::string k = std::to_string(m.desc) + std::to_string(m.desc_fed) + std::to_string(m.eos) + std::to_string(m.tainted) + std::to_string(m.half) + ":" + std::to_string(m.next) + ":" + std::to_string(m.ready) + std::to_string(m.ready ? m.ready_unit : 0) + ":" + std::to_string(m.sel.layout) + "," + std::to_string(m.sel.mix) + "," + std::to_string(m.want.layout) + "," + std::to_string(m.want.mix) + ":"; for (auto b : m.buffered) k += std::to_string(b); return k; }
// Runs one history. Returns false if its last action was not applicable.
bool RunSeq(Ctx& ctx, const Target& t, const Config& c, const std::vector<int>& seq, bool& bad, std::string* key) {
  std::unique_ptr<api::IamfDecoder> d; auto set = MakeSettings(c.q, c.is16); bad = false;
  St s; Bytes desc = t.desc;
  if (c.container) { s = api::IamfDecoder::CreateFromDescriptors(set, desc.data(), desc.size(), d); std::fill(desc.begin(), desc.end(), 0); } else s = api::IamfDecoder::Create(set, d);
  if (!s.ok() || !d) { bad = true; ctx.Fail("create", s.msg); return true; }
  Model m(t, c.container, c.is16, c.q); bool skip = false;
  auto fail = [&](size_t i, const std::string& e) { bad = true; ctx.Fail("history", Str(seq) + " at call " + std::to_string(i) + ": " + e); return true; };
  auto e = Queries(*d, m); if (!e.empty()) return fail(0, e);
  for (size_t i = 0; i < seq.size(); ++i) {
    e = Apply((Act)seq[i], d, m, skip, ctx); if (skip) return false;
    ctx.Transitions(1);
    if (e.empty()) e = Queries(*d, m);
    if (!e.empty()) return fail(i + 1, e);
  }
  // Whatever happened, the rest of the stream drains as the model says.
  if (key) *key = Key(m);
  ctx.State(vh::Fnv(Key(m))); ctx.Outcome(vh::Fnv(Key(m)));
  if (!m.tainted) {
    for (int a : {kUnit, kSignal, kGet, kGet, kGet, kGet, kGet}) { if (a == kUnit && !m.half) continue; e = Apply((Act)a, d, m, skip, ctx); if (e.empty()) e = Queries(*d, m); if (!e.empty()) return fail(seq.size() + 1, std::string("epilogue ") + kNames[a] + ": " + e); }
    if (m.ready) return fail(seq.size() + 1, "model not drained");
  }
  return true;
}
void Dfs(Ctx& ctx, const Target& t, const Config& c, std::vector<int>& seq, size_t depth) {
  for (int a = 0; a < kNumAct && !ctx.failed_in_case; ++a) {
    // Calls that cannot change anything are not repeated back to back.
    if (!seq.empty() && seq.back() == a && (a == kGetSmall || a == kMove)) continue;
    seq.push_back(a); bool bad; bool ok = RunSeq(ctx, t, c, seq, bad, nullptr);
    if (ok && !bad && seq.size() < depth) Dfs(ctx, t, c, seq, depth);
    seq.pop_back();
  }
}
void Body(Ctx& ctx) {
  auto targets = Targets(); std::vector<Config> cs;
  for (size_t t = 0; t < targets.size(); ++t) for (int container : {1, 0}) for (int v = 0; v < (t == 0 ? 3 + container : 1); ++v) cs.push_back({t, container != 0, v == 1, v == 1 || v == 3 ? Sel{8, -1} : v == 2 ? Sel{0, 43} : Sel{}, v == 3});
  for (auto& c : cs) {
    const Target& t = targets[c.target]; const size_t depth = 4 + (ctx.thorough ? (c.target == 0 ? 2 : 1) : 0);
    g_android = c.android;
    const std::string pre = t.name + (c.android ? ":android" : "") + (c.container ? ":container" : ":standalone") + ":" + std::to_string(c.q.layout) + "," + std::to_string(c.q.mix) + ":";
    // Every history up to `depth`, one case per two-call prefix.
    for (int a = 0; a < kNumAct; ++a) for (int b = 0; b < kNumAct; ++b) for (int e = 0; e < kNumAct; ++e) {
      if (!ctx.Mine(pre + "dfs:" + kNames[a] + kNames[b] + kNames[e])) continue;
      std::vector<int> seq; bool bad = false, ok = true;
      for (int x : {a, b, e}) { seq.push_back(x); if (!(ok = RunSeq(ctx, t, c, seq, bad, nullptr)) || bad) break; }
      if (ok && !bad) Dfs(ctx, t, c, seq, depth);
    }
    // Breadth first over the model's states: the shortest history to every
    // reachable model state, extended by every two calls.
    std::map<std::string, std::vector<int>> seen; std::vector<std::vector<int>> frontier = {{}}; seen[""] = {};
    if (!ctx.Mine(pre + "bfs")) continue;
    const size_t limit = ctx.thorough ? 3000 : 60;
    for (size_t i = 0; i < frontier.size() && i < limit && !ctx.failed_in_case; ++i) {
      for (int a = 0; a < kNumAct; ++a) { auto q = frontier[i]; q.push_back(a); std::string key; bool bad; if (!RunSeq(ctx, t, c, q, bad, &key) || bad) continue; if (seen.emplace(key, q).second) frontier.push_back(q); }
      if (frontier[i].size() + 2 > depth) { auto q = frontier[i]; Dfs(ctx, t, c, q, frontier[i].size() + 2); }
    }
    ctx.Count("model states reached breadth first", std::min(frontier.size(), limit)); if (frontier.size() > limit) ctx.Count("model states beyond the limit", frontier.size() - limit);
  }
  g_android = false;
  // Two decoders: every interleaving of their calls; neither notices the other.
  for (size_t i = 0; i < targets.size(); ++i) for (size_t j = 0; j < targets.size(); ++j) for (int modes = 0; modes < 4; ++modes) {
    const std::vector<int> script = {kUnit, kGet, kUnit, kSignal, kGet}, script2 = {kDesc, kUnit, kTwo, kGet, kSignal};
    if (!ctx.Mine("pair:" + targets[i].name + ":" + targets[j].name + ":" + std::to_string(modes))) continue;
    for (int mask = 0; mask < 1 << 10 && !ctx.failed_in_case; ++mask) {
      if (__builtin_popcount(mask) != 5) continue;
      const Target* t[2] = {&targets[i], &targets[j]}; std::unique_ptr<api::IamfDecoder> d[2]; std::vector<Model> m; size_t at[2] = {0, 0};
      for (int k = 0; k < 2; ++k) { const bool cont = modes >> k & 1; Sel q = k ? Sel{1, -1} : Sel{}; m.emplace_back(*t[k], cont, k == 1, q); Bytes desc = t[k]->desc; St s = cont ? St(api::IamfDecoder::CreateFromDescriptors(MakeSettings(q, k == 1), desc.data(), desc.size(), d[k])) : St(api::IamfDecoder::Create(MakeSettings(q, k == 1), d[k])); if (!s.ok()) ctx.Fail("create", s.msg); }
      for (int x = 0; x < 10 && !ctx.failed_in_case; ++x) { int k = mask >> x & 1; bool skip; const int a = (m[k].container ? script : script2)[at[k]++]; auto e = Apply((Act)a, d[k], m[k], skip, ctx); for (int q = 0; q < 2 && e.empty(); ++q) e = Queries(*d[q], m[q]); ctx.Transitions(1); if (!e.empty()) ctx.Fail("two-decoders", "mask " + std::to_string(mask) + " call " + std::to_string(x) + ": " + e); }
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C07"; sp.min_cases = 1000; sp.min_outcomes = 50; sp.case_timeout_s = 120;
  sp.rule = "every sequence of public decoder calls (feed one unit / two units / half a unit / nothing / descriptors / garbage, get with a sufficient and an insufficient buffer, signal the end, Reset, ResetWithNewMix to two other mixes, move) up to depth 5 (6 thorough) on five streams (one also with Android channel ordering) in standalone and from-descriptors mode, all queries compared with a model of the contract after every call, and the remaining output drained and compared with the reference renderer at the end of every history; plus breadth-first exploration of the model's state space, each state extended by every pair of calls; plus every interleaving of two five-call histories of two decoders over every pair of streams and modes";
  sp.assumptions = {"LPCM streams", "the model is the documented contract of iamf_decoder_interface.h"};
  return vh::Run(argc, argv, sp, Body);
}
