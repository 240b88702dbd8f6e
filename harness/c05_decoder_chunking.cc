// C05: what the decoder outputs is a function of the bitstream and the settings:
// it equals the reference rendering, for every way of cutting the stream into
// Decode() calls and every way of draining the output.
#include "vh_main.h"
#include <functional>
#include <set>
#include "dec.h"
#include "streams_extra.h"
using namespace dec;
using vh::Ctx;
namespace {
struct Set { api::IamfDecoder::Settings s; std::string name; bool is16, android, tb, te; int layout; int64_t mix; };
Set MakeSet(int layout, bool is16, bool android, bool tb, bool te, int64_t mix) {
  Set x{{}, "", is16, android, tb, te, layout, mix};
  if (layout >= 0) x.s.requested_mix.output_layout = ApiLayout(layout);
  if (mix >= 0) x.s.requested_mix.mix_presentation_id = (uint32_t)mix;
  x.s.requested_output_sample_type = is16 ? api::OutputSampleType::kInt16LittleEndian : api::OutputSampleType::kInt32LittleEndian;
  x.s.channel_ordering = android ? api::ChannelOrdering::kOrderingForAndroid : api::ChannelOrdering::kIamfOrdering;
  x.s.trimming_settings = {tb, te};
  x.name = "layout" + std::to_string(layout) + (is16 ? ",i16" : ",i32") + (android ? ",android" : "") + (tb ? "" : ",notrimb") + (te ? "" : ",notrime") + (mix >= 0 ? ",mix" + std::to_string(mix) : "");
  return x;
}
// Checks one result against the reference renderer.
void Judge(Ctx& ctx, const st::Recipe& rc, const Set& set, const Result& r) {
  const st::Stream& s = rc.s;
  if (!r.desc_done && r.ok) return ctx.Fail("no-descriptors", r.Str());
  if (!r.desc_done) { ctx.Count("refused"); return; }
  if (!r.mix_ok) return ctx.Fail("no-mix", r.Str());
  const st::Mix* m = nullptr; for (auto& x : s.mixes) if (x.id == r.mix) m = &x;
  if (!m) return ctx.Fail("mix-id", r.Str());
  if (set.mix >= 0) for (auto& x : s.mixes) if (x.id == set.mix && r.mix != x.id) return ctx.Fail("mix-not-honoured", r.Str());
  if (set.layout >= 0 && r.layout != set.layout) return ctx.Fail("layout-not-honoured", r.Str());
  if (r.ch != st::OutCh(r.layout) || r.rate != s.rate || r.frame != s.n) return ctx.Fail("info", r.Str());
  // There is no way to render a binaural element to loudspeakers: no output.
  for (auto& me : m->es) for (auto& e : s.elems) if (e.id == me.id && e.kind == st::kBinaural && r.layout != 0 && r.layout != 100) { if (r.ok || !r.tus.empty()) ctx.Fail("unsupported-rendered", r.Str()); ctx.Count("unsupported"); return; }
  if (!r.ok) return ctx.Fail("valid-stream-refused", r.Str());
  if (r.tus.size() != s.tus.size()) return ctx.Fail("unit-count", r.Str());
  bool unity = true; for (auto& e : m->es) unity &= e.g.def == 0; unity &= m->out.def == 0; for (auto& t : s.tus) unity &= t.blocks.empty();
  for (size_t i = 0; i < s.tus.size(); ++i) {
    auto want = st::Render(s, *m, r.layout, i, set.tb, set.te);
    if (want.empty() && !(set.tb && set.te && s.tus[i].trim_start + s.tus[i].trim_end >= s.n)) { if (!r.tus[i].empty()) { bool full = s.tus[i].trim_start * set.tb + s.tus[i].trim_end * set.te >= s.n; if (!full) ctx.Count("no reference matrix"); } continue; }
    auto e = Compare(want, r.tus[i], r.layout, set.is16, set.android, unity ? 64 : 4096);
    if (!e.empty()) return ctx.Fail("pcm", "unit " + std::to_string(i) + ": " + e + " " + r.Str());
    ctx.Validated(); ctx.Transitions(1);
  }
}
std::vector<size_t> Ends(const Bytes& b) {  // OBU boundaries
  std::vector<size_t> v; size_t at = 0;
  while (at < b.size()) { size_t p = at + 1, n = 0; int sh = 0; do { n |= (size_t)(b[p] & 127) << sh; sh += 7; } while (b[p++] & 128); at = p + n; v.push_back(at); }
  return v;
}
void Chunks(Ctx& ctx, const std::string& name, const Bytes& all, const Bytes& desc, const std::vector<Bytes>& tus, const std::vector<Set>& sets, bool pairs) {
    for (auto& set : sets) {
      Result base; bool have = false;
      auto baseline = [&]() -> const Result& { if (!have) { base = Standalone(all, set.s, {desc.size()}, kDrainEach); have = true; } return base; };
      auto check = [&](const std::vector<size_t>& cuts, Drain p) {
        auto r = Standalone(all, set.s, cuts, p); ctx.Transitions(cuts.size() + 1);
        const Result& b = baseline();
        if (!(r == b)) { std::string c; for (auto x : cuts) c += std::to_string(x) + ","; ctx.Fail("chunking-changes-output", "cuts " + c + " drain " + std::to_string(p) + ": " + r.Str() + " vs " + b.Str()); return false; }
        ctx.State(vh::Fnv(cuts.data(), cuts.size() * 8, p * 31 + b.Hash())); return true;
      };
      const std::string pre = "cut:" + name + ":" + set.name + ":";
      for (int p = 0; p < kNumDrain; ++p) {
        for (size_t block : {1, 2, 3, 5, 7, 16, 64}) { if (!ctx.Mine(pre + "blocks" + std::to_string(block) + ":" + std::to_string(p))) continue; std::vector<size_t> cuts; for (size_t i = block; i < all.size(); i += block) cuts.push_back(i); check(cuts, (Drain)p); }
        // Every single cut, then every pair from a set of positions.
        for (size_t i = 0; i <= all.size(); ++i) { if (!ctx.Mine(pre + "1:" + std::to_string(i) + ":" + std::to_string(p))) continue; check({i}, (Drain)p); }
        auto ends = Ends(all); std::vector<size_t> pos; for (size_t e : ends) for (int d : {-1, 0, 1, 2}) if ((int64_t)e + d <= (int64_t)all.size()) pos.push_back(e + d);
        if (ctx.thorough && all.size() < 600) { pos.clear(); for (size_t i = 0; i <= all.size(); ++i) pos.push_back(i); }
        std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
        if ((!ctx.thorough && p != 0 && p != 2) || !pairs) continue;
        for (size_t i = 0; i < pos.size(); ++i) { if (!ctx.Mine(pre + "2:" + std::to_string(pos[i]) + ":" + std::to_string(p))) continue; for (size_t j = i; j < pos.size(); ++j) if (!check({pos[i], pos[j]}, (Drain)p)) break; }
      }
      // Container mode: every grouping of the units into consecutive calls.
      for (int p = 0; p < kNumDrain; ++p) for (int mask = 0; mask < 1 << (tus.size() - 1); ++mask) {
        if (!ctx.Mine(pre + "group" + std::to_string(mask) + ":" + std::to_string(p))) continue;
        std::vector<Bytes> g = {tus[0]}; for (size_t i = 1; i < tus.size(); ++i) if (mask >> (i - 1) & 1) g.push_back(tus[i]); else g.back().insert(g.back().end(), tus[i].begin(), tus[i].end());
        auto r = Container(desc, g, set.s, (Drain)p); ctx.Transitions(g.size());
        if (!(r == baseline())) ctx.Fail("grouping-changes-output", r.Str() + " vs " + base.Str());
      }
    }
}
// OBUs which say nothing about the selected mix: reserved types, metadata,
// redundant copies, and things that refer to what this stream does not have.
struct Stray { std::string name; Bytes b; int where; Bytes frame; };  // 1 descriptors, 2 temporal units, 3 both
std::vector<Stray> Strays(const st::Stream& s) {
  std::vector<Stray> v; Bytes big(200, 0x5a), ext = {1, 2, 3};
  for (int t = 25; t <= 30; ++t) v.push_back({"reserved" + std::to_string(t), st::Obu(t, t == 25 ? Bytes{} : t == 26 ? big : Bytes{1, 2, (uint8_t)t}), 3});
  v.push_back({"reserved-ext", st::Obu(28, {0xff, 0x80}, false, false, &ext), 3});
  v.push_back({"reserved-redundant", st::Obu(29, {0x0a}, true), 3});
  v.push_back({"reserved-longsize", st::Obu(30, {9, 9}, false, false, nullptr, 0, 0, 7), 3});
  v.push_back({"metadata-t35", st::Obu(24, {1, 0xb5, 9, 9}), 3});
  v.push_back({"metadata-unknown", st::Obu(24, {77, 1, 2, 3}), 3});
  v.push_back({"metadata-empty", st::Obu(24, {}), 3});
  v.push_back({"red-header", st::SequenceHeader(s, true), 2}); v.push_back({"red-config", st::CodecConfig(s, true), 2});
  v.push_back({"red-element", st::ElementObu(s.elems[0], true), 2}); v.push_back({"red-mix", st::MixObu(s, s.mixes[0], true), 2});
  { gram::Bits b; b.leb(4321); b.put(32, 0x7a7a7a7a); b.leb(s.n); b.put(16, 0); b.put(32, 0); v.push_back({"config-unknown-codec", st::Obu(0, b.b), 1}); }
  { gram::Bits b; b.leb(4322); b.put(32, 0x6970636d); b.leb(s.n); b.put(16, 0); b.put(8, 1); v.push_back({"config-short", st::Obu(0, b.b), 1}); }
  // Audio elements this decoder cannot use, with their frames in every unit.
  auto elem = [&](const std::string& n, int type, const std::function<void(gram::Bits&)>& config) {
    gram::Bits b, f; b.leb(7001); b.put(3, type); b.put(5, 0); b.leb(200); b.leb(1); b.leb(7777); b.leb(0); config(b);
    f.leb(7777); for (int i = 0; i < (int)s.n * s.bits / 8; ++i) f.put(8, i); v.push_back({n, st::Obu(1, b.b), 1, st::Obu(5, f.b)});
  };
  elem("element-reserved-type", 5, [](gram::Bits& b) { b.leb(2); b.put(16, 0); });
  for (int l : {10, 11, 14}) elem("element-reserved-layout" + std::to_string(l), 0, [&](gram::Bits& b) { b.put(3, 1); b.put(5, 0); b.put(4, l); b.put(4, 0); b.put(8, 1); b.put(8, 0); });
  elem("element-reserved-expanded", 0, [](gram::Bits& b) { b.put(3, 1); b.put(5, 0); b.put(4, 15); b.put(4, 0); b.put(8, 1); b.put(8, 0); b.put(8, 200); });
  elem("element-no-layers", 0, [](gram::Bits& b) { b.put(8, 0); });
  elem("element-reserved-ambisonics", 1, [](gram::Bits& b) { b.leb(2); b.put(16, 0x0401); });
  elem("element-unmapped-ambisonics", 1, [](gram::Bits& b) { b.leb(0); b.put(8, 1); b.put(8, 1); b.put(8, 255); });
  for (int n : {1, 2}) elem("element-object" + std::to_string(n), 2, [&](gram::Bits& b) { b.put(8, n); b.leb(0); });
  elem("element-unused", 0, [](gram::Bits& b) { b.put(3, 1); b.put(5, 0); b.put(4, 0); b.put(4, 0); b.put(8, 1); b.put(8, 0); });
  { gram::Bits b; b.leb(7002); b.put(8, 0); b.leb(9999); b.leb(1); b.leb(7778); b.leb(0); b.put(8, 0x20); b.put(8, 0x10); b.put(8, 1); b.put(8, 1); v.push_back({"element-unknown-config", st::Obu(1, b.b), 1}); }
  { st::Mix m = st::Simple(8001, {9998}); v.push_back({"mix-unknown-element", st::MixObu(s, m), 1}); }
  { st::Mix m = st::Simple(8002, {s.elems[0].id}); Bytes o = st::MixObu(s, m); Bytes pay(o.begin() + 2, o.end() - 3); v.push_back({"mix-cut", st::Obu(2, pay), 1}); }
  { gram::Bits b; b.leb(6001); b.put(8, 0); b.put(16, 5); v.push_back({"block-unknown", st::Obu(3, b.b), 2}); }
  v.push_back({"block-empty", st::Obu(3, {}), 2});
  { gram::Bits b; b.leb(7779); for (int i = 0; i < 40; ++i) b.put(8, i); v.push_back({"frame-unknown", st::Obu(5, b.b), 2}); v.push_back({"frame-unknown-trim", st::Obu(5, b.b, false, true, nullptr, 1, 1), 2}); }
  { std::set<uint32_t> used; for (auto& e : s.elems) for (int k = 0; k < 32; ++k) used.insert(e.sids.empty() ? e.sid + k : e.sids[std::min<size_t>(k, e.sids.size() - 1)]); for (int k = 17; k >= 0; --k) if (!used.count(k)) { v.push_back({"frame-implicit", st::Obu(6 + k, Bytes(40, 1)), 2}); break; } }
  return v;
}
void Body(Ctx& ctx) {
  auto recipes = st::Recipes();
  // Part 0: every stray OBU at every OBU boundary changes nothing.
  for (auto& rc : recipes) {
    const st::Stream& s = rc.s; if (s.elems.size() > 2) continue;
    const Bytes desc = st::Descriptors(s), all = st::All(s);
    auto ends = Ends(all); Result base; bool have = false; Set set = MakeSet(-1, false, false, true, true, -1);
    for (auto& x : Strays(s)) for (size_t i = 0; i < ends.size(); ++i) {
      const size_t at = ends[i]; if (!(x.where & 1) && at < desc.size()) continue; if (!(x.where & 2) && at > desc.size()) continue;
      // The redundant copies of a whole header before the first unit would be descriptors.
      if (!(x.where & 1) && at == desc.size()) continue;
      if (!ctx.Mine("stray:" + rc.name + ":" + x.name + ":" + std::to_string(i))) continue;
      if (!have) { base = Standalone(all, set.s, {desc.size()}, kDrainEach); have = true; }
      Bytes b(all.begin(), all.begin() + at); b.insert(b.end(), x.b.begin(), x.b.end());
      if (x.frame.empty()) b.insert(b.end(), all.begin() + at, all.end());
      else { b.insert(b.end(), desc.begin() + at, desc.end()); for (size_t k = 0; k < s.tus.size(); ++k) { auto u = st::TuBytes(s, k); if (u.empty()) continue; b.insert(b.end(), u.begin(), u.end()); b.insert(b.end(), x.frame.begin(), x.frame.end()); } }
      const size_t dsz = at <= desc.size() ? desc.size() + x.b.size() : desc.size();
      std::vector<std::vector<size_t>> cuts = {{dsz}, {}, {at, at + x.b.size()}, {at + 1}, {at + x.b.size() - 1}}; std::vector<size_t> bytes; for (size_t k = 1; k < b.size(); ++k) bytes.push_back(k); cuts.push_back(bytes);
      for (auto& c : cuts) { auto r = Standalone(b, set.s, c, kDrainEach); ctx.Transitions(1); if (!(r == base)) { ctx.Fail("stray-obu-changes-output", "cut into " + std::to_string(c.size()) + ": " + r.Str() + " vs " + base.Str()); break; } }
      ctx.State(vh::Fnv(b.data(), b.size(), 0)); ctx.Validated();
    }
  }
  for (auto& rc : recipes) {
    const st::Stream& s = rc.s;
    std::vector<int64_t> mixes = {-1, 4242}; for (auto& m : s.mixes) mixes.push_back(m.id);
    const Bytes desc = st::Descriptors(s); std::vector<Bytes> tus; for (size_t i = 0; i < s.tus.size(); ++i) tus.push_back(st::TuBytes(s, i));
    const Bytes all = st::All(s);
    // Part 1: settings x reference, in three feeding modes.
    for (int layout : {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 100}) for (int is16 : {0, 1}) for (int android : {0, 1}) for (int trims : {3, 0, 1, 2}) for (int64_t mix : mixes) {
      Set set = MakeSet(layout, is16, android, trims & 1, trims & 2, mix);
      if (!ctx.Mine("ref:" + rc.name + ":" + set.name)) continue;
      auto a = Standalone(all, set.s, {desc.size()}, kDrainEach);
      ctx.Outcome(a.Hash()); ctx.State(a.Hash());
      Judge(ctx, rc, set, a);
      auto b = Standalone(all, set.s, {}, kDrainAtEnd);
      if (!(a == b)) ctx.Fail("one-call-differs", a.Str() + " vs " + b.Str());
      auto c = Container(desc, tus, set.s, kDrainEach);
      if (!(a == c)) ctx.Fail("container-differs", a.Str() + " vs " + c.Str());
      ctx.Transitions(3);
    }
    // Part 2: chunkings.
    Chunks(ctx, rc.name, all, desc, tus, {MakeSet(-1, false, false, true, true, -1), MakeSet(9, true, true, true, true, -1)}, true);
  }
  for (auto& x : st::ExtraStreams()) {
    Bytes all = x.desc; for (auto& u : x.units) all.insert(all.end(), u.begin(), u.end());
    Chunks(ctx, x.name, all, x.desc, x.units, {MakeSet(-1, false, false, true, true, -1), MakeSet(9, true, false, true, true, -1)}, false);
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C05"; sp.min_cases = 1000; sp.min_outcomes = 50; sp.case_timeout_s = 60;
  sp.rule = "every OBU that says nothing about the mix (reserved, metadata, redundant, unknown ids, unusable descriptors) at every OBU boundary; every recipe stream x every output layout x sample type x channel order x trimming setting x requested mix, against the reference renderer, in standalone, one-call and container mode; every single cut position, every pair of cuts around OBU boundaries (all pairs in the thorough tier for streams below 600 bytes), fixed block sizes, and every grouping of temporal units into container calls, with five drain policies, against the first result";
  sp.assumptions = {"LPCM substreams; other codecs are stand-ins in this sandbox", "gain matrices are the code's own tables (checked by C14)"};
  return vh::Run(argc, argv, sp, Body);
}
