// C09: every history of encoder calls up to a depth, in lock step with a model of
// the documented contract: which temporal units exist, when they may come out,
// what the queries say, and what a call out of place does.
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
using vh::Ctx; using namespace enc;
namespace {
enum Op { kFull, kEmpty, kShort, kFirst, kRest, kOut, kFin, kOps };
const char* kNames = "FESARON";
struct Setup { Cfg c; bool params = false; bool no_meta = false; size_t missing_meta = 0; };
st::Stream Base(std::vector<st::Kind> kinds, uint32_t n) {
  st::Stream s; s.primary = 1; s.n = n; uint32_t sid = 0; std::vector<uint32_t> all; for (auto k : kinds) { s.elems.push_back({(uint32_t)(300 + s.elems.size()), k, sid, {}}); sid += st::Info(k).sub.size(); all.push_back(s.elems.back().id); }
  s.mixes.reserve(2); s.mixes.push_back(st::Simple(42, all)); return s;
}
Setup Get(int k) {
  Setup u; auto& c = u.c;
  switch (k) {
    case 0: c.s = Base({st::kStereo, st::kMono}, 4); break;
    case 1: c.s = Base({st::kMono}, 480); c.codec = kOpus; break;
    case 2: c.s = Base({st::kStereo}, 4); c.s.mixes[0].out = {900, 0}; u.params = true; break;
    case 3: c.s = Base({st::kMono}, 4); c.end_incl = false; c.arbs = {{7, 0, 26, {1}}, {9, 4, 27, {2}}}; break;
    case 4: c.s = Base({st::kMono, st::kStereo}, 480); c.codec = kOpus; c.s.mixes[0].out = {900, 0}; u.params = true; break;
    case 5: c.s = Base({st::kStereo}, 4); u.no_meta = true; break;  // a trivial IA sequence
    case 6: c.s = Base({st::kMono, st::kMono}, 4); u.missing_meta = 1; break;
    default: c.s = Base({st::kStereo}, 1024); c.codec = kAac; c.start_incl = false; c.end_incl = false; break;
  }
  if (c.codec == kOpus || c.codec == kAac) { c.s.bits = 16; c.trim_start = c.start_incl ? Delay(c.codec) : 0; c.end_incl = false; }
  return u;
}
// Not yet covered by C08's Encode(): the encoder made from the metadata.
std::unique_ptr<api::IamfEncoderInterface> Create(const Setup& u, std::string& err) {
  auto m = Meta(u.c); if (u.no_meta) m.clear_audio_frame_metadata(); if (u.missing_meta) m.mutable_audio_frame_metadata()->DeleteSubrange(m.audio_frame_metadata_size() - u.missing_meta, u.missing_meta);
  std::string ser; m.SerializeToString(&ser); auto e = api::IamfEncoderFactory::CreateIamfEncoder(ser);
  if (!e.ok()) { err = std::string(e.status().message()); return nullptr; }
  return std::move(*e);
}
void RunHistory(Ctx& ctx, int k, const std::vector<int>& ops) {
  Setup u = Get(k); Cfg& c = u.c; const uint32_t n = c.s.n; const size_t ne = c.s.elems.size() - u.missing_meta; const bool lpcm = c.codec == kLpcm;
  std::string err; auto e = Create(u, err);
  if (!e) { if (!u.missing_meta) ctx.Fail("create", err); ctx.Count("refused-at-creation"); return; }
  // --- first pass: the total input decides the units that must exist -----------
  std::vector<uint64_t> given(2, 0); std::vector<bool> cached(2, false); bool fin = false, done_short = false, undefined = false;
  for (int o : ops) {
    if (o == kOut) cached = {false, false};
    if (o == kFin) fin = true;
    if (o == kFull || o == kShort || o == kFirst || o == kRest) {
      if (fin) continue;
      for (size_t i = 0; i < ne; ++i) { if (o == kFirst && i) continue; if (o == kRest && !i) continue; if (cached[i] || done_short) undefined = true; cached[i] = true; given[i] += o == kShort ? n - 1 : n; }
      if (o == kShort) done_short = true;
    }
  }
  if (u.no_meta) given = {0, 0};
  if (ne == 2 && given[0] != given[1]) undefined = true;
  if (u.no_meta) for (int o : ops) if (o == kFull || o == kShort || o == kFirst || o == kRest) undefined = true;
  if (u.missing_meta) undefined = true;
  c.samples = given[0];
  if (c.end_incl) c.trim_end = (n - c.samples % n) % n;  // the documented requirement
  // Trimming has to be known at creation: make the encoder again with it.
  e = Create(u, err); if (!e) return ctx.Fail("create", err);
  const uint64_t total = c.samples ? c.samples + Delay(c.codec) : 0, nf = (total + n - 1) / n;
  std::vector<st::Block> blk; if (u.params) for (uint64_t i = 0; i < nf; ++i) blk.push_back({900, n, n, {}, {{1, (int)i * 50, -300 - (int)i}}});
  c.blocks.resize(nf); for (uint64_t i = 0; i < blk.size(); ++i) c.blocks[i] = {blk[i]};
  Plan(c);
  bool arb_at_missing_unit = false; for (auto& a : c.arbs) arb_at_missing_unit |= (uint64_t)a.tick >= nf * n;
  undefined |= arb_at_missing_unit;
  // --- second pass: run -----------------------------------------------------------
  fin = false; std::vector<uint64_t> in(2, 0), ready(2, 0); uint64_t out = 0, block_at = 0; size_t idle = 0; std::vector<Bytes> units; bool failed = false; Bytes desc0, d; bool f0 = true; std::vector<Bytes> got;
  if (auto s = e->GetDescriptorObus(false, desc0, f0); !s.ok()) return ctx.Fail("descriptors", std::string(s.message()));
  auto invariants = [&](const char* at) {
    ctx.Transitions(1);
    bool f = false; Bytes x = {9}; auto s = e->GetDescriptorObus(false, x, f);
    if (!s.ok()) { ctx.Fail("descriptors", std::string(at) + ": " + std::string(s.message())); return; }
    const bool gen = e->GeneratingTemporalUnits();
    if (f && gen) ctx.Fail("finalized-early", at); if (!f && !gen && fin) ctx.Fail("not-finalized", std::string(at) + ": nothing left to generate but the descriptors are not final");
    if (!f && x != desc0) ctx.Fail("descriptors-change", std::string(at) + ": preliminary descriptors changed");
    if (f) { if (!d.empty() && d != x) ctx.Fail("descriptors-change", std::string(at) + ": final descriptors changed"); d = x; if (x.size() != desc0.size()) ctx.Fail("descriptors-change", "size"); }
    if (!fin && !gen && !u.no_meta) ctx.Fail("stopped-early", std::string(at) + ": no longer generating though input was not finalized");
    if (e->GetEncoderDelay() != (u.no_meta ? 0 : Delay(c.codec))) ctx.Fail("delay", at);
    Bytes r = {7}; bool rf = false; if (auto rs = e->GetDescriptorObus(true, r, rf); rs.ok() && r.empty()) ctx.Fail("redundant", "success without data");
  };
  auto output = [&](const char* at) {
    Bytes tu = {0xde, 0xad, 0xbe, 0xef, 1, 2, 3}; const Bytes sentinel = tu; const bool gen = e->GeneratingTemporalUnits();
    for (size_t i = 0; i < ne; ++i) { ready[i] = in[i]; }
    auto s = e->OutputTemporalUnit(tu);
    if (!s.ok()) { if (!undefined && gen) ctx.Fail("output-error", std::string(at) + ": " + std::string(s.message())); if (gen) failed = true; return; }
    if (undefined) { if (!tu.empty() && tu != sentinel) got.push_back(tu); return; }
    if (tu == sentinel) { ctx.Fail("stale-unit", std::string(at) + ": success, but the output buffer still holds what was in it before"); return; }
    if (tu.empty()) { if (lpcm && ne && out < nf && !u.no_meta) { uint64_t have = *std::min_element(ready.begin(), ready.begin() + ne); if (have >= std::min<uint64_t>((out + 1) * n, c.samples)) ctx.Fail("late-unit", std::string(at) + ": unit " + std::to_string(out) + " not output"); } ++idle; return; }
    idle = 0; got.push_back(tu);
    if (!gen) ctx.Fail("unit-after-end", at);
    if (out >= nf) { ctx.Fail("extra-unit", std::string(at) + ": unit " + std::to_string(out) + " of " + std::to_string(nf)); return; }
    uint64_t have = *std::min_element(ready.begin(), ready.begin() + ne); if (!fin && have + Delay(c.codec) < (out + 1) * n && have % n == 0) ctx.Fail("early-unit", at);
    if (u.params && block_at <= out) { for (size_t i = out; i < nf; ++i) c.s.tus[i].blocks.clear(); block_at = nf; }  // not supplied in time
    if (lpcm) { auto w = ExpectedUnit(c, out); if (w != tu) ctx.Fail("unit", std::string(at) + ": unit " + std::to_string(out) + " got " + vh::Hex(tu.data(), tu.size()) + " want " + vh::Hex(w.data(), w.size())); }
    ++out;
  };
  auto encode = [&](int o) {
    Input x; uint64_t len = o == kShort ? n - 1 : n; const bool data = o != kEmpty;
    if (data) {
      // Fill() covers all elements from one position: build it per element.
      for (size_t i = 0; i < c.s.elems.size(); ++i) { if (o == kFirst && i) continue; if (o == kRest && !i) continue; auto lab = Labels(c.s.elems[i].kind); for (size_t q = 0; q < lab.size(); ++q) { auto& v = x.v[{(int)i, SerLabel(lab[q])}]; for (uint64_t t = 0; t < len; ++t) v.push_back(st::Sample(c.s, i, q, in[i < 2 ? i : 1] + t + c.delay) / (double)(1ll << (c.s.bits - 1))); x.data.audio_element_id_to_data[c.s.elems[i].id][SerLabel(lab[q])] = absl::MakeConstSpan(v); } }
    }
    const bool takes = data && !fin;
    if (u.params && ((takes && o != kRest) || fin) && block_at < blk.size()) { FillBlocks(c, block_at, x); ++block_at; }
    auto s = e->Encode(x.data);
    if (!s.ok()) { if (!undefined) ctx.Fail("encode-error", std::string(s.message())); failed = true; }
    for (auto& [q, v] : x.v) std::fill(v.begin(), v.end(), 0.7);
    if (takes) for (size_t i = 0; i < ne; ++i) { if (o == kFirst && i) continue; if (o == kRest && !i) continue; in[i] += len; }
  };
  invariants("start");
  for (size_t i = 0; i < ops.size() && !failed; ++i) {
    std::string at = "call " + std::to_string(i);
    if (ops[i] == kOut) output(at.c_str());
    else if (ops[i] == kFin) { auto s = e->FinalizeEncode(); if (!s.ok() && !undefined) ctx.Fail("finalize-error", at + ": " + std::string(s.message())); if (!s.ok()) failed = true; fin = true; }
    else encode(ops[i]);
    if (!failed) invariants(at.c_str());
  }
  // --- drain ------------------------------------------------------------------------
  if (!failed) {
    if (!fin) { if (auto s = e->FinalizeEncode(); !s.ok()) { if (!undefined) ctx.Fail("finalize-error", std::string(s.message())); failed = true; } fin = true; if (!failed) invariants("finalize"); }
    idle = 0; size_t limit = ops.size() + nf + 8;
    while (!failed && e->GeneratingTemporalUnits()) { if (!limit--) { ctx.Fail("endless", "still generating after " + std::to_string(got.size()) + " units"); failed = true; break; } encode(kEmpty); output("drain"); if (!failed) invariants("drain"); if (idle > 2) { ctx.Fail("idle", "no unit in three calls after the end of input"); break; } }
  }
  if (!failed && !undefined) {
    if (out != nf) ctx.Fail("units", std::to_string(out) + " of " + std::to_string(nf));
    if (d.empty()) ctx.Fail("not-finalized", "");
    // Calls after the end change nothing.
    for (int r = 0; r < 2; ++r) { encode(kFull); output("after the end"); (void)e->FinalizeEncode(); invariants("after the end"); }
    ctx.Validated(got.size());
    if (nf) {
      Bytes all = d; for (auto& t : got) all.insert(all.end(), t.begin(), t.end());
      dec::api::IamfDecoder::Settings set; set.requested_mix.mix_presentation_id = 42; set.requested_mix.output_layout = dec::ApiLayout(0);
      auto r = dec::Standalone(all, set, {}, dec::kDrainAtEnd);
      if (!r.ok) ctx.Fail("decode", r.err); else { Bytes pcm; for (auto& t : r.tus) pcm.insert(pcm.end(), t.begin(), t.end()); st::Pcm want; for (size_t i = 0; i < nf; ++i) { auto p = st::Render(c.s, c.s.mixes[0], 0, i); want.insert(want.end(), p.begin(), p.end()); } auto er = dec::Compare(want, pcm, 0, false, false, lpcm ? 4096 : 300000); if (!er.empty()) ctx.Fail("roundtrip", er); }
    }
  }
  uint64_t h = vh::Fnv(std::to_string(k) + ":" + std::to_string(nf) + ":" + std::to_string(out) + (failed ? "f" : "") + (undefined ? "u" : "")); for (auto& t : got) h = h * 1099511628211ull ^ vh::Fnv(t.data(), t.size());
  ctx.State(h); ctx.Outcome(vh::Fnv(std::to_string(failed) + std::to_string(undefined) + std::to_string(nf))); ctx.Count(undefined ? "outside-contract" : "within-contract");
}
// Whether a history already left the contract: it is run, but not extended.
bool Outside(const std::vector<int>& ops) {
  bool c[2] = {false, false}, fin = false, sh = false;
  for (int o : ops) {
    if (o == kOut) c[0] = c[1] = false; if (o == kFin) fin = true; if (fin || o == kEmpty || o == kOut || o == kFin) continue;
    for (int i = 0; i < 2; ++i) { if ((o == kFirst && i) || (o == kRest && !i)) continue; if (c[i] || sh) return true; c[i] = true; } if (o == kShort) sh = true;
  }
  return false;
}
void Dfs(Ctx& ctx, int k, std::vector<int>& ops, size_t depth, bool single) {
  if (ctx.stop) return;
  if (!ops.empty() || depth == 0) {
    if (!ctx.NextIsMine()) ctx.Skip();
    else { std::string s; for (int o : ops) s += kNames[o]; if (ctx.Mine("h:" + std::to_string(k) + ":" + s)) RunHistory(ctx, k, ops); }
  }
  if (ops.size() == depth || Outside(ops)) return;
  for (int o = 0; o < kOps; ++o) { if (single && (o == kFirst || o == kRest)) continue; ops.push_back(o); Dfs(ctx, k, ops, depth, single); ops.pop_back(); }
}
void Body(Ctx& ctx) {
  for (int k = 0; k < 8; ++k) {
    auto u = Get(k); const bool single = u.c.s.elems.size() < 2; size_t depth = single || !k ? 6 : 5; if (k >= 5) depth = 5; if (ctx.thorough) ++depth;
    std::vector<int> ops; { if (ctx.NextIsMine()) { if (ctx.Mine("h:" + std::to_string(k) + ":")) RunHistory(ctx, k, {}); } else ctx.Skip(); }
    Dfs(ctx, k, ops, depth, single);
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C09"; sp.min_cases = 1000; sp.min_outcomes = 4; sp.case_timeout_s = 30;
  sp.rule = "every sequence of up to 5-6 (6-7 thorough) calls of Encode (a full frame, a short last frame, nothing, the first element only, the others only), OutputTemporalUnit and FinalizeEncode on encoders of 8 kinds (one and two elements, LPCM, delayed codecs, parameter blocks, arbitrary OBUs, no audio), every query checked after every call, then drained to the end and decoded";
  sp.assumptions = {"codec libraries replaced by lossless stand-ins with the same calling contract", "giving the same channel twice before OutputTemporalUnit, a short frame before the last, or different amounts for different elements is outside the documented use: only termination is checked there"};
  return vh::Run(argc, argv, sp, Body);
}
