// Malformed input: every single mutation (byte values, truncations, byte
// insertions/deletions, OBU-level edits) of a family of streams is decoded
// (whole, in small blocks, with separate descriptors) and probed under ASan and
// UBSan; the API contract must hold on every one.
#include "vh_main.h"
#include "dec.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "streams_extra.h"
using namespace dec;
using vh::Ctx;
namespace {
struct O { size_t at, head, end; int type; };
std::vector<O> Split(const Bytes& b) {
  std::vector<O> v; size_t at = 0;
  while (at < b.size()) { size_t p = at + 1, n = 0; int sh = 0; do { n |= (size_t)(b[p] & 127) << sh; sh += 7; } while (b[p++] & 128); v.push_back({at, p, p + n, b[at] >> 3}); at = p + n; }
  return v;
}
struct Base { std::string name; Bytes all, desc; std::vector<size_t> tu_start; Result good; size_t n; };

void Contract(Ctx& ctx, const Base& b, const Result& r, const std::string& how) {
  for (auto& t : r.tus) {
    const size_t per = (size_t)std::max(1, r.ch) * 4;
    if (t.size() % per) return ctx.Fail("partial-sample", how + " " + r.Str());
    if (r.frame && t.size() > per * r.frame) return ctx.Fail("unit-too-long", how + " " + r.Str() + " frame " + std::to_string(r.frame));
  }
  if (r.desc_done && !r.tus.empty() && (r.ch < 1 || r.ch > 24 || r.frame < 1 || r.rate < 1)) return ctx.Fail("descriptor-info", how + " " + r.Str());
  if (!r.ok && r.err.find("although") != std::string::npos) return ctx.Fail("bytes-without-unit", how + " " + r.Str());
  if (!r.ok && (r.err.find("wrote") != std::string::npos || r.err == "endless")) return ctx.Fail("output-contract", how + " " + r.Str());
}
bool IsPrefix(const std::vector<Bytes>& a, const std::vector<Bytes>& b) { if (a.size() > b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
void Probes(Ctx& ctx, const Bytes& m, const std::string& how) {
  for (auto mode : {iamf_tools::ScanMode::kDescriptorsOnly, iamf_tools::ScanMode::kScanFull}) {
    iamf_tools::ProbeOptions o; o.scan_mode = mode; Bytes copy = m;
    auto r = iamf_tools::Probe(absl::MakeConstSpan(copy), o); ctx.Transitions(1);
    if (r.ok()) { auto j = iamf_tools::ProbeReportToJson(*r); if (j.empty()) ctx.Fail("probe-json", how); }
  }
}
// One mutated stream. `from`: the first byte that differs.
void Try(Ctx& ctx, const Base& b, const Bytes& m, size_t from, const std::string& how) {
  api::IamfDecoder::Settings set; set.requested_output_sample_type = api::OutputSampleType::kInt32LittleEndian;
  auto a = Standalone(m, set, {}, kDrainAtEnd); Contract(ctx, b, a, how + "/whole");
  std::vector<size_t> cuts; for (size_t i = 7; i < m.size(); i += 7) cuts.push_back(i);
  auto c = Standalone(m, set, cuts, kDrainEach); Contract(ctx, b, c, how + "/blocks");
  ctx.Transitions(2); ctx.State(vh::Fnv(m.data(), m.size())); ctx.Outcome(a.Hash() * 31 + c.Hash());
  if (a.ok && c.ok && !(a == c)) ctx.Fail("chunking-matters", how + " " + a.Str() + " vs " + c.Str());
  if (!(a.ok && c.ok) && !IsPrefix(a.tus, c.tus) && !IsPrefix(c.tus, a.tus)) ctx.Fail("chunking-matters", how + " " + a.Str() + " vs " + c.Str());
  // Separately supplied descriptors.
  if (from >= b.desc.size()) {
    std::vector<Bytes> tail = {Bytes(m.begin() + b.desc.size(), m.end())};
    auto d = Container(b.desc, tail, set, kDrainEach); Contract(ctx, b, d, how + "/container");
    if (a.ok && d.ok && a.desc_done && !(a == d)) ctx.Fail("container-matters", how + " " + a.Str() + " vs " + d.Str());
    // Units that were complete before the edit are unaffected.
    size_t k = 0; while (k + 1 < b.tu_start.size() && b.tu_start[k + 1] <= from) ++k;  // edit is in unit k
    if (k > 0) for (size_t i = 0; i + 1 < k && !(b.good.tus[i].empty() && !(a.ok && c.ok)); ++i) if (a.tus.size() <= i || a.tus[i] != b.good.tus[i] || c.tus.size() <= i || c.tus[i] != b.good.tus[i]) { ctx.Fail("earlier-unit-changed", how + " unit " + std::to_string(i) + " " + a.Str() + " / " + c.Str()); break; }
  } else { Session s; s.buf.resize(1 << 16); if (!s.Bad(api::IamfDecoder::CreateFromDescriptors(set, m.data(), std::min(m.size(), b.desc.size()), s.d), "create")) { s.Info(); Contract(ctx, b, s.r, how + "/desc"); } ctx.Transitions(1); }
  Probes(ctx, m, how);
}
void Body(Ctx& ctx) {
  std::vector<Base> bases;
  for (auto& rc : st::Recipes()) { Base b{rc.name, st::All(rc.s), st::Descriptors(rc.s)}; b.n = rc.s.n; size_t at = b.desc.size(); for (size_t i = 0; i < rc.s.tus.size(); ++i) { b.tu_start.push_back(at); at += st::TuBytes(rc.s, i).size(); } bases.push_back(b); }
  for (auto& x : st::ExtraStreams()) { Base b{x.name, x.desc, x.desc}; for (auto& t : x.units) { b.tu_start.push_back(b.all.size()); b.all.insert(b.all.end(), t.begin(), t.end()); } bases.push_back(b); }
  api::IamfDecoder::Settings set; set.requested_output_sample_type = api::OutputSampleType::kInt32LittleEndian;
  for (auto& b : bases) {
    b.good = Standalone(b.all, set, {}, kDrainAtEnd);
    if (!b.good.ok) { ctx.Fail("base-stream-refused", b.name + " " + b.good.Str()); continue; }
    auto obus = Split(b.all);
    // Large streams: bytes of long payloads are thinned out (their content is PCM).
    auto pcm = [&](size_t i) { for (auto& o : obus) if (i >= o.at && i < o.end) return o.type >= 5 && o.type <= 23 && i > o.head + 3; return false; };
    for (size_t i = 0; i < b.all.size(); ++i) {
      if (pcm(i) && !ctx.thorough) continue;
      if (!ctx.Mine("byte:" + b.name + ":" + std::to_string(i))) continue;
      std::vector<int> vals; const int x = b.all[i];
      if (ctx.thorough) for (int v = 0; v < 256; ++v) vals.push_back(v); else for (int v : {0, 1, 2, 0x3f, 0x7f, 0x80, 0xff, x ^ 1, x ^ 2, x ^ 4, x ^ 8, x ^ 0x10, x ^ 0x40, x ^ 0x80, x + 1, x - 1}) vals.push_back(v & 255);
      std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
      for (int v : vals) { if (v == x) continue; Bytes m = b.all; m[i] = v; Try(ctx, b, m, i, "byte " + std::to_string(i) + "=" + std::to_string(v)); }
      // Byte deleted, byte inserted, two bytes at once.
      { Bytes m = b.all; m.erase(m.begin() + i); Try(ctx, b, m, i, "delete " + std::to_string(i)); }
      for (int v : {0, 0x80, 0xff}) { Bytes m = b.all; m.insert(m.begin() + i, v); Try(ctx, b, m, i, "insert " + std::to_string(i)); }
      if (i + 4 < b.all.size()) { Bytes m = b.all; for (int k = 0; k < 4; ++k) m[i + k] = 0xff; Try(ctx, b, m, i, "ffffffff " + std::to_string(i)); for (int k = 0; k < 4; ++k) m[i + k] = k == 3 ? 0x0f : 0xff; Try(ctx, b, m, i, "ffffff0f " + std::to_string(i)); }
    }
    for (size_t i = 0; i <= b.all.size(); ++i) { if (!ctx.Mine("cut:" + b.name + ":" + std::to_string(i))) continue; Try(ctx, b, Bytes(b.all.begin(), b.all.begin() + i), i, "cut " + std::to_string(i)); }
    // OBU-level edits.
    std::vector<Bytes> ob; for (auto& o : obus) ob.emplace_back(b.all.begin() + o.at, b.all.begin() + o.end);
    auto join = [&](const std::vector<Bytes>& v) { Bytes r; for (auto& x : v) r.insert(r.end(), x.begin(), x.end()); return r; };
    struct Edit { std::string n; std::vector<Bytes> v; size_t at; };
    auto edits = [&](const std::vector<Bytes>& v, bool rich) {
      std::vector<Edit> e; auto pos = [&](size_t i) { size_t p = 0; for (size_t k = 0; k < i; ++k) p += v[k].size(); return p; };
      for (size_t i = 0; i < v.size(); ++i) {
        { auto w = v; w.erase(w.begin() + i); e.push_back({"del" + std::to_string(i), w, pos(i)}); }
        { auto w = v; w.insert(w.begin() + i, v[i]); e.push_back({"dup" + std::to_string(i), w, pos(i)}); }
        if (i + 1 < v.size()) { auto w = v; std::swap(w[i], w[i + 1]); e.push_back({"swap" + std::to_string(i), w, pos(i)}); }
        { auto w = v; auto x = w[i]; w.erase(w.begin() + i); w.push_back(x); e.push_back({"last" + std::to_string(i), w, pos(i)}); }
        { auto w = v; auto x = w[i]; w.erase(w.begin() + i); w.insert(w.begin(), x); e.push_back({"first" + std::to_string(i), w, 0}); }
        { auto w = v; w.push_back(v[i]); e.push_back({"append" + std::to_string(i), w, pos(v.size())}); }
        if (!rich) continue;
        for (int t = 0; t < 32; ++t) { auto w = v; w[i][0] = t << 3 | (w[i][0] & 7); e.push_back({"type" + std::to_string(i) + "=" + std::to_string(t), w, pos(i)}); }
        for (int t = 0; t < 32; ++t) for (int red : {0, 4}) { auto w = v; w.insert(w.begin() + i, Bytes{(uint8_t)(t << 3 | red), 0}); e.push_back({"ins" + std::to_string(i) + "=" + std::to_string(t) + (red ? "r" : ""), w, pos(i)}); }
      }
      return e;
    };
    for (auto& e : edits(ob, true)) { if (!ctx.Mine("obu:" + b.name + ":" + e.n)) continue; Try(ctx, b, join(e.v), e.at, e.n); }
    // Every pair of structural edits.
    for (auto& e : edits(ob, false)) { if (!ctx.thorough && ob.size() > 14) break; if (!ctx.Mine("obu2:" + b.name + ":" + e.n)) continue; for (auto& f : edits(e.v, false)) Try(ctx, b, join(f.v), std::min(e.at, f.at), e.n + "+" + f.n); }
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C06"; s.level = "fault_enumeration"; s.case_timeout_s = 60; s.min_cases = 1000; s.min_outcomes = 100;
  s.rule = "for every base stream: every byte position x boundary values (all 255 in the thorough tier), byte deletion/insertion, saturated 4-byte windows, every truncation, every OBU deletion/duplication/swap/move/retype/insertion and (small streams; all in the thorough tier) every pair of structural edits; each decoded whole, in 7-byte blocks and with separate descriptors, and probed, under ASan+UBSan";
  s.assumptions = {"codec libraries are stand-ins; only their wrappers are exercised"};
  return vh::Run(argc, argv, s, Body);
}
