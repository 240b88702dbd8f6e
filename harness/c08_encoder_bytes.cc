// C08: encoding: for every configuration in a bounded space, the encoder's output
// is byte for byte the predicted IA sequence, decoding it gives the input rendered
// by the reference, and the finalised loudness measures exactly that rendering.
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
using vh::Ctx; using namespace enc;
namespace {
std::string Diff(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "differ at byte " + std::to_string(i) + " sizes " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + "\n  got  " + vh::Hex(a.data() + std::min(i, a.size()), std::min<size_t>(40, a.size() - std::min(i, a.size()))) + "\n  want " + vh::Hex(b.data() + std::min(i, b.size()), std::min<size_t>(40, b.size() - std::min(i, b.size()))); }
void CheckDescriptors(Ctx& ctx, const Cfg& c, const Bytes& got, bool final_) {
  std::vector<size_t> loud; Bytes want = ExpectedDescriptors(c, &loud);
  if (got.size() == want.size()) {
    size_t i = 0;
    for (auto& m : c.s.mixes) for (int l : m.layouts) {
      size_t at = loud[i++]; auto q = [&](size_t p) { return (int16_t)(got[p] << 8 | got[p + 1]) / 256.0; };
      if (final_) {
        auto [il, pk] = Loudness(c, m, l); if (std::fabs(q(at) - il) > 1.01 / 256 || std::fabs(q(at + 2) - pk) > 1.01 / 256) ctx.Fail("loudness", "mix " + std::to_string(m.id) + " layout " + std::to_string(l) + " got " + std::to_string(q(at)) + "," + std::to_string(q(at + 2)) + " want " + std::to_string(il) + "," + std::to_string(pk));
      } else if (got[at] || got[at + 1] || got[at + 2] || got[at + 3]) ctx.Fail("early-loudness", "loudness fields of the preliminary descriptors");
      for (int k = 0; k < 4; ++k) want[at + k] = got[at + k];
    }
  }
  if (got != want) ctx.Fail("descriptors", Diff(got, want));
}
void RunCfg(Ctx& ctx, Cfg c) {
  Plan(c); const bool bytes = c.codec == kLpcm && !c.leb;
  const std::string file = vh::ScratchDir() + "/o.iamf"; std::remove(file.c_str());
  Out o = Encode(c, file); ctx.Transitions(o.calls + 1);
  ctx.Outcome(vh::Fnv(o.where) ^ o.units.size());
  auto exists = [&] { FILE* f = fopen(file.c_str(), "rb"); if (f) fclose(f); return f != nullptr; };
  if (!c.valid) { ctx.Count("refused"); if (o.ok) ctx.Fail("accepted", "encoded although " + c.why); return; }
  if (!o.ok) { ctx.Fail("refused", o.where + ": " + o.err); return; }
  ctx.Count("encoded");
  if (o.delay != c.delay) ctx.Fail("delay", std::to_string(o.delay));
  if (o.fin0 || !o.fin) ctx.Fail("finalized-flag", "");
  if (o.units.size() != c.frames) { ctx.Fail("units", std::to_string(o.units.size()) + " want " + std::to_string(c.frames)); return; }
  if (bytes) {
    CheckDescriptors(ctx, c, o.desc0, false); CheckDescriptors(ctx, c, o.desc, true);
    for (size_t i = 0; i < c.frames; ++i) { auto w = ExpectedUnit(c, i); if (o.units[i] != w) { ctx.Fail("unit", "unit " + std::to_string(i) + " " + Diff(o.units[i], w)); break; } }
  }
  // The file is the finalised descriptors followed by the units.
  Bytes all = o.desc; for (auto& u : o.units) all.insert(all.end(), u.begin(), u.end());
  Bytes f; { FILE* h = fopen(file.c_str(), "rb"); if (h) { uint8_t b[4096]; for (size_t k; (k = fread(b, 1, sizeof b, h)) > 0;) f.insert(f.end(), b, b + k); fclose(h); } }
  if (f != all) ctx.Fail("file", Diff(f, all));
  std::remove(file.c_str()); (void)exists;
  // Decoding gives back the input, for every mix and layout.
  bool weird = false; for (auto& a : c.arbs) weird |= a.hook == 1 || a.type < 24;
  if (!weird) for (auto& m : c.s.mixes) for (int l : m.layouts) for (int container = 0; container < 2; ++container) {
    dec::api::IamfDecoder::Settings set; set.requested_mix.mix_presentation_id = m.id; set.requested_mix.output_layout = dec::ApiLayout(l);
    auto r = container ? dec::Container(o.desc, o.units, set, dec::kDrainEach) : dec::Standalone(all, set, {}, dec::kDrainAtEnd);
    if (!r.ok) { ctx.Fail("decode", r.err); continue; }
    size_t at = 0; Bytes pcm; for (auto& t : r.tus) pcm.insert(pcm.end(), t.begin(), t.end());
    st::Pcm want; for (size_t i = 0; i < c.frames; ++i) { auto p = st::Render(c.s, m, l, i); want.insert(want.end(), p.begin(), p.end()); }
    (void)at; auto e = dec::Compare(want, pcm, l, false, false, c.codec == kLpcm ? 4096 : 300000); if (!e.empty()) ctx.Fail("roundtrip", "mix " + std::to_string(m.id) + " layout " + std::to_string(l) + (container ? " container: " : ": ") + e);
    ctx.Validated(c.frames);
  }
  ctx.State(vh::Fnv(all.data(), all.size()));
}
}  // namespace
namespace {
st::Block MkBlock(uint32_t id, uint32_t n, int shape) {
  switch (shape) {
    case 0: return {id, n, n, {}, {{0, -300}}}; case 1: return {id, n, n, {}, {{1, 0, -1536}}}; case 2: return {id, n, n / 2 ? n / 2 : 1, {}, n >= 2 ? std::vector<st::Anim>(n % 2 ? 3 : 2, st::Anim{1, 100, -500}) : std::vector<st::Anim>{{0, 7}}};
    case 3: return {id, n, 0, {n}, {{2, -100, -900, -1500, 128}}}; default: return n > 1 ? st::Block{id, n, 0, {1, n - 1}, {{0, 256}, {1, -256, -2000}}} : st::Block{id, n, 0, {n}, {{0, -5}}};
  }
}
struct Space { Cfg c; };
Cfg Choose(Chooser& ch) {
  Cfg c; auto& s = c.s; s.primary = 1;
  const int codec = ch(5); c.codec = codec < 2 ? kLpcm : (Codec)(codec - 1);
  s.n = c.codec == kOpus ? 480 : c.codec == kFlac ? 16 : c.codec == kAac ? 1024 : codec == 1 ? 1 : 8;
  s.bits = c.codec == kOpus || c.codec == kAac ? 16 : ch.alt({16, 24, 32});
  if (c.codec == kLpcm) s.big = ch(2);
  static const std::vector<std::vector<int>> sets = {{st::kStereo}, {st::kMono}, {st::k51}, {st::k512}, {st::k514}, {st::k71}, {st::k714}, {st::k712}, {st::k312}, {st::kBinaural}, {st::kFoa}, {st::kFoaMixed}, {st::kFoaProj}, {st::kStereo, st::kMono}, {st::kFoa, st::k51}, {st::kMono, st::kStereo}, {st::kToa}};
  const auto& kinds = ch.alt(sets); const int ids = ch(4);
  uint32_t sid = ids == 1 ? 15 : ids == 2 ? 126 : 0;
  for (size_t i = 0; i < kinds.size(); ++i) { auto k = (st::Kind)kinds[i]; s.elems.push_back({(uint32_t)(ids == 3 ? 400 - 130 * i : 300 + i), k, sid, {}}); sid += st::Info(k).sub.size(); }
  if (ids == 3) for (auto& e : s.elems) { uint32_t n = st::Info(e.kind).sub.size(), base = e.sid; for (uint32_t i = 0; i < n; ++i) e.sids.push_back(base + n - 1 - i + (i % 2 ? 0 : 40)); }
  if (kinds.size() > 1 && ch(2)) c.elem_perm = {1, 0};
  // Mix presentations.
  const int mixes = ch(5); std::vector<uint32_t> all; for (auto& e : s.elems) all.push_back(e.id);
  const bool bin = kinds[0] == st::kBinaural;
  s.mixes.reserve(4); s.mixes.push_back(st::Simple(42, all)); auto& m = s.mixes[0];
  if (mixes == 1 && !bin) m.layouts = {0, 1, 9}; if (mixes == 2 && !bin) m.layouts = {12, 0, 8, 3}; if (bin && mixes == 1) m.layouts = {0, 100};
  if (mixes == 3) { s.mixes.push_back(st::Simple(7, {all[0]})); s.mixes[1].out = {920, -256}; s.mixes[1].es[0].g = {921, 128}; }
  if (mixes == 4) { m.es[0].g.def = -600; m.out.def = 300; }
  // Length and trimming.
  const int frames = ch.alt({3, 1, 2, 0, 4}); const int part = ch.alt({0, 1, 2, 3}); const uint32_t n = s.n;
  c.samples = (uint64_t)frames * n; if (frames && part) c.samples -= part == 1 ? 1 : part == 2 ? n - 1 : n / 2;
  const uint64_t total = c.samples ? c.samples + Delay(c.codec) : 0, pad = (n - total % n) % n;
  c.start_incl = ch(2) == 0; c.end_incl = ch(2) == 0;
  const uint32_t base_s = c.start_incl ? Delay(c.codec) : 0, base_e = c.end_incl ? pad : 0;
  const int ts = ch(7), te = ch(6);
  c.trim_start = ts == 0 ? base_s : ts == 1 ? base_s + 1 : ts == 2 ? base_s + n : ts == 3 ? base_s + n + 1 : ts == 4 ? (base_s ? base_s - 1 : n - 1) : ts == 5 ? base_s + 2 * n : base_s + 7 * n;
  c.trim_end = te == 0 ? base_e : te == 1 ? base_e + 1 : te == 2 ? n : te == 3 ? (base_e ? base_e - 1 : n / 2) : te == 4 ? n + 1 : n - 1;
  c.delim = ch(2) == 0; c.leb = ch.alt({0, 5, 8});
  // Parameter blocks.
  const int blk = ch(7); const uint64_t nf = (total + n - 1) / n;
  if (blk) {
    auto& g1 = m.out; auto& g2 = m.es[0].g; c.blocks.resize(nf);
    if (blk == 6) { g1 = {900, -100, 0, n, n, {}}; g2 = n > 1 ? st::Gain{901, 5, 0, n, 0, {n - 1, 1}} : st::Gain{901, 5, 0, n, 0, {n}}; }
    for (uint64_t i = 0; i < nf; ++i) {
      if (blk <= 5) c.blocks[i].push_back(MkBlock(900, n, blk == 5 ? i % 5 : blk - 1));
      if (blk == 5 && i % 2 == 0) c.blocks[i].insert(c.blocks[i].begin(), MkBlock(901, n, 1));
      if (blk == 6) { c.blocks[i].push_back({900, n, n, {}, {{1, (int)(i * 100), -200}}}); c.blocks[i].push_back({901, n, 0, {}, n > 1 ? std::vector<st::Anim>{{1, 0, -900}, {0, 77}} : std::vector<st::Anim>{{0, 3}}}); }
    }
    if (blk == 5 && nf > 2) for (auto& b : c.blocks) b.erase(std::remove_if(b.begin(), b.end(), [](auto& x) { return x.id == 901; }), b.end());
  }
  // Arbitrary and metadata OBUs.
  const int arb = ch(13);
  if (arb >= 1 && arb <= 9) c.arbs.push_back({arb, arb >= 7 ? (int64_t)n * (frames > 1 ? 1 : 0) : -1, 26, {1, 2, 3}});
  if (arb == 10) { for (int h = 1; h <= 9; ++h) for (int k = 0; k < 2; ++k) if (h != 1) c.arbs.push_back({h, h >= 7 ? 0 : -1, 25 + k, {(uint8_t)h, (uint8_t)k}}); }
  if (arb == 11) c.itut35 = {{0xb5, 1, 2, 3}, {0x01}};
  if (arb == 12) { c.itut35 = {{0x10}}; c.arbs.push_back({3, -1, 27, {}}); c.arbs.push_back({9, 0, 28, Bytes(200, 9), false, true}); }
  for (auto& a : c.arbs) if (a.hook >= 7 && nf == 0) a.tick = -2;  // no unit to attach to
  s.full_scale = ch(2);
  return c;
}
// Elements of different codecs: every element, taken alone, is aligned with the others.
Bytes Filter(const Bytes& unit, uint32_t sid, uint32_t n) {
  Bytes o; for (size_t i = 0; i + 1 < unit.size();) { const uint32_t type = unit[i] >> 3; uint64_t size = 0; size_t k = i + 1; for (int sh = 0;; sh += 7) { size |= (uint64_t)(unit[k] & 127) << sh; if (!(unit[k++] & 128)) break; }
    const size_t end = k + size; if (type == 4 || (type >= 6 + sid && type < 6 + sid + n)) o.insert(o.end(), unit.begin() + i, unit.begin() + end); i = end; }
  return o;
}
void Multi(Ctx& ctx) {
  static const std::vector<std::vector<int>> kinds = {{st::kStereo, st::kMono}, {st::kMono, st::k51}, {st::kFoa, st::kStereo}, {st::kStereo, st::kMono, st::kStereo}};
  Chooser ch(ctx.thorough ? 5 : 3);
  do {
    Cfg c; auto& s = c.s; s.primary = 2; s.bits = 16; const auto& ks = ch.alt(kinds); uint32_t sid = 0;
    const int size = ch(3); s.n = size == 0 ? 480 : size == 1 ? 1024 : 960;
    for (size_t i = 0; i < ks.size(); ++i) { s.elems.push_back({(uint32_t)(300 + i), (st::Kind)ks[i], sid, {}}); sid += st::Info((st::Kind)ks[i]).sub.size(); }
    for (size_t i = 0; i < ks.size(); ++i) { const int k = ch(3); const Codec lossy = size == 1 ? kAac : kOpus; c.ecodec.push_back(i % 2 == 0 ? (k == 0 ? lossy : k == 1 ? kLpcm : kFlac) : (k == 0 ? kLpcm : k == 1 ? kFlac : lossy)); }
    if (ch(2)) { c.elem_perm = {1, 0}; if (ks.size() > 2) c.elem_perm.push_back(2); }
    for (auto& e : s.elems) s.mixes.push_back(st::Simple(42 + e.id, {e.id}));  // a mix has one codec
    if (ch(2)) s.mixes[0].layouts = {0, 1};
    Cfg d = c; Plan(d); const uint32_t delay = d.delay, n = s.n;
    const int frames = ch.alt({2, 1, 3}), part = ch(3); c.samples = (uint64_t)frames * n - (part == 0 ? 0 : part == 1 ? 1 : n - 1);
    const uint64_t total = c.samples + delay, pad = (n - total % n) % n; c.start_incl = ch(2) == 0; c.end_incl = ch(2) == 0;
    const int ts = ch(4), te = ch(3); const uint32_t bs = c.start_incl ? delay : 0, be = c.end_incl ? pad : 0;
    c.trim_start = ts == 0 ? bs : ts == 1 ? bs + 1 : ts == 2 ? bs + n : bs ? bs - 1 : 3; c.trim_end = te == 0 ? be : te == 1 ? be + 1 : n; Plan(c);
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine("multi:" + ch.Name())) continue;
    Out o = Encode(c); ctx.Transitions(o.calls + 1); ctx.Outcome(vh::Fnv(o.where) ^ o.units.size() ^ 77);
    if (!c.valid) { if (o.ok) ctx.Fail("accepted", "encoded although " + c.why); continue; } if (!o.ok) { ctx.Fail("refused", o.where + ": " + o.err); continue; }
    ctx.Count("multi_codec"); if (o.delay != delay) ctx.Fail("delay", std::to_string(o.delay)); if (o.units.size() != c.frames) { ctx.Fail("units", std::to_string(o.units.size()) + " want " + std::to_string(c.frames)); continue; }
    size_t end = o.desc.size();
    for (size_t k = s.mixes.size(); k-- > 0;) { auto& m = s.mixes[k];
      for (size_t i = 0; i < m.layouts.size(); ++i) { const size_t at = end - 6 * (m.layouts.size() - i) + 2; auto q = [&](size_t p) { return (int16_t)(o.desc[p] << 8 | o.desc[p + 1]) / 256.0; }; auto [il, pk] = Loudness(c, m, m.layouts[i]); if (std::fabs(q(at) - il) > 1.01 / 256 || std::fabs(q(at + 2) - pk) > 1.01 / 256) ctx.Fail("loudness", "mix " + std::to_string(k) + " layout " + std::to_string(m.layouts[i]) + " got " + std::to_string(q(at)) + "," + std::to_string(q(at + 2)) + " want " + std::to_string(il) + "," + std::to_string(pk)); }
      end -= st::MixObu(s, m).size(); }
    for (size_t e = 0; e < s.elems.size(); ++e) {
      Cfg one = c; one.codec = c.ecodec[e]; one.ecodec.clear(); one.elem_perm.clear(); one.s.elems = {s.elems[e]}; one.s.mixes = {st::Simple(42, {s.elems[e].id})}; one.trim_start = Delay(one.codec) + 1; one.start_incl = false; std::string err; Bytes desc; bool fin; auto enc = Make(one, err); if (!enc || !enc->GetDescriptorObus(false, desc, fin).ok()) { ctx.Fail("refused", "element alone: " + err); continue; }
      Bytes data = desc; for (auto& u : o.units) { auto f = Filter(u, s.elems[e].sid, st::Info(s.elems[e].kind).sub.size()); data.insert(data.end(), f.begin(), f.end()); }
      dec::api::IamfDecoder::Settings set; set.requested_mix.mix_presentation_id = 42; set.requested_mix.output_layout = dec::ApiLayout(0); auto r = dec::Standalone(data, set, {}, dec::kDrainAtEnd); if (!r.ok) { ctx.Fail("decode", r.err); continue; }
      Bytes pcm; for (auto& t : r.tus) pcm.insert(pcm.end(), t.begin(), t.end()); st::Stream alone = c.s; alone.elems = {s.elems[e]}; st::Pcm want;
      // Render() tells elements apart by their index.
      for (size_t i = 0; i < c.frames; ++i) { auto m = st::Simple(42, {s.elems[e].id}); auto p = st::Render(c.s, m, 0, i); want.insert(want.end(), p.begin(), p.end()); }
      auto er = dec::Compare(want, pcm, 0, false, false, c.ecodec[e] == kLpcm ? 4096 : 300000); if (!er.empty()) ctx.Fail("aligned", "element " + std::to_string(e) + ": " + er); ctx.Validated(c.frames);
    }
    ctx.State(vh::Fnv(ctx.cur));
  } while (ch.Next() && !ctx.stop);
}
void Body(Ctx& ctx) {
  Multi(ctx);
  Chooser ch(ctx.thorough ? 4 : 3);
  do {
    Cfg c = Choose(ch);
    bool skip = false; for (auto& a : c.arbs) skip |= a.tick == -2;
    if (skip) continue;
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    if (!ctx.Mine("cfg:" + ch.Name())) continue;
    RunCfg(ctx, c);
  } while (ch.Next() && !ctx.stop);
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C08"; sp.min_cases = 1000; sp.min_outcomes = 5; sp.case_timeout_s = 60;
  sp.rule = "every configuration with at most 3 (4 thorough) deviations from a default over: codec (LPCM, and lossless stand-ins of Opus, FLAC, AAC), bit depth, endianness, frame size, 17 sets of audio elements, substream and element ids and their order, mix presentations and layouts, number of frames, partial last frame, start and end trimming with and without codec delay and padding included, delimiters, leb128 sizes, seven parameter block schedules, arbitrary OBUs at each hook, metadata OBUs, full-scale samples";
  sp.assumptions = {"codec libraries replaced by lossless stand-ins with the same calling contract", "the loudness meter is a stand-in (weighted mean square and peak)"};
  return vh::Run(argc, argv, sp, Body);
}
