// C12: the file-based encoder (user metadata and WAV files in, IAMF and rendered
// WAV files out): every dimension of the input varied one or two at a time, the
// output files predicted bit by bit.
#include <bit>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "vh_main.h"
#include "wavhdr.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
#include "iamf/cli/encoder_main_lib.h"
#include "iamf/cli/proto/test_vector_metadata.pb.h"
using vh::Ctx; using namespace enc; namespace fs = std::filesystem;
namespace {
void Le(Bytes& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back(v >> (8 * i)); }
// A WAV file with the signals of element `e`; extra channels hold garbage.
struct WavOpt { int bits = 16; bool flt = false; int rate = 48000, extra = 0; int chunk = 0; };
void WriteWav(const Cfg& c, int e, const std::string& path, const WavOpt& w) {
  const int nc = st::NumCh(c.s.elems[e].kind) + w.extra, bps = w.bits / 8; Bytes d;
  st::Stream s = c.s; s.chmap.clear();
  for (uint64_t t = 0; t < c.samples; ++t) for (int k = 0; k < nc; ++k) {
    if (k >= nc - w.extra) { Le(d, 0x5a5a5a5a, bps); continue; }
    int64_t v = st::Sample(s, e, k, t + c.delay); if (w.flt) { float f = v / (float)(1ll << (s.bits - 1)); uint32_t b; memcpy(&b, &f, 4); Le(d, b, 4); } else Le(d, w.bits >= s.bits ? (uint64_t)v << (w.bits - s.bits) : (uint64_t)(v >> (s.bits - w.bits)), bps);
  }
  Bytes o; auto tag = [&](const char* x) { o.insert(o.end(), x, x + 4); };
  tag("RIFF"); Le(o, 36 + d.size() + (w.chunk ? 12 : 0), 4); tag("WAVE"); if (w.chunk) { tag("junk"); Le(o, 4, 4); Le(o, 1, 4); }
  tag("fmt "); Le(o, 16, 4); Le(o, w.flt ? 3 : 1, 2); Le(o, nc, 2); Le(o, w.rate, 4); Le(o, w.rate * nc * bps, 4); Le(o, nc * bps, 2); Le(o, w.bits, 2); tag("data"); Le(o, d.size(), 4); o.insert(o.end(), d.begin(), d.end());
  std::ofstream f(path, std::ios::binary); f.write((char*)o.data(), o.size());
}
Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); auto x = s.str(); return Bytes(x.begin(), x.end()); }
std::string Diff(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " want " + std::to_string(b.size()) + ": " + vh::Hex(a.data() + std::min(i, a.size()), std::min<size_t>(24, a.size() - std::min(i, a.size()))) + " want " + vh::Hex(b.data() + std::min(i, b.size()), std::min<size_t>(24, b.size() - std::min(i, b.size()))); }
struct Plan2 { Cfg c; WavOpt w; int format = 1; int fault = 0; bool partition = false; std::string prefix = "out"; int full_block = 0; bool nested = false; std::vector<pb::ParameterBlockObuMetadata> blocks; };
// One parameter block over the whole sequence that must be split per temporal unit.
void FullBlock(Plan2& p, uint64_t nf) {
  auto& c = p.c; const uint32_t n = c.s.n, total = n * nf; if (!nf) return; const int k = total <= 900 ? 32 : total <= 1900 ? 16 : 4;
  std::vector<uint32_t> sub; std::vector<st::Anim> an;
  switch (p.full_block) {
    case 1: sub = {total}; an = {{0, -300}}; break;
    case 2: { const uint32_t a = std::bit_floor(total); sub = {a}; an = {{1, 0, -(int)a * k}}; if (total > a) { sub.push_back(total - a); an.push_back({0, -77}); } break; }  // exact splits only
    case 3: { uint32_t a = n / 2 ? n / 2 : 1; sub = {a, total - a}; an = {{0, 100}, {0, -700}}; if (total == a) { sub = {total}; an.resize(1); } break; }
    case 4: for (uint64_t i = 0; i < nf; ++i) { sub.push_back(n); an.push_back(i % 2 ? st::Anim{2, -100, -900, -1500, 128} : st::Anim{1, 256, -256 * (int)i}); } break;
    case 5: { uint32_t a = n * (nf - 1) + n / 2; if (!a) a = 1; a = std::bit_floor(a); sub = {a}; an = {{1, -(int)a * k, (int)a * k}}; if (total > a) { sub.push_back(total - a); an.push_back({0, 5}); } break; }
    default: for (uint32_t i = 0; i < total; ++i) { sub.push_back(1); an.push_back({0, (int)(i % 4000) * -7}); } break;
  }
  pb::ParameterBlockObuMetadata m; m.set_parameter_id(900); m.set_start_timestamp(0); m.set_duration(total); m.set_constant_subblock_duration(0);
  for (size_t i = 0; i < sub.size(); ++i) { auto* b = m.add_subblocks(); b->set_subblock_duration(sub[i]); auto* q = b->mutable_mix_gain_parameter_data()->mutable_param_data(); auto& a = an[i]; if (a.type == 0) q->mutable_step()->set_start_point_value(a.a); else if (a.type == 1) { q->mutable_linear()->set_start_point_value(a.a); q->mutable_linear()->set_end_point_value(a.b); } else { auto* z = q->mutable_bezier(); z->set_start_point_value(a.a); z->set_end_point_value(a.b); z->set_control_point_value(a.c); z->set_control_point_relative_time(a.rel); } }
  p.blocks.push_back(m); p.partition = true; c.blocks.assign(nf, {});
  // Independent split.
  for (uint64_t u = 0; u < nf; ++u) {
    st::Block b{900, n, 0, {}, {}}; int64_t at = 0, lo = u * n, hi = lo + n;
    for (size_t i = 0; i < sub.size(); at += sub[i], ++i) { int64_t x = std::max<int64_t>(lo, at), y = std::min<int64_t>(hi, at + sub[i]); if (x >= y) continue; auto a = an[i]; if (a.type == 1) { int64_t d = sub[i], v0 = a.a, v1 = a.b; a.a = v0 + (v1 - v0) * (x - at) / d; a.b = v0 + (v1 - v0) * (y - at) / d; } b.sub.push_back(y - x); b.anim.push_back(a); }
    bool same = true; for (size_t i = 0; i + 1 < b.sub.size(); ++i) same &= b.sub[i] == b.sub[0]; if (same && b.sub.back() <= b.sub[0]) { b.cdur = b.sub[0]; b.sub.clear(); }
    c.blocks[u] = {b};
  }
}
Plan2 Choose(Chooser& ch) {
  Plan2 p; auto& c = p.c; auto& s = c.s; s.primary = 1;
  const int codec = ch(5); c.codec = codec < 2 ? kLpcm : (Codec)(codec - 1); s.n = c.codec == kOpus ? 480 : c.codec == kFlac ? 16 : c.codec == kAac ? 1024 : codec == 1 ? 1 : 8;
  const int wb = ch(5); static const int bits[] = {16, 24, 32, 24, 32}, wbits[] = {16, 24, 32, 16, 32}; s.bits = c.codec == kOpus || c.codec == kAac ? 16 : bits[wb]; p.w.bits = s.bits == 16 ? 16 : wbits[wb]; if (wb == 3 && s.bits == 24) s.drop = 8; if (wb == 4 && s.bits == 32) { p.w.flt = true; s.drop = 10; }
  static const std::vector<std::vector<int>> sets = {{st::kStereo}, {st::kMono}, {st::k51}, {st::k714}, {st::kFoa}, {st::kStereo, st::kMono}, {st::kFoa, st::k51}, {st::kBinaural}, {st::k312}, {st::kToa}};
  const auto& kinds = ch.alt(sets); uint32_t sid = 0; std::vector<uint32_t> all; for (size_t i = 0; i < kinds.size(); ++i) { auto k = (st::Kind)kinds[i]; s.elems.push_back({(uint32_t)(300 + i), k, sid, {}}); sid += st::Info(k).sub.size(); all.push_back(300 + i); }
  s.mixes.reserve(2); s.mixes.push_back(st::Simple(42, all)); if (ch(2)) { s.mixes.push_back(st::Simple(7, {300}, {0, 1})); s.mixes[1].out = {920, -256}; s.mixes[1].es[0].g = {921, 128}; if (kinds[0] == st::kBinaural) s.mixes[1].layouts = {0, 100}; }
  const int chm = ch(4); if (chm) for (auto& e : s.elems) { int n = st::NumCh(e.kind); std::vector<int> m(n); for (int i = 0; i < n; ++i) m[i] = chm == 1 ? n - 1 - i : chm == 2 ? 0 : (i + 1) % n; s.chmap.push_back(m); }
  p.w.extra = ch.alt({0, 1, 3}); p.w.chunk = ch(2);
  const int frames = ch.alt({3, 1, 0, 2, 4}), part = ch.alt({0, 1, 2}); const uint32_t n = s.n; c.samples = (uint64_t)frames * n; if (frames && part) c.samples -= part == 1 ? 1 : n - 1;
  const uint64_t total = c.samples ? c.samples + Delay(c.codec) : 0, pad = (n - total % n) % n; c.start_incl = c.end_incl = true; c.trim_start = Delay(c.codec) + (uint32_t)ch.alt({0u, 1u, n + 1, 2 * n}); c.trim_end = pad; if (ch(2)) { c.end_incl = false; c.trim_end = 0; }
  c.delim = ch(2) == 0; p.format = ch.alt({1, 2, 3, 4, 5, 0}); p.nested = ch(2); const int pre = ch(3); p.prefix = pre == 0 ? "out" : pre == 1 ? "" : "a.b c";
  const uint64_t nf = (total + n - 1) / n; const int blk = ch(9);
  if (blk == 1 || blk == 2) { for (uint64_t i = 0; i < (blk == 1 ? nf : std::min<uint64_t>(nf, 1)); ++i) { c.blocks.push_back({{900, n, n, {}, {{1, (int)i * 10, -300}}}}); p.blocks.push_back(BlockMeta(c, c.blocks[i][0], i * n)); } }
  if (blk >= 3) { p.full_block = blk - 2; FullBlock(p, nf); }
  if (ch(2)) { p.c.arbs = {{2, -1, 26, {1, 2}}, {7, 0, 27, {}}, {9, (int64_t)n, 26, {4}}}; if (nf < 2) p.c.arbs.resize(nf + 1); }
  p.fault = ch(10);
  return p;
}
void Run(Ctx& ctx, Plan2 p) {
  auto& c = p.c; Plan(c); const uint64_t nf = c.frames;
  const std::string d = fs::canonical(vh::ScratchDir()).string() + "/t"; fs::remove_all(d); fs::create_directory(d); const std::string in = d + "/in", out = p.nested ? d + "/x/y/out" : d + "/out"; fs::create_directory(in);
  auto m = Meta(c); auto* tv = m.mutable_test_vector_metadata(); tv->set_file_name_prefix(p.prefix); tv->set_partition_mix_gain_parameter_blocks(p.partition); if (p.format != 1) m.mutable_encoder_control_metadata()->set_output_rendered_file_format((pb::OutputAudioFormat)p.format);
  for (size_t e = 0; e < c.s.elems.size(); ++e) {
    auto* a = m.mutable_audio_frame_metadata(e); std::string name = "e" + std::to_string(e) + ".wav"; a->set_wav_filename(name); WriteWav(c, e, in + "/" + name, p.w);
    if (!c.s.chmap.empty()) for (int i = 0; i < a->channel_metadatas_size(); ++i) a->mutable_channel_metadatas(i)->set_channel_id(c.s.chmap[e][i]);
  }
  for (auto& b : p.blocks) *m.add_parameter_block_metadata() = b;
  bool want_ok = c.valid;
  auto w2 = p.w;
  switch (p.fault) {
    case 1: fs::remove(in + "/e0.wav"); want_ok = false; break;
    case 2: w2.rate = 44100; WriteWav(c, 0, in + "/e0.wav", w2); want_ok = false; break;
    case 3: if (c.s.bits == 32 || w2.flt || c.codec == kOpus) return ctx.Count("not-applicable"); w2.bits = 32; WriteWav(c, 0, in + "/e0.wav", w2); want_ok = false; break;
    case 4: m.mutable_audio_frame_metadata(0)->mutable_channel_metadatas(0)->set_channel_id(st::NumCh(c.s.elems[0].kind) + p.w.extra); want_ok = false; break;
    case 5: { std::ofstream(in + "/e0.wav", std::ios::binary) << "RIFFxxxxWAVEnothing"; want_ok = false; break; }
    case 6: m.mutable_audio_frame_metadata(0)->mutable_channel_metadatas(0)->set_channel_id(st::NumCh(c.s.elems[0].kind) + p.w.extra + 1000000); want_ok = false; break;
    case 7: std::ofstream(d + (p.nested ? "/x" : "/out")) << "a file"; if (p.prefix.empty() && p.format <= 1 && !p.nested) return ctx.Count("not-applicable"); want_ok = false; break;
    case 9: { if (!p.full_block || !nf) return ctx.Count("not-applicable"); auto* q = m.mutable_parameter_block_metadata(0)->mutable_subblocks(0)->mutable_mix_gain_parameter_data()->mutable_param_data(); if (q->has_step()) q->mutable_step()->set_start_point_value(32768); else if (q->has_linear()) q->mutable_linear()->set_end_point_value(-32769); else q->mutable_bezier()->set_start_point_value(40000); want_ok = false; break; }
    case 8: if (!nf) return ctx.Count("not-applicable"); if (p.full_block) { m.mutable_parameter_block_metadata(0)->set_duration(m.parameter_block_metadata(0).duration() + 1); want_ok = nf == 0; if (!nf) return ctx.Count("not-applicable"); break; } if (c.samples == 0) return ctx.Count("not-applicable"); m.clear_codec_config_metadata(); want_ok = false; break;
  }
  auto st = iamf_tools::TestMain(m, in, out); ctx.Transitions(nf + 1); ctx.Outcome(vh::Fnv(std::to_string(st.ok()) + std::to_string(p.fault) + std::to_string(p.format)));
  if (st.ok() != want_ok) return ctx.Fail(st.ok() ? "accepted" : "refused", st.ok() ? "fault " + std::to_string(p.fault) + " " + c.why : std::string(st.message()));
  if (!st.ok()) { ctx.Count("refused"); return; }
  ctx.Count("encoded"); ctx.Validated();
  // --- the IAMF file ---------------------------------------------------------------
  const std::string iamf = out + "/" + p.prefix + ".iamf"; std::set<std::string> files, expect;
  for (auto& e : fs::directory_iterator(out)) files.insert(e.path().filename().string());
  if (!p.prefix.empty()) {
    expect.insert(p.prefix + ".iamf"); Bytes got = Slurp(iamf);
    if (c.codec == kLpcm) {
      std::vector<size_t> loud; Bytes want = ExpectedDescriptors(c, &loud); const size_t ds = want.size(); for (uint64_t i = 0; i < nf; ++i) { auto u = ExpectedUnit(c, i); want.insert(want.end(), u.begin(), u.end()); }
      Bytes g = got; for (size_t x : loud) for (int k = 0; k < 4; ++k) if (x - Arbs(c, 2).size() * 0 + k < ds && x + k < g.size()) g[x + k] = want[x + k];
      if (g != want) ctx.Fail("iamf", Diff(g, want));
      // Loudness: what the streaming encoder measures.
      auto o = Encode(c); if (!o.ok) ctx.Fail("stream", o.err); else if (got.size() < o.desc.size() || !std::equal(o.desc.begin(), o.desc.end(), got.begin())) ctx.Fail("loudness", Diff(Bytes(got.begin(), got.begin() + std::min(got.size(), o.desc.size())), o.desc));
    }
    for (auto& mx : c.s.mixes) for (int l : mx.layouts) {
      dec::api::IamfDecoder::Settings set; set.requested_mix.mix_presentation_id = mx.id; set.requested_mix.output_layout = dec::ApiLayout(l); auto r = dec::Standalone(got, set, {}, dec::kDrainAtEnd); if (!r.ok) { ctx.Fail("decode", r.err); continue; }
      Bytes pcm; for (auto& t : r.tus) pcm.insert(pcm.end(), t.begin(), t.end()); st::Pcm want; for (size_t i = 0; i < nf; ++i) { auto q = st::Render(c.s, mx, l, i); want.insert(want.end(), q.begin(), q.end()); }
      auto e = dec::Compare(want, pcm, l, false, false, c.codec == kLpcm ? 4096 : 300000); if (!e.empty()) ctx.Fail("roundtrip", e);
    }
    ctx.State(vh::Fnv(got.data(), got.size()));
  }
  // --- the rendered WAV files --------------------------------------------------------
  if (p.format >= 2) {
    const int bits = p.format == 3 ? 16 : p.format == 4 ? 24 : p.format == 5 || c.codec == kOpus ? 32 : c.s.bits;
    for (auto& mx : c.s.mixes) for (size_t li = 0; li < mx.layouts.size(); ++li) {
      std::string name = p.prefix + "_rendered_id_" + std::to_string(mx.id) + "_sub_mix_0_layout_" + std::to_string(li) + ".wav"; expect.insert(name); Bytes w = Slurp(out + "/" + name); const int l = mx.layouts[li], nc = st::OutCh(l);
      st::Pcm want; for (size_t i = 0; i < nf; ++i) { auto q = st::Render(c.s, mx, l, i); want.insert(want.end(), q.begin(), q.end()); }
      const uint32_t ds = want.size() * nc * bits / 8; const size_t hs = wavhdr::Size(bits); const std::string hdr = wavhdr::Header(nc, 48000, bits, want.size()); const Bytes hd(hdr.begin(), hdr.end());
      Bytes gh(w.begin(), w.begin() + std::min<size_t>(hs, w.size())); if (gh != hd) { ctx.Fail("wav-header", name + ": " + Diff(gh, hd)); continue; }
      if (w.size() != hs + ds) { ctx.Fail("wav-size", name + ": " + std::to_string(w.size()) + " want " + std::to_string(hs + ds)); continue; }
      size_t at = hs; bool bad = false; const double tol = std::max(4096.0, std::ldexp(1.0, 32 - bits)) + (c.codec == kLpcm ? 0 : 300000);
      for (size_t t = 0; t < want.size() && !bad; ++t) for (int q = 0; q < nc && !bad; ++q) { uint32_t v = 0; for (int i = 0; i < bits / 8; ++i) v |= (uint32_t)w[at++] << (32 - bits + 8 * i); double g = (int32_t)v, x = (double)st::ToInt32(want[t][q]); if (std::fabs(g - x) > tol) { bad = true; ctx.Fail("wav-sample", name + " tick " + std::to_string(t) + " channel " + std::to_string(q) + ": " + std::to_string(g) + " want " + std::to_string(x)); } }
      ctx.Validated();
    }
  }
  if (files != expect) { std::string s; for (auto& f : files) s += " " + f; s += " expected"; for (auto& f : expect) s += " " + f; ctx.Fail("files", s); }
}
void Body(Ctx& ctx) {
  Chooser ch(ctx.thorough ? 4 : 3);
  do {
    if (ctx.stop) return;
    auto p = Choose(ch); if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    if (ctx.Mine("f:" + ch.Name())) Run(ctx, p);
  } while (ch.Next());
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C12"; sp.min_cases = 500; sp.min_outcomes = 8; sp.case_timeout_s = 60;
  sp.rule = "every choice, pair and triple (quadruple in thorough) of choices of: codec and frame size, bit depths of codec and WAV (integer and float), elements, mix presentations, channel mapping, extra WAV channels and chunks, length, trimming, delimiters, rendered format, output directory and prefix, parameter blocks per unit, only at the start, or one long block to be partitioned (six shapes), arbitrary OBUs, nine kinds of unusable input";
  sp.assumptions = {"codec libraries, loudness meter and WAV file reader/writer of audio_to_tactile replaced by stand-ins with the same contract", "all WAV files have the same length"};
  return vh::Run(argc, argv, sp, Body);
}
