// C20: ADM/BW64 files become IAMF user metadata and WAV files. Every dimension of a
// small ADM document and of the file around it is varied one to three at a time; the
// written WAV files, the metadata and (through the file encoder and the decoder) the
// audio of every resulting mix are predicted. Damaged files must be refused or
// converted without harm.
#include <filesystem>
#include <fstream>
#include <sstream>
#include <csignal>
#include <sys/resource.h>
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
#include "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.h"
#include "admdoc.h"
#include "iamf/cli/encoder_main_lib.h"
#include "iamf/cli/proto/user_metadata.pb.h"
using vh::Ctx;
namespace {
std::string Show(const std::multiset<std::string>& s) { std::string o; for (auto& x : s) o += "[" + x + "]"; return o; }
int Q78(const char* g) { return g ? (int)std::floor(atof(g) * 256 + 1e-6) : 0; }
void RunDoc(Ctx& ctx, const Doc& d) {
  Cfg c = Source(d); Tmp t; const Bytes file = DocFile(d, c); const int thr = std::clamp(d.threshold, 0, 10); const size_t no = d.o.size();
  std::vector<bool> kept(no); for (size_t i = 0; i < no; ++i) kept[i] = Packs()[d.o[i].pack].kind != -2 && (d.o[i].importance < 0 ? 10 : d.o[i].importance) >= thr;
  const bool any = std::count(kept.begin(), kept.end(), true); auto m = Convert(t, file, d.ms, d.threshold, d.enhanced); ctx.Transitions(d.ticks + no);
  if (!any) { if (m.ok()) ctx.Fail("nothing", "converted although no object is left"); ctx.Count("no object left"); return; }
  // The mixes: per programme one for every choice among complementary objects.
  struct Mx { std::vector<int> os; int prog; }; std::vector<Mx> mixes;
  if (d.p.empty()) { for (size_t i = 0; i < no; ++i) if (kept[i]) { mixes.push_back({{(int)i}, -1}); break; } }
  for (size_t pi = 0; pi < d.p.size(); ++pi) {
    std::vector<std::vector<int>> groups; std::set<int> skip;
    for (auto& k : d.p[pi].contents) for (int o : k) { if (skip.count(o) || !kept[o]) continue; std::vector<int> g = {o}; for (int q : d.o[o].comp) { skip.insert(q); if (kept[q]) g.push_back(q); } groups.push_back(g); }
    if (groups.empty() || groups.size() > 2) continue;
    for (int a : groups[0]) if (groups.size() == 1) mixes.push_back({{a}, (int)pi}); else for (int b : groups[1]) mixes.push_back({{a, b}, (int)pi});
  }
  if (mixes.empty()) { ctx.Count("no mix"); ctx.Outcome(m.ok()); return; }
  if (!m.ok()) return ctx.Fail("refused", std::string(m.status().message()));
  auto& cc = m->codec_config_metadata(); if (cc.size() != 1 || cc[0].codec_config().codec_id() != pb::CODEC_ID_LPCM || cc[0].codec_config().num_samples_per_frame() != c.s.n || (int)cc[0].codec_config().decoder_config_lpcm().sample_size() != d.bits || (int)cc[0].codec_config().decoder_config_lpcm().sample_rate() != d.rate) return ctx.Fail("codec", cc.size() ? cc[0].ShortDebugString() : "none");
  if (m->ia_sequence_header_metadata_size() != 1 || m->ia_sequence_header_metadata(0).primary_profile() != (d.enhanced ? pb::PROFILE_VERSION_BASE_ENHANCED : pb::PROFILE_VERSION_BASE)) ctx.Fail("profile", m->ia_sequence_header_metadata(0).ShortDebugString());
  // --- elements and their files, found through the labels of the objects ---------------
  std::map<std::string, int> by_label; for (size_t i = 0; i < no; ++i) by_label[d.o[i].label] = i; std::map<uint64_t, int> elem_obj; std::multiset<std::string> got, want; std::set<uint64_t> mix_ids;
  Cfg e2e = c; std::vector<st::Mix> mx; int most = 0;
  for (auto& q : m->mix_presentation_metadata()) {
    if (!mix_ids.insert(q.mix_presentation_id()).second) ctx.Fail("mix-id", "twice " + std::to_string(q.mix_presentation_id())); if (q.sub_mixes_size() != 1) return ctx.Fail("sub-mix", q.ShortDebugString());
    auto& sm = q.sub_mixes(0); std::set<std::string> parts; st::Mix x; x.id = q.mix_presentation_id(); x.out.id = 0; x.layouts.clear(); std::set<int> lay; int chs = 0;
    for (auto& e : sm.audio_elements()) {
      if (e.localized_element_annotations_size() != 1 || !by_label.count(e.localized_element_annotations(0))) return ctx.Fail("label", e.ShortDebugString()); const int o = by_label[e.localized_element_annotations(0)];
      auto [it, fresh] = elem_obj.insert({e.audio_element_id(), o}); if (it->second != o) return ctx.Fail("element", "element " + std::to_string(e.audio_element_id()) + " stands for two objects"); if (!kept[o]) return ctx.Fail("dropped", d.o[o].label); chs += Packs()[d.o[o].pack].labels.size();
      parts.insert(d.o[o].label + "=" + std::to_string(e.element_mix_gain().default_mix_gain())); st::MixElem me{e.audio_element_id(), {}, 1}; me.g.id = 0; me.g.def = e.element_mix_gain().default_mix_gain(); x.es.push_back(me);
    }
    most = std::max(most, chs); std::string s; for (auto& p : parts) s += p + " "; s += "out=" + std::to_string(sm.output_mix_gain().default_mix_gain());
    std::set<std::string> ls; for (auto& l : sm.layouts()) {
      std::string k = l.loudness_layout().layout_type() == pb::LAYOUT_TYPE_BINAURAL ? "100" : std::to_string((int)l.loudness_layout().ss_layout().sound_system() - 1); ls.insert(k); lay.insert(atoi(k.c_str()));
      auto& li = l.loudness(); std::set<int> bits; for (int b : li.info_type_bit_masks()) bits.insert(b); s += " L" + std::to_string(li.integrated_loudness()); if (bits.count(pb::LOUDNESS_INFO_TYPE_TRUE_PEAK)) s += " T" + std::to_string(li.true_peak()); if (bits.count(pb::LOUDNESS_INFO_TYPE_ANCHORED_LOUDNESS)) for (auto& a : li.anchored_loudness().anchor_elements()) s += " D" + std::to_string(a.anchored_loudness()) + "/" + std::to_string(a.anchor_element());
    }
    s += " layouts:"; for (auto& l : ls) s += l + ","; got.insert(s); x.layouts.assign(lay.begin(), lay.end()); mx.push_back(x);
  }
  for (auto& w : mixes) {
    std::set<std::string> parts, ls = {"0"}; std::string s; int n = 1; for (int o : w.os) { parts.insert(d.o[o].label + "=" + std::to_string(Q78(d.o[o].gain))); if (int y = Packs()[d.o[o].pack].sys; y > 0) { ls.insert(std::to_string(y)); ++n; } } for (auto& p : parts) s += p + " "; s += "out=0";
    static const Prog none; const Prog& p = w.prog < 0 ? none : d.p[w.prog]; std::string l = " L" + std::to_string(Q78(p.loud)); if (p.peak) l += " T" + std::to_string(Q78(p.peak)); if (p.dialogue) l += " D" + std::to_string(Q78(p.dialogue)) + "/" + std::to_string((int)pb::ANCHOR_TYPE_DIALOGUE);
    for (int i = 0; i < n; ++i) s += l; s += " layouts:"; for (auto& q : ls) s += q + ","; want.insert(s);
  }
  if (got != want) return ctx.Fail("mixes", Show(got) + " want " + Show(want));
  std::map<uint64_t, int> elems, frames; std::set<uint64_t> sids; std::set<std::string> used;
  for (auto& e : m->audio_element_metadata()) {
    if (++elems[e.audio_element_id()] > 1) return ctx.Fail("element", "twice " + std::to_string(e.audio_element_id())); if (!elem_obj.count(e.audio_element_id())) continue; const Pack& p = Packs()[d.o[elem_obj[e.audio_element_id()]].pack];
    for (auto s : e.audio_substream_ids()) if (!sids.insert(s).second) ctx.Fail("substream", "twice " + std::to_string(s));
    if (*p.layout ? e.scalable_channel_layout_config().channel_audio_layer_configs_size() != 1 || pb::LoudspeakerLayout_Name(e.scalable_channel_layout_config().channel_audio_layer_configs(0).loudspeaker_layout()) != p.layout : e.ambisonics_config().ambisonics_mono_config().output_channel_count() != p.labels.size()) ctx.Fail("layout", std::string(p.id) + ": " + e.ShortDebugString());
  }
  for (auto& [id, o] : elem_obj) if (!elems.count(id)) return ctx.Fail("element", "missing " + std::to_string(id));
  for (auto& a : m->audio_frame_metadata()) {
    if (++frames[a.audio_element_id()] > 1) return ctx.Fail("frames", "twice " + std::to_string(a.audio_element_id())); if (!elems.count(a.audio_element_id())) return ctx.Fail("frames", "for no element"); if (!elem_obj.count(a.audio_element_id())) continue;
    const int o = elem_obj[a.audio_element_id()]; const Pack& p = Packs()[d.o[o].pack]; const int n = p.labels.size();
    if (a.channel_metadatas_size() != n) return ctx.Fail("channels", std::to_string(a.channel_metadatas_size()) + " want " + std::to_string(n)); for (int k = 0; k < n; ++k) if (pb::ChannelLabel_Name(a.channel_metadatas(k).channel_label()) != std::string("CHANNEL_LABEL_") + p.labels[k] || (int)a.channel_metadatas(k).channel_id() != k) ctx.Fail("channels", a.ShortDebugString());
    if (!used.insert(a.wav_filename()).second) ctx.Fail("file", "two elements use " + a.wav_filename()); auto w = ReadWav(t.out + "/" + a.wav_filename());
    if (!w.ok || w.ch != n || w.bits != d.bits || (int)w.rate != d.rate) return ctx.Fail("file", a.wav_filename() + " for " + d.o[o].label + ": channels " + std::to_string(w.ch) + " bits " + std::to_string(w.bits) + " rate " + std::to_string(w.rate));
    Bytes exp; for (int q = 0; q < d.ticks; ++q) for (int k = 0; k < n; ++k) Le(exp, Track(c, d, o, k, q), d.bits / 8);
    if (w.data != std::string(exp.begin(), exp.end())) { size_t i = 0; while (i < w.data.size() && i < exp.size() && (uint8_t)w.data[i] == exp[i]) ++i; return ctx.Fail("samples", a.wav_filename() + " for " + d.o[o].label + ": byte " + std::to_string(i) + " of " + std::to_string(w.data.size()) + ", want " + std::to_string(exp.size())); }
    ctx.Validated();
  }
  for (auto& [id, o] : elem_obj) if (!frames.count(id)) return ctx.Fail("frames", "missing for " + std::to_string(id));
  if (!fs::is_empty(t.tmp)) ctx.Fail("temporary", "files left behind");
  ctx.State(vh::Fnv(m->SerializeAsString())); ctx.Outcome(vh::Fnv(Show(got)));
  // --- through the file encoder and the decoder ----------------------------------------
  if (most > (d.enhanced ? 28 : 18)) { ctx.Count("too many channels for the profile"); return; }
  for (auto& q : mixes) for (int o : q.os) if (Packs()[d.o[o].pack].kind < 0) return;
  auto st = iamf_tools::TestMain(*m, t.out, t.d + "/iamf"); if (!st.ok()) return ctx.Fail("encode", std::string(st.message()));
  const std::string b = Slurp(t.d + "/iamf/p.iamf"); for (auto& [id, o] : elem_obj) c.s.elems[o].id = id; c.s.mixes = mx; Plan(c);
  for (auto& x : c.s.mixes) for (int l : x.layouts) {
    bool bin = false; for (auto& e : x.es) bin |= Packs()[d.o[elem_obj[e.id]].pack].kind == st::kBinaural; if (l == 100 || (bin && l)) continue;  // binaural elements are only played back in stereo
    dec::api::IamfDecoder::Settings set; set.requested_mix.mix_presentation_id = x.id; set.requested_mix.output_layout = dec::ApiLayout(l); auto r = dec::Standalone(Bytes(b.begin(), b.end()), set, {}, dec::kDrainAtEnd); if (!r.ok) { ctx.Fail("decode", "mix " + std::to_string(x.id) + " layout " + std::to_string(l) + ": " + r.err); continue; }
    Bytes pcm; for (auto& u : r.tus) pcm.insert(pcm.end(), u.begin(), u.end()); st::Pcm w; for (size_t i = 0; i < c.frames; ++i) { auto q = st::Render(c.s, x, l, i); w.insert(w.end(), q.begin(), q.end()); }
    auto e = dec::Compare(w, pcm, l, false, false, 4096); if (!e.empty()) ctx.Fail("roundtrip", "mix " + std::to_string(x.id) + " layout " + std::to_string(l) + ": " + e); ctx.Validated(c.frames);
  }
}
Doc Build(Chooser& c) {
  Doc d; static const std::vector<std::vector<std::string>> ids = {{"AO_1001", "AO_1002", "AO_1003"}, {"AO_1003", "AO_1002", "AO_1001"}, {"AO_1002", "AO_1003", "AO_1001"}, {"z", "Y", "1"}};
  const auto& id = c.alt(ids); const int np = Packs().size(); for (int i = 0; i < 3; ++i) { Obj o; o.id = id[i]; o.label = std::string("label ") + "ABC"[i]; o.pack = (i + c(np)) % np; d.o.push_back(o); }
  for (auto& o : d.o) { o.importance = c.alt({-1, 4, 0, 10}); o.gain = c.alt<const char*>({nullptr, "-6.5", "1.25", "0", "-0.00390625", "12.5"}); }
  d.threshold = c.alt({0, 5, 10, 11, -3, 4});
  auto P = [&](std::vector<std::vector<std::vector<int>>> v) { for (auto& x : v) { Prog p; p.contents = x; d.p.push_back(p); } };
  switch (c(17)) {
    case 0: P({{{0, 1}}}); break; case 1: P({{{0}, {1}}}); break; case 2: P({{{1, 0}}}); break; case 3: P({{{0, 1}}, {{1}}}); break; case 4: P({{{1}}, {{0, 1}}}); break; case 5: P({{{0, 1, 2}}, {{0}}}); break;
    case 6: P({{{0}}, {{2, 1, 0}}}); break; case 7: break; case 8: P({{{0, 1}}}); d.o[0].comp = {1}; break; case 9: P({{{0, 2}}}); d.o[0].comp = {1}; break; case 10: P({{{2}}}); break; case 11: P({{{0}, {1, 2}}}); d.o[0].comp = {1, 2}; break;
    case 12: P({{{2, 0}}, {{1}}}); d.o[2].comp = {1}; break; case 13: P({{{0, 1, 2}}}); d.o[1].comp = {2}; break; case 14: P({{{0, 1}}}); d.o[0].comp = {2}; break; case 15: P({{{2}}, {{1}}, {{0}}}); break; case 16: P({{{2}, {0}}, {{0}, {1}}, {{1}}}); break;
  }
  const int l = c(5); for (size_t i = 0; i < d.p.size(); ++i) { auto& p = d.p[i]; if (l == 1) p.loud = i ? "-10.25" : "-23.5"; if (l == 2) p.peak = i ? "-1.5" : "-3"; if (l == 3) p.dialogue = i ? "0.5" : "-27.75"; if (l == 4) { p.loud = "-5.125"; if (i == 0) { p.peak = "1"; p.dialogue = "-6"; } } }
  d.bits = c.alt({16, 24, 32}); d.rate = c.alt({48000, 44100, 16000, 96000}); d.ms = c.alt({10, 20, 1, 3}); d.ticks = c.alt({1000, 0, 1, 480, 683, 2049, 4100}); d.order = c(4); d.style = c.alt({0, 1, 2, 3, 7}); d.enhanced = c.flag();
  return d;
}
// --- scenes of objects and beds (panned to third-order ambisonics) --------------------
struct Pos { double x, y, z; };
struct Blk { int at_us, dur_us; Pos p; };  // in microseconds; dur < 0: not given
struct Chan { std::string name; std::vector<Blk> b; };
struct Scene { std::vector<std::vector<Chan>> objs; int rate = 48000, ticks = 480; bool enhanced = false; int progs = 1, style = 0; };
std::string Time(int us) { char b[32]; snprintf(b, sizeof b, "%02d:%02d:%02d.%05d", us / 1000000 / 3600, us / 1000000 / 60 % 60, us / 1000000 % 60, us % 1000000 / 10); return b; }
std::string SceneXml(const Scene& s) {
  std::string x = "<?xml version=\"1.0\"?><ebuCoreMain><audioFormatExtended>"; const std::string nl = s.style ? "\n" : "";
  for (int p = 0; p < s.progs; ++p) { x += nl + "<audioProgramme audioProgrammeID=\"APR_100" + std::to_string(p + 1) + "\"><audioContentIDRef>ACO_1001</audioContentIDRef><loudnessMetadata><integratedLoudness>-2" + std::to_string(p) + "</integratedLoudness></loudnessMetadata></audioProgramme>"; }
  x += "<audioContent audioContentID=\"ACO_1001\">"; for (size_t o = 0; o < s.objs.size() && o < 2; ++o) x += nl + "<audioObjectIDRef>AO_" + std::to_string(1001 + o) + "</audioObjectIDRef>"; x += "</audioContent>"; std::string packs, chans; int t = 1;
  for (size_t o = 0; o < s.objs.size(); ++o) {
    const bool bed = s.objs[o].size() > 1; const std::string ty = bed ? "0001" : "0003", pk = "AP_" + ty + std::to_string(1001 + o);
    x += nl + "<audioObject audioObjectID=\"AO_" + std::to_string(1001 + o) + "\"><audioPackFormatIDRef>" + pk + "</audioPackFormatIDRef>"; packs += nl + "<audioPackFormat audioPackFormatID=\"" + pk + "\" typeLabel=\"" + ty + "\">";
    for (size_t k = 0; k < s.objs[o].size(); ++k, ++t) {
      char b[64]; snprintf(b, sizeof b, "ATU_%08x", t); x += std::string("<audioTrackUIDRef>") + b + "</audioTrackUIDRef>"; snprintf(b, sizeof b, "AC_%s%04d", ty.c_str(), 1000 + t); packs += std::string("<audioChannelFormatIDRef>") + b + "</audioChannelFormatIDRef>";
      chans += nl + "<audioChannelFormat audioChannelFormatID=\"" + b + "\" audioChannelFormatName=\"" + s.objs[o][k].name + "\">"; int n = 0;
      for (auto& q : s.objs[o][k].b) { chans += nl + "<audioBlockFormat audioBlockFormatID=\"AB_" + std::to_string(++n) + "\" rtime=\"" + Time(q.at_us) + "\"" + (q.dur_us >= 0 ? " duration=\"" + Time(q.dur_us) + "\"" : "") + "><cartesian>1</cartesian>"; const char* ax[] = {"X", "Y", "Z"}; const double v[] = {q.p.x, q.p.y, q.p.z}; for (int i = 0; i < 3; ++i) { snprintf(b, sizeof b, "%.6f", v[i]); chans += nl + "<position coordinate=\"" + ax[i] + "\">" + b + "</position>"; } chans += "</audioBlockFormat>"; }
      chans += "</audioChannelFormat>";
    }
    x += "</audioObject>"; packs += "</audioPackFormat>";
  }
  return x + packs + chans + "</audioFormatExtended></ebuCoreMain>";
}
// Real spherical harmonics, ACN order, SN3D, up to order 3, of a direction (front, left, up).
void Sh(double x, double y, double z, double* o) {
  const double s3 = std::sqrt(3.0), s15 = std::sqrt(15.0), s6 = std::sqrt(6.0), s10 = std::sqrt(10.0);
  o[0] = 1; o[1] = y; o[2] = z; o[3] = x; o[4] = s3 * x * y; o[5] = s3 * y * z; o[6] = (3 * z * z - 1) / 2; o[7] = s3 * x * z; o[8] = s3 / 2 * (x * x - y * y);
  o[9] = s10 / 4 * y * (3 * x * x - y * y); o[10] = s15 * x * y * z; o[11] = s6 / 4 * y * (5 * z * z - 1); o[12] = z * (5 * z * z - 3) / 2; o[13] = s6 / 4 * x * (5 * z * z - 1); o[14] = s15 / 2 * z * (x * x - y * y); o[15] = s10 / 4 * x * (x * x - 3 * y * y);
}
int32_t SceneSample(int ch, int t) { uint32_t h = (uint32_t)(t + 1) * 2654435761u ^ (uint32_t)(ch + 3) * 40503u; h ^= h >> 15; h *= 0x85ebca6bu; h ^= h >> 13; return (int32_t)(h & 0xfffff) - 0x80000; }  // at most 1/16 of full scale
Bytes SceneFile(const Scene& s) {
  int n = 0; for (auto& o : s.objs) n += o.size(); Bytes data; for (int t = 0; t < s.ticks; ++t) for (int c = 0; c < n; ++c) Le(data, (uint32_t)SceneSample(c, t), 3);
  return File({{{"fmt ", Fmt(n, s.rate, 24)}, {"data", data}, {"axml", Raw(SceneXml(s))}, {"dbmd", Bytes(4, 0)}}});
}
void RunScene(Ctx& ctx, const Scene& s) {
  Tmp t; std::vector<Chan> ch; for (auto& o : s.objs) for (auto& c : o) ch.push_back(c); const Bytes file = SceneFile(s);
  std::vector<int> pan, lfe; for (size_t i = 0; i < ch.size(); ++i) (s.enhanced && ch[i].name == "RoomCentricLFE" && lfe.size() < 12 ? lfe : pan).push_back(i);
  auto m = Convert(t, file, 10, 0, s.enhanced); ctx.Transitions(s.ticks); ctx.Outcome(m.ok());
  const int ne = 1 + lfe.size(); if ((int)s.objs.size() < ne) { ctx.Count("more LFE channels than objects"); return; } if (!m.ok()) return ctx.Fail("scene-refused", std::string(m.status().message()));
  if (m->audio_element_metadata_size() != std::min(ne, 2) || m->audio_frame_metadata_size() != m->audio_element_metadata_size() || m->mix_presentation_metadata_size() != s.progs) return ctx.Fail("scene-metadata", std::to_string(m->audio_element_metadata_size()) + " elements, " + std::to_string(m->mix_presentation_metadata_size()) + " mixes");
  std::map<uint64_t, bool> is_lfe; for (auto& e : m->audio_element_metadata()) { const bool hoa = e.audio_element_type() == pb::AUDIO_ELEMENT_SCENE_BASED; is_lfe[e.audio_element_id()] = !hoa; if (hoa ? e.ambisonics_config().ambisonics_mono_config().output_channel_count() != 16 : e.scalable_channel_layout_config().channel_audio_layer_configs(0).expanded_loudspeaker_layout() != pb::EXPANDED_LOUDSPEAKER_LAYOUT_LFE) ctx.Fail("scene-layout", e.ShortDebugString()); }
  std::set<std::string> named;
  for (auto& a : m->audio_frame_metadata()) { const bool l = is_lfe[a.audio_element_id()]; named.insert(a.wav_filename()); auto w = ReadWav(t.out + "/" + a.wav_filename()); if (!w.ok || w.ch != (l ? 1 : 16) || w.bits != 24 || (int)w.rate != s.rate || (int)w.data.size() != s.ticks * 3 * w.ch || a.channel_metadatas_size() != w.ch) { ctx.Fail("scene-file", a.wav_filename() + ": " + std::to_string(w.ch) + " channels, " + std::to_string(w.data.size()) + " bytes"); continue; }
    auto get = [&](int q, int c) { const size_t p = (q * w.ch + c) * 3; return (int32_t)((uint32_t)((uint8_t)w.data[p] | (uint8_t)w.data[p + 1] << 8 | (uint8_t)w.data[p + 2] << 16) << 8) >> 8; };
    if (l) { for (int q = 0; q < s.ticks; ++q) if (get(q, 0) != SceneSample(lfe[0], q)) { ctx.Fail("scene-lfe", "tick " + std::to_string(q)); break; } continue; }
    // The coefficients of every channel and block, then every tick; at a boundary that is
    // not (or only just) on a sample either block may still apply.
    std::vector<std::vector<std::array<double, 16>>> co(ch.size()); for (int c : pan) for (auto& b : ch[c].b) { std::array<double, 16> k; const double r = std::sqrt(b.p.x * b.p.x + b.p.y * b.p.y + b.p.z * b.p.z); if (r > 0) Sh(b.p.y / r, -b.p.x / r, b.p.z / r, k.data()); else Sh(1, 0, 0, k.data()); for (auto& v : k) v /= std::max(r, 0.5); co[c].push_back(k); }
    bool bad = false; for (int q = 0; q < s.ticks && !bad; ++q) {
      std::vector<std::vector<int>> sets = {{}}; bool first = true; std::vector<std::vector<int>> choice; for (int c : pan) { std::vector<int> may; for (size_t k = 0; k < ch[c].b.size(); ++k) { const double a = k ? ch[c].b[k].at_us * 1e-6 * s.rate : -1e9, e = k + 1 < ch[c].b.size() ? ch[c].b[k + 1].at_us * 1e-6 * s.rate : 1e18; if (q >= a - 1.001 && q < e + 0.001) may.push_back(k); } choice.push_back(may); } (void)first;
      for (auto& may : choice) { std::vector<std::vector<int>> n; for (auto& x : sets) for (int k : may) { n.push_back(x); n.back().push_back(k); } sets = n; }
      std::string why; bool ok = false; for (auto& x : sets) { ok = true; for (int c = 0; c < 16; ++c) { double w0 = 0; for (size_t i = 0; i < pan.size(); ++i) w0 += co[pan[i]][x[i]][c] * SceneSample(pan[i], q); if (w0 = std::clamp(w0, -8388608.0, 8388607.0); std::fabs(w0 - get(q, c)) > 3 + pan.size() / 4) { ok = false; if (why.empty()) why = "tick " + std::to_string(q) + " ACN " + std::to_string(c) + ": " + std::to_string(get(q, c)) + " want " + std::to_string(w0); break; } } if (ok) break; }
      if (!ok) { bad = true; ctx.Fail("scene-panning", why); }
    }
    ctx.Validated(s.ticks);
  }
  std::set<std::string> files, want; for (auto& e : fs::directory_iterator(t.out)) files.insert(e.path().filename().string()); for (int i = 0; i < ne; ++i) want.insert("p_converted" + std::to_string(i + 1) + ".wav");
  if (files != want) { std::string f; for (auto& x : files) f += x + " "; ctx.Fail("scene-files", f); } if (!fs::is_empty(t.tmp)) ctx.Fail("temporary", "files left behind");
  for (size_t i = 0; i < lfe.size(); ++i) { auto w = ReadWav(t.out + "/p_converted" + std::to_string(i + 2) + ".wav"); Bytes e; for (int q = 0; q < s.ticks; ++q) Le(e, (uint32_t)SceneSample(lfe[i], q), 3); if (!w.ok || w.ch != 1 || w.bits != 24 || w.data != std::string(e.begin(), e.end())) { ctx.Fail("scene-lfe", "file of LFE " + std::to_string(i)); break; } }
  if (s.ticks > 1000000) return;
  for (auto& q : m->mix_presentation_metadata()) if (q.sub_mixes(0).audio_elements_size() != m->audio_element_metadata_size()) ctx.Fail("scene-mix", q.ShortDebugString());
  auto st = iamf_tools::TestMain(*m, t.out, t.d + "/iamf"); if (!st.ok()) return ctx.Fail("scene-encode", std::string(st.message())); ctx.State(vh::Fnv(Slurp(t.d + "/iamf/p.iamf")));
}
Scene BuildScene(Chooser& c) {
  Scene s; static const std::vector<Pos> ps = {{0, 1, 0}, {1, 0, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {0.5, 0.5, 0.25}, {-0.7, 0.3, -0.9}, {0, 0, 0}, {0.1, 0.2, 0.05}, {-1, -1, 1}};
  const int shape = c(14); auto obj = [] { return std::vector<Chan>{{"Obj", {}}}; }; auto bed = [](std::initializer_list<const char*> n) { std::vector<Chan> v; for (auto x : n) v.push_back({std::string("RoomCentric") + x, {}}); return v; }; auto b51 = [&] { return bed({"Left", "Right", "Center", "LFE", "LeftSurround", "RightSurround"}); };
  switch (shape) { case 0: s.objs = {obj()}; break; case 1: s.objs = {obj(), obj()}; break; case 2: s.objs = {bed({"Left", "Right"}), obj()}; break; case 3: s.objs = {b51(), obj()}; break; case 4: s.objs = {obj(), b51()}; break; case 5: s.objs = {b51(), obj(), obj()}; break; case 6: s.objs = {b51()}; break; case 7: s.objs = {b51(), b51(), obj()}; break;
    case 8: s.objs = {bed({"Left", "Right", "Center"}), obj()}; break; case 9: s.objs = {obj(), bed({"Left", "Right", "Center", "LeftSurround", "RightSurround"})}; break; case 10: s.objs = {bed({"Left", "Right", "Center", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround"})}; break;
    case 11: s.objs = {obj(), bed({"Left", "Right", "Center", "LFE", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround"}), obj()}; break; case 12: s.objs = {bed({"Left", "Right", "Center", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround", "LeftTopSurround", "RightTopSurround"}), obj()}; break;
    case 13: s.objs = {bed({"Left", "Right", "Center", "LFE", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround", "LeftTopSurround", "RightTopSurround"}), obj()}; break; }
  s.rate = c.alt({48000, 96000}); s.ticks = c.alt({480, 1, 255, 256, 257, 1000, 1440, 3000}); s.enhanced = c.flag(); s.progs = c.alt({1, 2}); s.style = c(2);
  const int total = (int)((int64_t)s.ticks * 1000000 / s.rate); const int total10 = total / 10 * 10;
  int i = 0; const int p0 = c((int)ps.size()), tl = c(9), tl2 = c(4);
  for (auto& o : s.objs) for (auto& k : o) {
    auto pos = [&](int n) { return ps[(i + p0 + 3 * n) % ps.size()]; }; int f = (i == 0 || tl2 == 1) ? tl : tl2 == 2 ? (tl + 3 * i) % 9 : tl2 == 3 ? (i == 1 ? tl : 0) : 0;
    auto cut = [&](std::vector<int> at) { std::erase_if(at, [](int a) { return a <= 0; }); at.insert(at.begin(), 0); while (at.size() > 1 && at.back() >= total10 - 20) at.pop_back(); for (size_t n = 0; n < at.size(); ++n) k.b.push_back({at[n], (n + 1 < at.size() ? at[n + 1] : total10) - at[n], pos(n)}); };
    switch (f) { case 0: k.b.push_back({0, -1, pos(0)}); break; case 1: cut({}); break; case 2: cut({total / 20 * 10}); break; case 3: cut({1000, 2000, 3000}); break; case 4: cut({1010, 1050}); break; case 5: cut({total10 - 100}); break; case 6: cut({30, 60, 90}); break; case 7: cut({total / 30 * 10, total / 30 * 20}); break; case 8: cut({5330, 5340}); break; }
    ++i;
  }
  return s;
}
// --- damaged files --------------------------------------------------------------------
Doc BaseDoc() { Chooser c(0); Doc d = Build(c); d.ticks = 20; d.o[0].comp = {2}; d.o[0].gain = "-1"; d.o[1].importance = 7; d.p[0].loud = "-20"; d.p[0].peak = "-1"; d.style = 2; return d; }
Scene BaseScene() { Chooser c(0); Scene s = BuildScene(c); s.objs.clear(); s.ticks = 96; s.objs.push_back({{"RoomCentricLeft", {{0, 1000, {0, 1, 0}}, {1000, 1000, {1, 0, 0}}}}, {"RoomCentricRight", {{0, -1, {1, 0, 0}}}}, {"RoomCentricCenter", {{0, -1, {0, 1, 0}}}}, {"RoomCentricLFE", {{0, -1, {0, 0, 1}}}}, {"RoomCentricLeftSurround", {{0, -1, {-1, 0, 0}}}}, {"RoomCentricRightSurround", {{0, -1, {1, -1, 0}}}}}); s.objs.push_back({{"Obj", {{0, 2000, {0.5, 0, 0}}}}}); return s; }
void Hurt(Ctx& ctx, const Bytes& f, bool enhanced, int thr = 0, int ms = 10) { Tmp t; auto m = Convert(t, f, ms, thr, enhanced); ctx.Transitions(1); ctx.Outcome(vh::Fnv(m.ok() ? m->SerializeAsString() : std::string(m.status().message()))); ctx.Count(m.ok() ? "damaged: converted" : "damaged: refused"); if (m.ok()) for (auto& a : m->audio_frame_metadata()) if (!ReadWav(t.out + "/" + a.wav_filename()).ok) ctx.Fail("damaged", a.wav_filename() + " is not a WAV file"); }
size_t At(const Bytes& f, const std::string& id) { size_t at = 12; while (at + 8 <= f.size() && std::string(f.begin() + at, f.begin() + at + 4) != id) { uint32_t n = f[at + 4] | f[at + 5] << 8 | f[at + 6] << 16; at += 8 + n + n % 2; } return at; }  // where the chunk starts
struct Piece { size_t a, b; };
// Everything in a document that can be taken out or replaced: elements, texts, attributes, values.
void Pieces(const std::string& x, std::vector<Piece>& cut, std::vector<Piece>& val) {
  std::vector<std::pair<std::string, size_t>> open;
  for (size_t i = 0; i < x.size();) {
    if (x[i] != '<') { size_t j = x.find('<', i); if (j == std::string::npos) break; val.push_back({i, j}); i = j; continue; }
    size_t j = x.find('>', i) + 1; if (x[i + 1] == '?' || x[i + 1] == '!') { i = j; continue; }
    if (x[i + 1] == '/') { cut.push_back({open.back().second, j}); open.pop_back(); i = j; continue; }
    open.push_back({"", i}); for (size_t q = x.find(' ', i); q != std::string::npos && q < j;) { size_t e = x.find('"', q), e2 = x.find('"', e + 1); if (e >= j) break; cut.push_back({q, e2 + 1}); val.push_back({e + 1, e2}); q = x.find(' ', e2); }
    i = j;
  }
}
void Damage(Ctx& ctx) {
  const Doc d = BaseDoc(); const Cfg c = Source(d); const Scene s = BaseScene();
  for (int base = 0; base < 3; ++base) {  // 0: objects of common layouts; 1, 2: scene, base and enhanced
    const bool enh = base == 2; const Bytes whole = base ? SceneFile(s) : DocFile(d, c); const std::string xml = base ? SceneXml(s) : Xml(d); const std::string nm = "damage:" + std::to_string(base) + ":";
    const size_t dat = At(whole, "data"); const uint32_t dn = whole[dat + 4] | whole[dat + 5] << 8 | whole[dat + 6] << 16; const Bytes data(whole.begin() + dat + 8, whole.begin() + dat + 8 + dn); const size_t fm = At(whole, "fmt "); const Bytes fmt(whole.begin() + fm + 8, whole.begin() + fm + 24);
    auto make = [&](const std::string& x, const Bytes* fm2 = nullptr, const Bytes* dt2 = nullptr) { Chunks k; k.c = {{"fmt ", fm2 ? *fm2 : fmt}, {"data", dt2 ? *dt2 : data}, {"axml", Raw(x)}}; if (base) k.c.push_back({"dbmd", Bytes(4, 0)}); return File(k); };
    std::vector<Piece> cut, val; Pieces(xml, cut, val); static const char* vals[] = {"", "x", "-1", "0", "11", "nan", "1e40", "99999999999", "AO_1001", "AO_1002", "AP_00040003", "AP_0003", "AP_00031001", "00:00:00.00100", "99:59:59.99999", "-1:00:00", "RoomCentricLFE", "AC_00031007", "Z"};
    for (size_t i = 0; i < cut.size(); ++i) { if (ctx.Mine(nm + "cut:" + std::to_string(i))) { std::string x = xml; x.erase(cut[i].a, cut[i].b - cut[i].a); Hurt(ctx, make(x), enh); std::string y = xml; y.insert(cut[i].b, xml.substr(cut[i].a, cut[i].b - cut[i].a)); Hurt(ctx, make(y), enh); }
      // Two pieces taken out.
      for (size_t j = i + 1; j < cut.size(); ++j) { if (cut[j].a < cut[i].b && !(cut[j].a <= cut[i].a)) continue; if (cut[j].a <= cut[i].a && cut[j].b >= cut[i].b) continue; if (!ctx.thorough && (i * 31 + j) % 8) continue; if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine(nm + "cut2:" + std::to_string(i) + "," + std::to_string(j))) continue; std::string x = xml; x.erase(cut[j].a, cut[j].b - cut[j].a); x.erase(cut[i].a, cut[i].b - cut[i].a); Hurt(ctx, make(x), enh); } }
    for (size_t i = 0; i < val.size(); ++i) for (size_t v = 0; v < std::size(vals); ++v) { if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine(nm + "value:" + std::to_string(i) + "," + std::to_string(v))) continue; std::string x = xml; x.replace(val[i].a, val[i].b - val[i].a, vals[v]); Hurt(ctx, make(x), enh); }
    // The file: every prefix, every byte of the chunk headers and of the format.
    for (size_t n = 0; n < whole.size(); n += 1 + (!ctx.thorough && n > 60 && n + 60 < whole.size()) * 6) { if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (ctx.Mine(nm + "prefix:" + std::to_string(n))) Hurt(ctx, Bytes(whole.begin(), whole.begin() + n), enh); }
    for (int ch : {0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 20, 65535}) for (int bits : {0, 1, 8, 15, 16, 24, 32, 64, 65535}) if (ctx.Mine(nm + "fmt:" + std::to_string(ch) + "," + std::to_string(bits))) for (uint32_t rate : {48000u, 96000u, 1u, 0u, 0xffffffffu}) { Bytes f2 = Fmt(ch, rate, bits); Hurt(ctx, make(xml, &f2), enh); }
    for (int extra = -40; extra <= 40; ++extra) if (ctx.Mine(nm + "data:" + std::to_string(extra))) { Bytes d2 = data; d2.resize(std::max(0, (int)d2.size() + extra), 7); Hurt(ctx, make(xml, nullptr, &d2), enh); Hurt(ctx, make(xml, nullptr, &d2), enh, 8); }
    if (ctx.Mine(nm + "chunks")) { Hurt(ctx, make(xml), enh, 0, 0); Hurt(ctx, make(xml), enh, 0, -5); Hurt(ctx, make(xml), enh, 0, 0x7fffffff); Hurt(ctx, make(""), enh); for (int a = 0; a < 3; ++a) for (uint32_t size : {0u, 1u, 2u, 15u, 16u, 17u, 40u, 0x7fffffffu, 0x80000000u, 0xfffffff8u, 0xffffffffu}) { Bytes f = make(xml); const char* id[] = {"fmt ", "data", "axml"}; const size_t at = At(f, id[a]); for (int k = 0; k < 4; ++k) f[at + 4 + k] = size >> (8 * k); Hurt(ctx, f, enh); } for (int a = 0; a < 3; ++a) { Bytes f = make(xml); const char* id[] = {"fmt ", "data", "axml"}; const size_t at = At(f, id[a]); f[at] ^= 1; Hurt(ctx, f, enh); } }
    if (ctx.Mine(nm + "unwritable")) { Tmp t; fs::remove_all(t.out); auto m = Convert(t, make(xml), 10, 0, enh); if (m.ok()) ctx.Fail("unwritable", "success without an output directory"); Tmp t2; if (base) { fs::remove_all(t2.tmp); setenv("TMPDIR", t2.tmp.c_str(), 1); try { auto m2 = Convert(t2, make(xml), 10, 0, enh); if (m2.ok()) ctx.Fail("unwritable", "success without a temporary directory"); } catch (const fs::filesystem_error&) { ctx.Fail("unwritable", "exception"); } } }
    // A disk that fills up: no file grows beyond a limit.
    for (int lim = 0; lim < (base ? 7000 : 400); lim += ctx.thorough ? 1 : base ? 60 : 3) { if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine(nm + "full:" + std::to_string(lim))) continue; const Bytes f = make(xml); Tmp t; auto ok = Convert(t, f, 10, 0, enh); if (!ok.ok()) { ctx.Fail("full", "base refused"); continue; } std::map<std::string, std::string> want; size_t big = 0; for (auto& a : ok->audio_frame_metadata()) { want[a.wav_filename()] = Slurp(t.out + "/" + a.wav_filename()); big = std::max(big, want[a.wav_filename()].size()); } Tmp t2; auto m = Convert(t2, f, 10, 0, enh, lim); ctx.Transitions(1); if ((size_t)lim < big && m.ok()) ctx.Fail("full", "success although a file of " + std::to_string(big) + " bytes did not fit"); if (m.ok()) for (auto& [n, b] : want) if (Slurp(t2.out + "/" + n) != b) ctx.Fail("full", n + " differs"); ctx.Count(m.ok() ? "full: fits" : "full: refused"); }
  }
}
void Body(Ctx& ctx) {
  const int dev = ctx.thorough ? 3 : 2; Chooser c(dev);
  do { if (!ctx.NextIsMine()) { Build(c); ctx.Skip(); continue; } Doc d = Build(c); if (ctx.Mine("doc:" + c.Name())) RunDoc(ctx, d); } while (c.Next());
  Chooser s(ctx.thorough ? 4 : 3);
  do { if (!ctx.NextIsMine()) { BuildScene(s); ctx.Skip(); continue; } Scene x = BuildScene(s); if (ctx.Mine("scene:" + s.Name())) RunScene(ctx, x); } while (s.Next());
  // Beds with up to 14 LFE channels, of which 12 can be kept apart.
  for (int n = 1; n <= 14; ++n) for (int ticks : {1, 300}) for (int at = 0; at < 2; ++at) { if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine("lfe:" + std::to_string(n) + "," + std::to_string(ticks) + "," + std::to_string(at))) continue; Chooser k(0); Scene x = BuildScene(k); auto obj = x.objs[0]; std::vector<Chan> bed; for (const char* l : {"Left", "Right", "Center", "LFE", "LeftSurround", "RightSurround"}) { bed.push_back(obj[0]); bed.back().name = std::string("RoomCentric") + l; bed.back().b[0].p = {0.1 * bed.size(), 0.3, 0}; } x.objs.assign(n, bed); x.objs.insert(at ? x.objs.begin() : x.objs.end(), obj); x.enhanced = true; x.ticks = ticks; RunScene(ctx, x); }
  // Positions that change after more than a minute.
  for (int k = 0; k < (ctx.thorough ? 4 : 1); ++k) { if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine("long:" + std::to_string(k))) continue; Chooser z(0); Scene x = BuildScene(z); x.ticks = 48000 * (61 + k); auto& b = x.objs[0][0].b; const int cut = 60 * 1000000 + 500000 * k; b = {{0, cut, {0, 1, 0}}, {cut, x.ticks / 48 * 1000 - cut, {1, 0, 0}}}; RunScene(ctx, x); }
  Damage(ctx);
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C20"; s.case_timeout_s = 60; s.min_cases = 1000; s.min_outcomes = 20;
  s.rule = "ADM documents of three audio objects, every choice of 17 dimensions (ids, layouts, importance, gains, programmes and complementary objects, loudness, bit depth, rate, frame size, length, chunk order, XML style, profile) with up to 2 (thorough 3) deviations from a base document; scenes of beds and objects with up to 3 (thorough 4) deviations in 10 dimensions; single and paired damage to the document, all prefixes, format and chunk fields. WAV files, metadata and the decoded mixes are predicted bit by bit (panning within 3 steps of 24 bits).";
  s.assumptions = {"the third-party WAV header writer is a stand-in with the layout of the real one", "objects reference tracks in the order of the tracks in the file, channel formats are listed in track order"};
  return vh::Run(argc, argv, s, Body);
}
