// Drives the public encoder API (iamf_encoder_factory.h) from a configuration
// whose exact output is predicted with stream.h.
#pragma once
#include <functional>
#include "stream.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf/include/iamf_tools/iamf_encoder_factory.h"
#include "iamf/include/iamf_tools/iamf_encoder_interface.h"
#include "iamf/include/iamf_tools/iamf_tools_encoder_api_types.h"

namespace enc {
namespace pb = iamf_tools_cli_proto;
namespace api = iamf_tools::api;
using gram::Bytes;
enum Codec { kLpcm, kOpus, kFlac, kAac };
struct Arb { int hook; int64_t tick; int type; Bytes payload; bool invalid = false; bool red = false; };
struct Cfg {
  st::Stream s;               // elements, mixes, format; tus are filled by Plan()
  Codec codec = kLpcm;
  uint64_t samples = 0;       // input samples per channel
  uint32_t trim_start = 0, trim_end = 0; bool start_incl = true, end_incl = true;
  bool delim = true;
  std::vector<std::vector<st::Block>> blocks;  // per temporal unit
  std::vector<Arb> arbs; std::vector<Bytes> itut35;  // country, payload...
  int leb = 0;                // 0 minimal, else fixed size
  std::vector<int> elem_perm, mix_perm_unused;  // order of the elements in the metadata
  std::vector<Codec> ecodec;  // codec of each element, when they differ (codec config 200 + codec)
  // --- filled by Plan() ---
  uint32_t delay = 0; uint64_t frames = 0; bool valid = true; std::string why;
};
inline uint32_t Delay(Codec c) { return c == kOpus ? 312 : c == kAac ? 2048 : 0; }
// The temporal units the encoder must make, or that it has to refuse.
inline void Plan(Cfg& c) {
  auto& s = c.s; c.delay = c.ecodec.empty() ? Delay(c.codec) : 0; for (auto k : c.ecodec) c.delay = std::max(c.delay, Delay(k)); c.valid = true; c.why = "";
  auto bad = [&](const char* w) { c.valid = false; if (c.why.empty()) c.why = w; };
  if (c.trim_end > s.n) bad("end trim exceeds a frame");
  if (c.start_incl && c.trim_start < c.delay) bad("start trim below the codec delay");
  const uint64_t total = c.samples ? c.delay + c.samples : 0; c.frames = (total + s.n - 1) / s.n;
  const uint64_t pad = c.frames * s.n - total; uint64_t left = c.trim_start + (c.start_incl ? 0 : c.delay), end = c.trim_end + (c.end_incl ? 0 : pad);
  if (c.frames && c.end_incl && c.trim_end < pad) bad("end trim does not cover the padding");
  if (c.frames && end > s.n) bad("end trim exceeds a frame");
  s.tus.assign(c.frames, {}); s.zero_to = c.delay; s.zero_from = total;
  for (uint64_t i = 0; i < c.frames; ++i) {
    auto& u = s.tus[i]; u.trim_start = std::min<uint64_t>(s.n, left); left -= u.trim_start; u.delim = c.delim; if (i + 1 == c.frames) u.trim_end = end;
    if (u.trim_start + u.trim_end > s.n) bad("trims overlap");
    if (i < c.blocks.size()) { u.blocks = c.blocks[i]; std::sort(u.blocks.begin(), u.blocks.end(), [](auto& a, auto& b) { return a.id < b.id; }); }
  }
}
inline std::vector<std::string> Labels(st::Kind k) {
  switch (k) {
    case st::kMono: return {"MONO"}; case st::kStereo: case st::kBinaural: return {"L_2", "R_2"};
    case st::k51: return {"L_5", "R_5", "LS_5", "RS_5", "CENTRE", "LFE"};
    case st::k512: return {"L_5", "R_5", "LS_5", "RS_5", "LTF_2", "RTF_2", "CENTRE", "LFE"};
    case st::k514: return {"L_5", "R_5", "LS_5", "RS_5", "LTF_4", "RTF_4", "LTB_4", "RTB_4", "CENTRE", "LFE"};
    case st::k71: return {"L_7", "R_7", "LSS_7", "RSS_7", "LRS_7", "RRS_7", "CENTRE", "LFE"};
    case st::k714: return {"L_7", "R_7", "LSS_7", "RSS_7", "LRS_7", "RRS_7", "LTF_4", "RTF_4", "LTB_4", "RTB_4", "CENTRE", "LFE"};
    case st::k712: return {"L_7", "R_7", "LSS_7", "RSS_7", "LRS_7", "RRS_7", "LTF_2", "RTF_2", "CENTRE", "LFE"};
    case st::k312: return {"L_3", "R_3", "LTF_3", "RTF_3", "CENTRE", "LFE"};
    case st::kFoaMixed: return {"A_0", "A_2"};
    default: { std::vector<std::string> v; for (int i = 0; i < st::NumCh(k); ++i) v.push_back("A_" + std::to_string(i)); return v; }
  }
}
inline pb::ChannelLabel Label(const std::string& n) { pb::ChannelLabel l; if (!pb::ChannelLabel_Parse("CHANNEL_LABEL_" + n, &l)) std::abort(); return l; }
inline void SetGain(const st::Gain& g, uint32_t rate, pb::MixGainParamDefinition* p) {
  auto* d = p->mutable_param_definition(); d->set_parameter_id(g.id); d->set_parameter_rate(rate); d->set_param_definition_mode(g.mode);
  if (!g.mode) { d->set_duration(g.dur); d->set_constant_subblock_duration(g.cdur); if (!g.cdur) for (auto x : g.sub) d->add_subblock_durations(x); }
  p->set_default_mix_gain(g.def);
}
inline pb::ParameterBlockObuMetadata BlockMeta(const Cfg& c, const st::Block& b, int64_t at) {
  pb::ParameterBlockObuMetadata m; m.set_parameter_id(b.id); m.set_start_timestamp(at);
  const st::Gain* g = st::FindGain(c.s, b.id); const bool inl = g && g->mode;
  if (inl) { m.set_duration(b.dur); m.set_constant_subblock_duration(b.cdur); }
  else if (g) { m.set_duration(g->dur); m.set_constant_subblock_duration(g->cdur); }
  for (size_t i = 0; i < b.anim.size(); ++i) {
    auto* sb = m.add_subblocks(); const bool explicit_durations = inl ? !b.cdur : g && !g->cdur;
    if (explicit_durations) sb->set_subblock_duration(inl ? b.sub[i] : g->sub[i]);
    auto* p = sb->mutable_mix_gain_parameter_data()->mutable_param_data(); auto& a = b.anim[i];
    if (a.type == 0) p->mutable_step()->set_start_point_value(a.a);
    else if (a.type == 1) { p->mutable_linear()->set_start_point_value(a.a); p->mutable_linear()->set_end_point_value(a.b); }
    else { auto* z = p->mutable_bezier(); z->set_start_point_value(a.a); z->set_end_point_value(a.b); z->set_control_point_value(a.c); z->set_control_point_relative_time(a.rel); }
  }
  return m;
}
inline pb::UserMetadata Meta(const Cfg& c) {
  const auto& s = c.s; pb::UserMetadata u;
  u.mutable_encoder_control_metadata()->set_add_build_information_tag(false);
  u.mutable_temporal_delimiter_metadata()->set_enable_temporal_delimiters(c.delim);
  if (c.leb) { auto* l = u.mutable_test_vector_metadata()->mutable_leb_generator(); l->set_mode(pb::GENERATE_LEB_FIXED_SIZE); l->set_fixed_size(c.leb); }
  auto prof = [](int p) { return (pb::ProfileVersion)(p + 1); };
  auto* h = u.add_ia_sequence_header_metadata(); h->set_primary_profile(prof(s.primary)); h->set_additional_profile(prof(s.additional));
  for (auto& b : c.itut35) { auto* m = u.add_metadata_obu_metadata()->mutable_metadata_itu_t_t35(); m->set_itu_t_t35_country_code(b[0]); m->set_itu_t_t35_payload_bytes(std::string(b.begin() + 1, b.end())); }
  for (Codec codec : c.ecodec.empty() ? std::set<Codec>{c.codec} : std::set<Codec>(c.ecodec.begin(), c.ecodec.end())) {
  auto* cc = u.add_codec_config_metadata(); cc->set_codec_config_id(c.ecodec.empty() ? 200 : 200 + codec); auto* k = cc->mutable_codec_config(); k->set_num_samples_per_frame(s.n);
  if (codec == kLpcm) { k->set_codec_id(pb::CODEC_ID_LPCM); auto* l = k->mutable_decoder_config_lpcm(); l->set_sample_format_flags(s.big ? pb::LPCM_BIG_ENDIAN : pb::LPCM_LITTLE_ENDIAN); l->set_sample_size(s.bits); l->set_sample_rate(s.rate); }
  if (codec == kOpus) { k->set_codec_id(pb::CODEC_ID_OPUS); auto* o = k->mutable_decoder_config_opus(); o->set_version(1); o->set_pre_skip(Delay(codec)); o->set_input_sample_rate(s.rate); o->mutable_opus_encoder_metadata()->set_target_bitrate_per_channel(48000); o->mutable_opus_encoder_metadata()->set_application(pb::APPLICATION_AUDIO); }
  if (codec == kFlac) { k->set_codec_id(pb::CODEC_ID_FLAC); auto* b = k->mutable_decoder_config_flac()->add_metadata_blocks(); b->mutable_header()->set_block_type(pb::FLAC_BLOCK_TYPE_STREAMINFO); auto* i = b->mutable_stream_info(); i->set_minimum_block_size(s.n); i->set_maximum_block_size(s.n); i->set_sample_rate(s.rate); i->set_bits_per_sample(s.bits - 1); i->set_total_samples_in_stream(0); k->mutable_decoder_config_flac()->mutable_flac_encoder_metadata()->set_compression_level(0); }
  if (codec == kAac) { k->set_codec_id(pb::CODEC_ID_AAC_LC); auto* a = k->mutable_decoder_config_aac(); a->mutable_decoder_specific_info()->set_sample_frequency_index(pb::AAC_SAMPLE_FREQUENCY_INDEX_48000); a->mutable_ga_specific_config(); }
  }
  std::vector<int> order = c.elem_perm; if (order.empty()) for (size_t i = 0; i < s.elems.size(); ++i) order.push_back(i);
  for (int oi : order) {
    const auto& e = s.elems[oi]; const auto& k2 = st::Info(e.kind); auto* a = u.add_audio_element_metadata(); a->set_audio_element_id(e.id); a->set_codec_config_id(c.ecodec.empty() ? 200 : 200 + c.ecodec[oi]);
    for (size_t i = 0; i < k2.sub.size(); ++i) a->add_audio_substream_ids(e.sids.empty() ? e.sid + i : e.sids[i]);
    a->set_audio_element_type(k2.layout < 0 ? pb::AUDIO_ELEMENT_SCENE_BASED : pb::AUDIO_ELEMENT_CHANNEL_BASED);
    if (k2.layout >= 0) { int cp = 0; for (int x : k2.sub) cp += x == 2; auto* l = a->mutable_scalable_channel_layout_config()->add_channel_audio_layer_configs(); l->set_loudspeaker_layout((pb::LoudspeakerLayout)(k2.layout + 1)); l->set_substream_count(k2.sub.size()); l->set_coupled_substream_count(cp); }
    else if (e.kind == st::kFoaProj) { auto* p = a->mutable_ambisonics_config()->mutable_ambisonics_projection_config(); p->set_output_channel_count(4); p->set_substream_count(3); p->set_coupled_substream_count(1); for (auto v : st::ProjMatrix()) p->add_demixing_matrix(v); }
    else { auto* p = a->mutable_ambisonics_config()->mutable_ambisonics_mono_config(); if (e.kind == st::kFoaMixed) { p->set_output_channel_count(4); p->set_substream_count(2); for (int v : {0, 255, 1, 255}) p->add_channel_mapping(v); } else { int n = st::NumCh(e.kind); p->set_output_channel_count(n); p->set_substream_count(n); for (int i = 0; i < n; ++i) p->add_channel_mapping(i); } }
    auto* f = u.add_audio_frame_metadata(); f->set_audio_element_id(e.id); f->set_samples_to_trim_at_start(c.trim_start); f->set_samples_to_trim_at_end(c.trim_end); f->set_samples_to_trim_at_start_includes_codec_delay(c.start_incl); f->set_samples_to_trim_at_end_includes_padding(c.end_incl);
    auto lab = Labels(e.kind); for (size_t i = 0; i < lab.size(); ++i) { auto* m = f->add_channel_metadatas(); m->set_channel_id(i); m->set_channel_label(Label(lab[i])); }
  }
  for (auto& m : s.mixes) {
    auto* x = u.add_mix_presentation_metadata(); x->set_mix_presentation_id(m.id); auto* sm = x->add_sub_mixes();
    for (auto& e : m.es) { auto* a = sm->add_audio_elements(); a->set_audio_element_id(e.id); a->mutable_rendering_config()->set_headphones_rendering_mode((pb::HeadPhonesRenderingMode)(e.hrm + 1)); SetGain(e.g, s.rate, a->mutable_element_mix_gain()); }
    SetGain(m.out, s.rate, sm->mutable_output_mix_gain());
    for (int l : m.layouts) { auto* y = sm->add_layouts(); auto* z = y->mutable_loudness_layout(); if (l == 100) { z->set_layout_type(pb::LAYOUT_TYPE_BINAURAL); z->mutable_reserved_or_binaural_layout(); } else { z->set_layout_type(pb::LAYOUT_TYPE_LOUDSPEAKERS_SS_CONVENTION); z->mutable_ss_layout()->set_sound_system((pb::SoundSystem)(l + 1)); } y->mutable_loudness(); }
  }
  for (auto& a : c.arbs) { auto* o = u.add_arbitrary_obu_metadata(); o->set_insertion_hook((pb::InsertionHook)a.hook); o->set_obu_type((pb::ArbitraryObuType)(a.type + 1)); o->set_payload(std::string(a.payload.begin(), a.payload.end())); if (a.tick >= 0) o->set_insertion_tick(a.tick); o->set_invalidates_bitstream(a.invalid); if (a.red) o->mutable_obu_header()->set_obu_redundant_copy(true); }
  return u;
}
// --- expected bytes (LPCM) --------------------------------------------------------
inline Bytes Arbs(const Cfg& c, int hook, int64_t tick = -1) { Bytes o; for (auto& a : c.arbs) if (a.hook == hook && (tick < 0 || a.tick == tick)) { auto b = st::Obu(a.type, a.payload, a.red); o.insert(o.end(), b.begin(), b.end()); } return o; }
// `loud`: offsets of the 4 loudness bytes of every layout, in order.
inline Bytes ExpectedDescriptors(const Cfg& c, std::vector<size_t>* loud) {
  const auto& s = c.s; Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  add(Arbs(c, 1)); add(st::SequenceHeader(s)); add(Arbs(c, 3));
  for (auto& b : c.itut35) { gram::Bits x; x.leb(1); x.bytes(b); add(st::Obu(24, x.b)); }
  add(st::CodecConfig(s)); add(Arbs(c, 4));
  std::vector<const st::Elem*> es; for (auto& e : s.elems) es.push_back(&e); std::sort(es.begin(), es.end(), [](auto a, auto b) { return a->id < b->id; });
  for (auto e : es) add(st::ElementObu(*e)); add(Arbs(c, 5));
  for (auto& m : s.mixes) { add(st::MixObu(s, m)); for (size_t i = 0; i < m.layouts.size(); ++i) if (loud) loud->push_back(o.size() - 6 * (m.layouts.size() - i) + 2); }
  add(Arbs(c, 6)); add(Arbs(c, 2)); return o;
}
inline Bytes ExpectedUnit(const Cfg& c, size_t i) {
  const auto& s = c.s; const auto& u = s.tus[i]; Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  const int64_t at = (int64_t)i * s.n;
  if (u.delim) add(st::Obu(4, {})); add(Arbs(c, 7, at)); for (auto& b : u.blocks) add(st::BlockObu(s, b)); add(Arbs(c, 8, at));
  std::vector<std::tuple<uint32_t, uint32_t, int, int>> f; for (size_t e = 0; e < s.elems.size(); ++e) for (size_t k = 0; k < st::Info(s.elems[e].kind).sub.size(); ++k) f.emplace_back(s.elems[e].id, s.elems[e].sids.empty() ? s.elems[e].sid + k : s.elems[e].sids[k], e, k);
  std::sort(f.begin(), f.end()); for (auto& [id, sid, e, k] : f) add(st::FrameObu(s, e, k, i)); add(Arbs(c, 9, at)); return o;
}
// --- driving -------------------------------------------------------------------------
struct Input {  // owns one frame of samples
  std::map<std::pair<int, std::string>, std::vector<double>> v; api::IamfTemporalUnitData data;
};
inline std::string SerLabel(const std::string& n) { pb::ChannelLabelMessage m; m.set_channel_label(Label(n)); std::string s; m.SerializeToString(&s); return s; }
// Samples [from, from+n) of the input (before the codec delay).
inline void Fill(const Cfg& c, uint64_t from, uint64_t n, Input& in, bool samples = true) {
  in.v.clear(); in.data = {};
  if (samples) for (size_t e = 0; e < c.s.elems.size(); ++e) { auto lab = Labels(c.s.elems[e].kind); for (size_t k = 0; k < lab.size(); ++k) { auto& x = in.v[{(int)e, SerLabel(lab[k])}]; for (uint64_t t = 0; t < n; ++t) x.push_back(st::Sample(c.s, e, k, from + t + c.delay) / (double)(1ll << (c.s.bits - 1))); in.data.audio_element_id_to_data[c.s.elems[e].id][SerLabel(lab[k])] = absl::MakeConstSpan(x); } }
}
inline void FillBlocks(const Cfg& c, size_t unit, Input& in) { if (unit < c.blocks.size()) for (auto& b : c.blocks[unit]) { std::string s; BlockMeta(c, b, (int64_t)unit * c.s.n).SerializeToString(&s); in.data.parameter_block_id_to_metadata[b.id] = s; } }
struct Out { bool ok = true; std::string err, where; Bytes desc0, desc; bool fin0 = false, fin = false; std::vector<Bytes> units; size_t calls = 0; uint32_t delay = 0; };
inline std::unique_ptr<api::IamfEncoderInterface> Make(const Cfg& c, std::string& err, const std::string& file = "") {
  std::string ser; Meta(c).SerializeToString(&ser);
  auto e = file.empty() ? iamf_tools::api::IamfEncoderFactory::CreateIamfEncoder(ser) : iamf_tools::api::IamfEncoderFactory::CreateFileGeneratingIamfEncoder(ser, file);
  if (!e.ok()) { err = std::string(e.status().message()); return nullptr; }
  return std::move(*e);
}
// The documented loop.
inline Out Encode(const Cfg& c, const std::string& file = "") {
  Out o; auto bad = [&](const char* w, const absl::Status& s) { if (s.ok()) return false; o.ok = false; o.where = w; o.err = std::string(s.message()); return true; };
  auto e = Make(c, o.err, file); if (!e) { o.ok = false; o.where = "create"; return o; }
  o.delay = e->GetEncoderDelay();
  if (bad("descriptors", e->GetDescriptorObus(false, o.desc0, o.fin0))) return o;
  const uint64_t nin = (c.samples + c.s.n - 1) / c.s.n; uint64_t i = 0; Bytes tu;
  if (!nin) { if (bad("finalize", e->FinalizeEncode())) return o; }
  for (; e->GeneratingTemporalUnits(); ++i) {
    if (o.calls++ > nin + c.frames + 20) { o.ok = false; o.where = "endless"; return o; }
    Input in; if (i < nin) Fill(c, i * c.s.n, std::min<uint64_t>(c.s.n, c.samples - i * c.s.n), in); else Fill(c, 0, 0, in, false);
    FillBlocks(c, i, in);
    if (bad("encode", e->Encode(in.data))) return o;
    for (auto& [k, x] : in.v) std::fill(x.begin(), x.end(), 123.0);
    if (i + 1 == nin && bad("finalize", e->FinalizeEncode())) return o;
    tu.clear(); if (bad("output", e->OutputTemporalUnit(tu))) return o;
    if (!tu.empty()) o.units.push_back(tu);
  }
  bad("descriptors", e->GetDescriptorObus(false, o.desc, o.fin)); return o;
}
inline std::vector<float> Weights(int l) {  // ITU-R BS.1770-4 tables 4 and 5
  const float S = 1.41f;
  switch (l) {
    case 1: return {1, 1, 1, 0, S, S}; case 2: return {1, 1, 1, 0, S, S, 1, 1}; case 3: return {1, 1, 1, 0, S, S, 1, 1, 1, 1}; case 4: return {1, 1, 1, 0, S, S, 1, 1, 1, 1, 1};
    case 5: return {1, 1, 1, 1, 1, S, S, 1, 1, 1, 0, 0}; case 6: return {1, 1, 1, 0, S, S, 1, 1, 1, 1, 1, 1, 1, 1};
    case 7: return {S, S, 1, 0, 1, 1, 1, 1, 1, 0, S, S, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; case 8: return {1, 1, 1, 0, S, S, 1, 1};
    case 9: return {1, 1, 1, 0, S, S, 1, 1, 1, 1, 1, 1}; case 10: return {1, 1, 1, 0, S, S, 1, 1, 1, 1}; case 11: return {1, 1, 1, 0, 1, 1}; case 12: return {1};
    case 13: return {S, S, 1, 0, 1, 1, 1, 1, S, S, 1, 1, 1, 1, 1, 1}; default: return {1, 1};
  }
}
// Loudness of the whole rendered presentation, in Q7.8, with the stand-in meter.
inline std::pair<double, double> Loudness(const Cfg& c, const st::Mix& m, int layout) {
  double en = 0, peak = 0; uint64_t n = 0; auto w = Weights(layout);
  for (size_t i = 0; i < c.s.tus.size(); ++i) { auto p = st::Render(c.s, m, layout, i); for (auto& row : p) { ++n; for (size_t q = 0; q < row.size(); ++q) { double v = row[q]; en += w[q] * v * v; peak = std::max(peak, std::fabs(v)); } } }
  if (!n || en <= 0) return {-128, -128};
  auto cl = [](double x) { return std::min(127.99609375, std::max(-128.0, x)); };
  return {cl(-0.691 + 10 * std::log10(en / n)), cl(20 * std::log10(std::max(peak, 1e-9)))};
}
}  // namespace enc
