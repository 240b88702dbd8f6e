// Drives the encoder API with audio elements of every kind described by scal.h.
#pragma once
#include "enc.h"
#include "scal.h"
extern float g_standin_opus_step;

namespace senc {
using namespace enc;
struct Cfg {
  sc::Stream s; bool opus = false, wants_override = false; uint64_t samples = 0; uint32_t trim_start = 0, trim_end = 0;
  int64_t Delay() const { return opus ? 312 : 0; }
  uint64_t Frames() const { return samples ? (samples + Delay() + s.n - 1) / s.n : 0; }
};
inline std::string ProtoLabel(const std::string& l) {
  static const std::map<std::string, std::string> m = {{"M", "MONO"}, {"C", "CENTRE"}, {"LFE", "LFE"}, {"LFE2", "LFE2"}, {"FLc", "FLC"}, {"FRc", "FRC"}, {"FC", "FC"}, {"FL", "FL"}, {"FR", "FR"}, {"SiL", "SI_L"}, {"SiR", "SI_R"}, {"BL", "BL"}, {"BR", "BR"}, {"BC", "BC"}};
  auto it = m.find(l); if (it != m.end()) return it->second;
  std::string o; for (size_t i = 0; i < l.size(); ++i) { if ((isdigit(l[i])) || (i == 2 && (l[0] == 'T' || l[0] == 'B') && islower(l[1])) || (i == 4 && l.substr(0, 4) == "TpSi")) o += '_'; o += (char)toupper(l[i]); } return o;
}
// Labels of the samples the encoder is given for an element.
inline std::vector<std::pair<std::string, std::string>> InputLabels(const sc::Elem& e) {  // ours, proto's
  std::vector<std::pair<std::string, std::string>> v;
  if (e.order >= 0) { for (size_t i = 0; i < e.mapping.size(); ++i) if (e.mapping[i] != 255) v.emplace_back("S" + std::to_string(e.mapping[i]), "A_" + std::to_string(i)); return v; }
  if (e.exp >= 0) { for (auto& l : sc::Exp(e.exp).coupled) v.emplace_back(l, ProtoLabel(l)); for (auto& l : sc::Exp(e.exp).single) v.emplace_back(l, ProtoLabel(l)); return v; }
  for (auto& l : sc::Info(e.layers.back().layout).order) v.emplace_back(l, ProtoLabel(l)); return v;
}
inline pb::UserMetadata Meta(const Cfg& c) {
  const auto& s = c.s; pb::UserMetadata u; u.mutable_encoder_control_metadata()->set_add_build_information_tag(false); u.mutable_temporal_delimiter_metadata()->set_enable_temporal_delimiters(true);
  u.mutable_test_vector_metadata()->set_override_computed_recon_gains(c.wants_override);
  auto* h = u.add_ia_sequence_header_metadata(); h->set_primary_profile((pb::ProfileVersion)(s.primary + 1)); h->set_additional_profile((pb::ProfileVersion)(s.primary + 1));
  auto* cc = u.add_codec_config_metadata(); cc->set_codec_config_id(200); auto* k = cc->mutable_codec_config(); k->set_num_samples_per_frame(s.n);
  if (c.opus) { k->set_codec_id(pb::CODEC_ID_OPUS); auto* o = k->mutable_decoder_config_opus(); o->set_version(1); o->set_pre_skip(312); o->set_input_sample_rate(48000); o->mutable_opus_encoder_metadata()->set_target_bitrate_per_channel(48000); o->mutable_opus_encoder_metadata()->set_application(pb::APPLICATION_AUDIO); o->mutable_opus_encoder_metadata()->set_use_float_api(true); }
  else { k->set_codec_id(pb::CODEC_ID_LPCM); auto* l = k->mutable_decoder_config_lpcm(); l->set_sample_format_flags(pb::LPCM_LITTLE_ENDIAN); l->set_sample_size(32); l->set_sample_rate(s.rate); }
  auto def = [&](pb::ParamDefinition* d, uint32_t id) { d->set_parameter_id(id); d->set_parameter_rate(s.rate); d->set_param_definition_mode(0); d->set_duration(s.n); d->set_constant_subblock_duration(s.n); };
  for (auto& e : s.elems) {
    auto* a = u.add_audio_element_metadata(); a->set_audio_element_id(e.id); a->set_codec_config_id(200); const auto subs = sc::Substreams(e); for (size_t i = 0; i < subs.size(); ++i) a->add_audio_substream_ids(sc::Sid(e, i));
    a->set_audio_element_type(e.order >= 0 ? pb::AUDIO_ELEMENT_SCENE_BASED : pb::AUDIO_ELEMENT_CHANNEL_BASED);
    if (e.demix >= 0) { auto* p = a->add_audio_element_params(); p->set_param_definition_type(pb::PARAM_DEFINITION_TYPE_DEMIXING); auto* d = p->mutable_demixing_param(); def(d->mutable_param_definition(), e.demix); d->mutable_default_demixing_info_parameter_data()->set_dmixp_mode((pb::DMixPMode)(e.def_mode + 1)); d->set_default_w(e.def_w); }
    if (e.recon >= 0) { auto* p = a->add_audio_element_params(); p->set_param_definition_type(pb::PARAM_DEFINITION_TYPE_RECON_GAIN); def(p->mutable_recon_gain_param()->mutable_param_definition(), e.recon); }
    if (e.order >= 0) { auto* p = a->mutable_ambisonics_config()->mutable_ambisonics_mono_config(); p->set_output_channel_count(e.mapping.size()); p->set_substream_count(e.subs); for (int m : e.mapping) p->add_channel_mapping(m); }
    else { const auto g = sc::Groups(e); for (size_t i = 0; i < g.size(); ++i) { auto* l = a->mutable_scalable_channel_layout_config()->add_channel_audio_layer_configs(); const sc::Layer y = e.exp >= 0 ? sc::Layer{15} : e.layers[i];
        l->set_loudspeaker_layout((pb::LoudspeakerLayout)(y.layout + 1)); if (e.exp >= 0) l->set_expanded_loudspeaker_layout((pb::ExpandedLoudspeakerLayout)(e.exp + 1)); l->set_substream_count(g[i].coupled.size() / 2 + g[i].single.size()); l->set_coupled_substream_count(g[i].coupled.size() / 2);
        l->set_recon_gain_is_present_flag(y.recon); l->set_output_gain_is_present_flag(y.og_present); if (y.og_present) { l->set_output_gain_flag(y.og_flags); l->set_output_gain(y.og); } } }
    auto* f = u.add_audio_frame_metadata(); f->set_audio_element_id(e.id); f->set_samples_to_trim_at_start(c.trim_start); f->set_samples_to_trim_at_end(c.trim_end); f->set_samples_to_trim_at_start_includes_codec_delay(true); f->set_samples_to_trim_at_end_includes_padding(true);
    int id = 0; for (auto& [o, l] : InputLabels(e)) { auto* m = f->add_channel_metadatas(); m->set_channel_id(id++); m->set_channel_label(Label(l)); }
  }
  auto* x = u.add_mix_presentation_metadata(); x->set_mix_presentation_id(42); auto* sm = x->add_sub_mixes(); uint32_t pid = 9000;
  auto gain = [&](pb::MixGainParamDefinition* p, int16_t v) { auto* d = p->mutable_param_definition(); d->set_parameter_id(pid++); d->set_parameter_rate(s.rate); d->set_param_definition_mode(1); p->set_default_mix_gain(v); };
  for (auto i : s.mix.es) { auto* a = sm->add_audio_elements(); a->set_audio_element_id(s.elems[i].id); a->mutable_rendering_config()->set_headphones_rendering_mode((pb::HeadPhonesRenderingMode)(s.elems[i].hrm + 1)); gain(a->mutable_element_mix_gain(), s.elems[i].gain); }
  gain(sm->mutable_output_mix_gain(), s.mix.out);
  for (int l : s.mix.layouts) { auto* y = sm->add_layouts(); auto* z = y->mutable_loudness_layout(); if (l == 100) { z->set_layout_type(pb::LAYOUT_TYPE_BINAURAL); z->mutable_reserved_or_binaural_layout(); } else { z->set_layout_type(pb::LAYOUT_TYPE_LOUDSPEAKERS_SS_CONVENTION); z->mutable_ss_layout()->set_sound_system((pb::SoundSystem)(l + 1)); } y->mutable_loudness(); }
  return u;
}
inline void Fill(const Cfg& c, uint64_t from, uint64_t n, Input& in) {
  in.v.clear(); in.data = {};
  if (n) for (size_t e = 0; e < c.s.elems.size(); ++e) for (auto& [o, l] : InputLabels(c.s.elems[e])) { auto& x = in.v[{(int)e, SerLabel(l)}]; for (uint64_t t = 0; t < n; ++t) x.push_back(sc::Top(c.s, e, o, from + t)); in.data.audio_element_id_to_data[c.s.elems[e].id][SerLabel(l)] = absl::MakeConstSpan(x); }
}
inline void FillBlocks(const Cfg& c, size_t unit, Input& in) {
  if (unit >= c.s.tus.size()) return; const auto& u = c.s.tus[unit];
  auto put = [&](const pb::ParameterBlockObuMetadata& m) { m.SerializeToString(&in.data.parameter_block_id_to_metadata[m.parameter_id()]); };
  for (auto& [id, mode] : u.mode) { pb::ParameterBlockObuMetadata m; m.set_parameter_id(id); m.set_start_timestamp(unit * c.s.n); m.add_subblocks()->mutable_demixing_info_parameter_data()->set_dmixp_mode((pb::DMixPMode)(mode + 1)); put(m); }
  for (auto& [id, ls] : u.recon) { pb::ParameterBlockObuMetadata m; m.set_parameter_id(id); m.set_start_timestamp(unit * c.s.n); auto* r = m.add_subblocks()->mutable_recon_gain_info_parameter_data(); for (auto& l : ls) { auto* g = r->add_recon_gains_for_layer(); for (auto& [bit, v] : l) (*g->mutable_recon_gain())[bit] = v; } put(m); }
}
inline Out Encode(const Cfg& c) {
  Out o; auto bad = [&](const char* w, const absl::Status& s) { if (s.ok()) return false; o.ok = false; o.where = w; o.err = std::string(s.message()); return true; };
  std::string ser; Meta(c).SerializeToString(&ser); auto made = iamf_tools::api::IamfEncoderFactory::CreateIamfEncoder(ser); if (bad("create", made.status())) return o; auto e = std::move(*made); o.delay = e->GetEncoderDelay();
  if (bad("descriptors", e->GetDescriptorObus(false, o.desc0, o.fin0))) return o;
  const uint64_t nin = (c.samples + c.s.n - 1) / c.s.n; uint64_t i = 0; Bytes tu; if (!nin && bad("finalize", e->FinalizeEncode())) return o;
  for (; e->GeneratingTemporalUnits(); ++i) {
    if (o.calls++ > nin + c.Frames() + 20) { o.ok = false; o.where = "endless"; return o; }
    Input in; if (i < nin) senc::Fill(c, i * c.s.n, std::min<uint64_t>(c.s.n, c.samples - i * c.s.n), in); else senc::Fill(c, 0, 0, in); FillBlocks(c, i, in);
    if (bad("encode", e->Encode(in.data))) return o;
    if (i + 1 == nin && bad("finalize", e->FinalizeEncode())) return o;
    tu.clear(); if (bad("output", e->OutputTemporalUnit(tu))) return o; if (!tu.empty()) o.units.push_back(tu);
  }
  bad("descriptors", e->GetDescriptorObus(false, o.desc, o.fin)); return o;
}
// --- recon gains ------------------------------------------------------------------
// Channels a layer rebuilds, and the channel of the layer below each was mixed into.
struct Demixed { std::string label, from; int bit; };
inline std::vector<Demixed> DemixedChannels(const sc::Elem& e, size_t layer) {
  std::vector<Demixed> v; if (!layer) return v; const auto &p = sc::Info(e.layers[layer - 1].layout), &q = sc::Info(e.layers[layer].layout);
  for (int k = p.s + 1; k <= q.s; ++k) { if (k == 2 && p.s == 1) v.push_back({"R2", "M", 2}); if (k == 3) { v.push_back({"L3", "L2", 0}); v.push_back({"R3", "R2", 2}); } if (k == 5) { v.push_back({"Ls5", "L3", 3}); v.push_back({"Rs5", "R3", 4}); } if (k == 7) { v.push_back({"L7", "L5", 0}); v.push_back({"R7", "R5", 2}); v.push_back({"Lrs7", "Ls5", 7}); v.push_back({"Rrs7", "Rs5", 8}); } }
  if (p.h == 2 && q.h == 4) { v.push_back({"Ltb4", "Ltf2", 9}); v.push_back({"Rtb4", "Rtf2", 10}); } else if (p.h == 2 && q.h == 2 && p.s == 3 && q.s > 3) { v.push_back({"Ltf2", "Ltf3", 5}); v.push_back({"Rtf2", "Rtf3", 6}); }
  return v;
}
// What a decoder gets at one tick: coded channels with the codec's loss, and the
// rebuilt ones by the inverse equations.
inline std::map<std::string, double> Decoded(const Cfg& c, size_t ei, size_t unit, uint32_t t) {
  const auto& e = c.s.elems[ei]; const auto og = sc::OutGains(e); const int64_t at = (int64_t)(unit * c.s.n + t) - c.Delay(); const bool in = at >= 0 && (uint64_t)at < c.samples;
  auto full = sc::Channels(c.s, ei, in ? at : 0); std::map<std::string, double> m; const sc::Dmx p = sc::Params(c.s, e, unit);
  for (auto& sub : sc::Substreams(e)) for (auto& l : sub) { auto g = og.find(l); const double k = g == og.end() ? 1 : g->second; double x = in ? full.at(l) / k : 0; if (c.opus) { float f = x; if (g_standin_opus_step > 0) f = __builtin_roundf(f / g_standin_opus_step) * g_standin_opus_step; x = f; } m[l] = x * k; }
  auto has = [&](const char* l) { return m.count(l) > 0; }; auto set = [&](const char* l, double v) { if (!has(l)) m[l] = v; };
  if (has("M") && has("L2")) set("R2", 2 * m["M"] - m["L2"]);
  if (has("L2") && has("C")) { set("L3", m["L2"] - .707 * m["C"]); set("R3", m["R2"] - .707 * m["C"]); }
  if (has("L3") && has("L5")) { set("Ls5", (m["L3"] - m["L5"]) / p.d); set("Rs5", (m["R3"] - m["R5"]) / p.d); }
  if (has("L5") && has("Lss7")) { set("L7", m["L5"]); set("R7", m["R5"]); set("Lrs7", (m["Ls5"] - p.a * m["Lss7"]) / p.b); set("Rrs7", (m["Rs5"] - p.a * m["Rss7"]) / p.b); }
  if (has("Ltf3") && has("Ls5")) { set("Ltf2", m["Ltf3"] - p.w * p.d * m["Ls5"]); set("Rtf2", m["Rtf3"] - p.w * p.d * m["Rs5"]); }
  if (has("Ltf2") && has("Ltf4")) { set("Ltb4", (m["Ltf2"] - m["Ltf4"]) / p.g); set("Rtb4", (m["Rtf2"] - m["Rtf4"]) / p.g); }
  return m;
}
// Recon gains of a unit, and whether rounding leaves no doubt about them.
inline std::vector<std::map<int, int>> ReconGains(const Cfg& c, size_t ei, size_t unit, bool& sure) {
  const auto& e = c.s.elems[ei]; std::vector<std::map<int, int>> out(e.layers.size()); std::map<std::string, double> o, d;
  for (uint32_t t = 0; t < c.s.n; ++t) { const int64_t at = (int64_t)(unit * c.s.n + t) - c.Delay(); if (at >= 0 && (uint64_t)at < c.samples) for (auto& [l, v] : sc::Channels(c.s, ei, at)) o[l] += v * v / c.s.n; for (auto& [l, v] : Decoded(c, ei, unit, t)) d[l] += v * v / c.s.n; }
  auto rms = [&](std::map<std::string, double>& m, const std::string& l) { return std::sqrt(m[l]); };
  for (size_t k = 1; k < e.layers.size(); ++k) if (e.layers[k].recon) for (auto& x : DemixedChannels(e, k)) {
    const double po = rms(o, x.label), pm = rms(o, x.from), db = 10 * std::log10(po), ratio = 10 * std::log10(po / pm); double g;
    if (std::fabs(db + 80) < .001 || std::fabs(ratio + 6) < .001) sure = false;
    if (db < -80) g = 0; else if (ratio >= -6) g = 1; else { const double pd = rms(d, x.label); g = pd > 0 ? std::min(1.0, std::sqrt(po / pd)) : 1; if (std::fabs(g * 255 - std::round(g * 255)) < 1e-4 + 255 * g * 3e-7 / std::max(pd, 1e-12) && g < 1) sure = false; }
    const int v = (int)(g * 255); if (out[k].count(x.bit) && out[k][x.bit] != v) sure = false; out[k][x.bit] = v;
  }
  return out;
}
}  // namespace senc
