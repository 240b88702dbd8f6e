// Dumps of parsed OBUs in the format of gram.h.
#pragma once
#include "gram.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
#include "iamf/obu/extension_parameter_data.h"
#include "iamf/obu/temporal_delimiter.h"

namespace dump {
using namespace iamf_tools;
struct D {
  std::string s;
  void f(const char* n, int64_t v) { s += n; s += '='; s += std::to_string(v); s += ';'; }
  void f(const char* n, const std::string& v) { s += n; s += '='; s += v; s += ';'; }
  template <class B> void b(const char* n, const B& v) { s += n; s += '='; for (auto x : v) { s += std::to_string((int)x); s += ' '; } s += ';'; }
};
inline std::string Header(const ObuHeader& h) {
  D d; d.f("te", h.num_samples_to_trim_at_end); d.f("ts", h.num_samples_to_trim_at_start);
  if (h.extension_header_bytes.has_value()) d.b("ext", *h.extension_header_bytes); else d.s += "ext=none;";
  d.f("red", h.obu_redundant_copy); d.f("flag", h.type_specific_flag); return d.s;
}
inline std::string Dump(const IASequenceHeaderObu& o) { D d; d.f("primary", (int)o.GetPrimaryProfile()); d.f("additional", (int)o.GetAdditionalProfile()); return d.s; }
inline std::string Dump(const CodecConfigObu& o) {
  D d; auto& c = o.GetCodecConfig(); d.f("id", o.GetCodecConfigId()); d.f("codec", (int64_t)(uint32_t)c.codec_id); d.f("nspf", o.GetNumSamplesPerFrame()); d.f("roll", c.audio_roll_distance);
  if (auto* l = std::get_if<LpcmDecoderConfig>(&c.decoder_config)) { d.f("flags", (int)l->sample_format_flags_bitmask_); d.f("size", l->sample_size_); d.f("rate", l->sample_rate_); }
  if (auto* x = std::get_if<OpusDecoderConfig>(&c.decoder_config)) { d.f("version", x->version_); d.f("channels", x->output_channel_count_); d.f("pre_skip", x->pre_skip_); d.f("input_rate", x->input_sample_rate_); d.f("gain", x->output_gain_); d.f("family", x->mapping_family_); }
  if (auto* x = std::get_if<FlacDecoderConfig>(&c.decoder_config)) {
    d.f("blocks", x->metadata_blocks_.size());
    for (auto& b : x->metadata_blocks_) { d.f("type", (int)b.header.block_type);
      if (auto* s = std::get_if<FlacMetaBlockStreamInfo>(&b.payload)) { d.f("minb", s->minimum_block_size); d.f("maxb", s->maximum_block_size); d.f("minf", s->minimum_frame_size); d.f("maxf", s->maximum_frame_size); d.f("rate", s->sample_rate); d.f("ch", s->number_of_channels); d.f("bps", s->bits_per_sample); d.f("total", s->total_samples_in_stream); d.b("md5", s->md5_signature); }
      else d.b("block", std::get<std::vector<uint8_t>>(b.payload)); }
  }
  if (auto* x = std::get_if<AacDecoderConfig>(&c.decoder_config)) {
    auto& a = x->decoder_specific_info_.audio_specific_config;
    d.f("tag", x->decoder_config_descriptor_tag_); d.f("oti", x->object_type_indication_); d.f("st", x->stream_type_); d.f("up", x->upstream_); d.f("res", x->reserved_); d.f("buf", x->buffer_size_db_); d.f("max", x->max_bitrate_); d.f("avg", x->average_bit_rate_); d.f("tag2", x->decoder_specific_info_.decoder_specific_info_tag);
    d.f("aot", a.audio_object_type_); d.f("fi", (int)a.sample_frequency_index_); d.f("ch", a.channel_configuration_); d.f("f1", a.ga_specific_config_.frame_length_flag); d.f("f2", a.ga_specific_config_.depends_on_core_coder); d.f("f3", a.ga_specific_config_.extension_flag);
    d.b("ext1", x->decoder_specific_info_.decoder_specific_info_extension); d.b("ext2", x->decoder_config_extension_);
  }
  d.f("orate", o.GetOutputSampleRate()); d.f("irate", o.GetInputSampleRate()); d.f("bd", o.GetBitDepthToMeasureLoudness()); return d.s;
}
inline void Sched(D& d, const SubblockSchedule& s) {
  d.f("dur", s.GetDuration()); d.f("cdur", s.GetConstantSubblockDuration()); d.f("nsub", s.GetNumSubblocks());
  if (!s.GetConstantSubblockDuration()) for (uint32_t i = 0; i < s.GetNumSubblocks(); ++i) { auto v = s.GetSubblockDuration(i); d.f("sub", v.ok() ? (int64_t)*v : -1); }
}
inline void Base(D& d, const ParamDefinition& p) {
  d.f("pid", p.GetParameterId()); d.f("prate", p.GetParameterRate()); d.f("mode", (int)p.GetParamDefinitionMode()); d.f("pres", p.GetReserved());
  if (p.GetSchedule().has_value()) Sched(d, *p.GetSchedule());
}
inline void Mg(D& d, const MixGainParamDefinition& m) { Base(d, m); d.f("mg", m.default_mix_gain_.GetQ7_8()); }
inline std::string Dump(const AudioElementObu& o) {
  D d; d.f("id", o.GetAudioElementId()); d.f("type", (int)o.GetAudioElementType()); d.f("ccid", o.GetCodecConfigId()); d.f("nsub", o.GetNumSubstreams());
  for (auto x : o.audio_substream_ids_) d.f("sid", x);
  d.f("nparam", o.GetNumParameters());
  for (auto& p : o.audio_element_params_) {
    d.f("ptype", (int64_t)(uint32_t)p.GetType());
    if (auto* x = std::get_if<DemixingParamDefinition>(&p.param_definition)) { Base(d, *x); auto& q = x->default_demixing_info_parameter_data_; d.f("dmixp", (int)q.dmixp_mode); d.f("dres", q.reserved); d.f("dw", q.default_w); d.f("dwres", q.reserved_for_future_use); }
    if (auto* x = std::get_if<ReconGainParamDefinition>(&p.param_definition)) Base(d, *x);
    if (auto* x = std::get_if<ExtendedParamDefinition>(&p.param_definition)) d.b("pbytes", x->param_definition_bytes_);
  }
  if (auto* x = std::get_if<ScalableChannelLayoutConfig>(&o.config_)) {
    d.f("layers", x->GetNumLayers()); d.f("lres", x->reserved);
    for (auto& l : x->channel_audio_layer_configs) { d.f("layout", (int)l.loudspeaker_layout); d.f("og", l.output_gain_is_present_flag); d.f("rg", l.recon_gain_is_present_flag); d.f("ra", l.reserved_a); d.f("sc", l.substream_count); d.f("cc", l.coupled_substream_count);
      if (l.output_gain_is_present_flag) { d.f("ogf", l.output_gain_flag); d.f("rb", l.reserved_b); d.f("ogv", l.output_gain); }
      if (l.expanded_loudspeaker_layout.has_value()) d.f("exp", (int)*l.expanded_loudspeaker_layout); else d.s += "exp=none;"; }
  } else if (auto* x = std::get_if<AmbisonicsConfig>(&o.config_)) {
    d.f("amode", (int64_t)x->GetAmbisonicsMode());
    if (auto* m = std::get_if<AmbisonicsMonoConfig>(&x->ambisonics_config)) { d.f("occ", m->GetOutputChannelCount()); d.f("n", m->GetSubstreamCount()); d.b("map", m->GetChannelMappingView()); }
    if (auto* m = std::get_if<AmbisonicsProjectionConfig>(&x->ambisonics_config)) { d.f("occ", m->GetOutputChannelCount()); d.f("n", m->GetSubstreamCount()); d.f("m", m->GetCoupledSubstreamCount()); for (auto v : m->GetDemixingMatrixView()) d.f("dm", v); }
  } else if (auto* x = std::get_if<ObjectsConfig>(&o.config_)) { d.f("nobj", x->GetNumObjects()); d.b("oext", x->GetObjectsConfigExtensionBytesView()); }
  else d.b("ext", std::get<ExtensionConfig>(o.config_).audio_element_config_bytes);
  return d.s;
}
inline void Rendering(D& d, const RenderingConfig& r) {
  d.f("hrm", (int)r.headphones_rendering_mode); d.f("bfp", (int)r.binaural_filter_profile); d.f("rres", r.reserved); d.f("ego", r.element_gain_offset_config.has_value());
  for (auto& p : r.rendering_config_param_definitions) {
    d.f("rtype", (int64_t)(uint32_t)p.param_definition_type);
    auto polar = [&](int a, int e, int x) { d.f("az", a); d.f("el", e); d.f("di", x); };
    auto cart = [&](int a, int e, int x) { d.f("x", a); d.f("y", e); d.f("z", x); };
    std::visit([&](auto& q) {
      Base(d, q); using T = std::decay_t<decltype(q)>;
      if constexpr (std::is_same_v<T, PolarParamDefinition>) polar(q.default_azimuth_, q.default_elevation_, q.default_distance_);
      else if constexpr (std::is_same_v<T, DualPolarParamDefinition>) { polar(q.default_first_azimuth_, q.default_first_elevation_, q.default_first_distance_); polar(q.default_second_azimuth_, q.default_second_elevation_, q.default_second_distance_); }
      else if constexpr (std::is_same_v<T, Cart8ParamDefinition> || std::is_same_v<T, Cart16ParamDefinition>) cart(q.default_x_, q.default_y_, q.default_z_);
      else { cart(q.default_first_x_, q.default_first_y_, q.default_first_z_); cart(q.default_second_x_, q.default_second_y_, q.default_second_z_); }
    }, p.param_definition);
  }
  d.b("rext", r.rendering_config_extension_bytes);
}
inline std::string Dump(const MixPresentationObu& o) {
  D d; d.f("id", o.GetMixPresentationId()); auto langs = o.GetAnnotationsLanguage(); d.f("nlab", langs.size());
  for (auto& x : langs) d.f("lang", x); for (auto& x : o.GetLocalizedPresentationAnnotations()) d.f("ann", x);
  d.f("nsm", o.GetNumSubMixes());
  for (auto& s : o.sub_mixes_) {
    d.f("ne", s.audio_elements.size());
    for (auto& e : s.audio_elements) { d.f("aeid", e.audio_element_id); for (auto& x : e.localized_element_annotations) d.f("eann", x); Rendering(d, e.rendering_config); Mg(d, e.element_mix_gain); }
    Mg(d, s.output_mix_gain); d.f("nlay", s.layouts.size());
    for (auto& l : s.layouts) {
      d.f("lt", (int)l.loudness_layout.layout_type);
      if (auto* x = std::get_if<LoudspeakersSsConventionLayout>(&l.loudness_layout.specific_layout)) { d.f("ss", (int)x->sound_system); d.f("lres", x->reserved); } else d.f("lres", std::get<LoudspeakersReservedOrBinauralLayout>(l.loudness_layout.specific_layout).reserved);
      auto& i = l.loudness; d.f("it", i.info_type); d.f("il", i.integrated_loudness); d.f("dp", i.digital_peak);
      if (i.info_type & 1) d.f("tp", i.true_peak); else d.s += "tp=none;";
      if (i.info_type & 2) { d.f("nanch", i.anchored_loudness.anchor_elements.size()); for (auto& a : i.anchored_loudness.anchor_elements) { d.f("ae", (int)a.anchor_element); d.f("al", a.anchored_loudness); } } else d.s += "nanch=none;";
      if (i.info_type & 0xfc) d.b("lext", i.layout_extension.info_type_bytes); else d.s += "lext=none;";
    }
  }
  if (o.mix_presentation_tags_.has_value()) { d.f("ntag", o.mix_presentation_tags_->tags.size()); for (auto& t : o.mix_presentation_tags_->tags) { d.f("tn", t.tag_name); d.f("tv", t.tag_value); } } else d.s += "ntag=none;";
  if (o.optional_fields_.has_value()) { d.f("ofs", o.optional_fields_->optional_fields_size); d.f("plr", (int)o.optional_fields_->preferred_loudspeaker_renderer); d.f("pbr", (int)o.optional_fields_->preferred_binaural_renderer); d.b("ofb", o.optional_fields_->optional_fields_remaining_bytes); } else d.s += "ofs=none;";
  return d.s;
}
inline void Data(D& d, const ParameterData& p) {
  if (auto* m = dynamic_cast<const MixGainParameterData*>(&p)) {
    d.f("anim", (int64_t)m->GetAnimationType());
    if (auto* a = std::get_if<AnimationStepInt16>(&m->param_data)) d.f("a", a->start_point_value);
    if (auto* a = std::get_if<AnimationLinearInt16>(&m->param_data)) { d.f("a", a->start_point_value); d.f("b", a->end_point_value); }
    if (auto* a = std::get_if<AnimationBezierInt16>(&m->param_data)) { d.f("a", a->start_point_value); d.f("b", a->end_point_value); d.f("c", a->control_point_value); d.f("t", a->control_point_relative_time); }
  } else if (auto* m = dynamic_cast<const DemixingInfoParameterData*>(&p)) { d.f("dmixp", (int)m->dmixp_mode); d.f("res", m->reserved); }
  else if (auto* m = dynamic_cast<const ReconGainInfoParameterData*>(&p)) {
    for (auto& e : m->recon_gain_elements) { if (!e.has_value()) { d.s += "rg=none;"; continue; } d.f("rg", e->recon_gain_flag); d.b("v", e->recon_gain); }
  } else if (auto* m = dynamic_cast<const ExtensionParameterData*>(&p)) d.b("ext", m->parameter_data_bytes);
  else d.s += "?";
}
inline std::string Dump(const ParameterBlockObu& o) {
  D d; d.f("pid", o.parameter_id_); d.f("dur", o.GetDuration()); d.f("cdur", o.GetConstantSubblockDuration()); d.f("nsub", o.GetNumSubblocks());
  for (size_t i = 0; i < o.subblocks_.size(); ++i) { auto v = o.GetSubblockDuration(i); d.f("sd", v.ok() ? (int64_t)*v : -1); Data(d, *o.subblocks_[i]); }
  return d.s;
}
inline std::string Dump(const AudioFrameObu& o) { D d; d.f("sid", o.GetSubstreamId()); d.b("data", o.audio_frame_); return d.s; }
inline std::string Dump(const TemporalDelimiterObu&) { return ""; }
inline std::string Dump(const MetadataObu& o) {
  D d; d.f("mtype", (int64_t)(uint32_t)o.GetMetadataType());
  if (o.GetMetadataType() == kMetadataTypeITUT_T35) { auto& t = std::get<MetadataITUTT35>(o.GetMetadataVariant()); d.f("cc", t.itu_t_t35_country_code); d.f("cce", t.itu_t_t35_country_code_extension_byte.has_value() ? *t.itu_t_t35_country_code_extension_byte : -1); d.b("body", t.itu_t_t35_payload_bytes); }
  else if (o.GetMetadataType() == kMetadataTypeIamfTags) { auto& t = std::get<MetadataIamfTags>(o.GetMetadataVariant()); d.f("ntag", t.tags.size()); for (auto& x : t.tags) { d.f("tn", x.tag_name); d.f("tv", x.tag_value); } }
  return d.s;
}
}  // namespace dump
