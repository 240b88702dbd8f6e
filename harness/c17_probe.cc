// C17: what the probe reports. Every descriptor OBU of the reference grammar, every
// sequence of temporal-unit OBUs up to a depth (well-formed or damaged, cut at every
// byte, stopped by budget or cancellation at every step) against an independent
// model of the report; the JSON form is parsed back and compared field by field.
#include "vh_main.h"
#include "choose.h"
#include "gram.h"
#include "stream.h"
#include "streams_extra.h"
#include "absl/container/flat_hash_map.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
using vh::Ctx; using gram::Bits; using gram::Bytes; using namespace iamf_tools;
namespace {
using Flat = std::map<std::string, std::string>;  // path -> literal; strings keep a leading quote
std::string S(const std::string& s) { return "\"" + s; }
struct W {  // writes a report as paths
  Flat f; std::string p;
  template <class T> void n(const char* k, T v) { f[p + "." + k] = std::to_string((long long)v); }
  void u(const char* k, uint64_t v) { f[p + "." + k] = std::to_string(v); }
  void d(const char* k, double v) { char b[64]; snprintf(b, sizeof b, "~%.17g", v); f[p + "." + k] = b; }
  void b(const char* k, bool v) { f[p + "." + k] = v ? "true" : "false"; }
  void s(const char* k, const std::string& v) { f[p + "." + k] = S(v); }
  template <class V> void vec(const char* k, const V& v) { size_t i = 0; f[p + "." + k + "#"] = std::to_string(v.size()); for (auto x : v) f[p + "." + k + "[" + std::to_string(i++) + "]"] = std::to_string((long long)x); }
  void strs(const char* k, const std::vector<std::string>& v) { size_t i = 0; f[p + "." + k + "#"] = std::to_string(v.size()); for (auto& x : v) f[p + "." + k + "[" + std::to_string(i++) + "]"] = S(x); }
  template <class V, class F> void arr(const char* k, const V& v, F fn) { size_t i = 0; f[p + "." + k + "#"] = std::to_string(v.size()); for (auto& x : v) { const std::string old = p; p += std::string(".") + k + "[" + std::to_string(i++) + "]"; fn(x); p = old; } }
  template <class F> void obj(const char* k, F fn) { const std::string old = p; p += std::string(".") + k; fn(); p = old; }
};
void Pdef(W& w, const ParamDefinitionReport& d) { w.u("parameter_id", d.parameter_id); w.u("parameter_rate", d.parameter_rate); w.n("param_definition_mode", d.param_definition_mode); w.u("duration", d.duration); w.u("constant_subblock_duration", d.constant_subblock_duration); }
void Mg(W& w, const MixGainParamDefinitionReport& g) { w.obj("param_definition", [&] { Pdef(w, g.param_definition); }); w.d("default_mix_gain", g.default_mix_gain); w.n("default_mix_gain_q7_8", g.default_mix_gain_q7_8); }
// Every field of a report.
Flat Flatten(const ProbeReport& r) {
  W w; w.s("primary_profile", r.primary_profile); w.n("primary_profile_raw", r.primary_profile_raw); w.s("additional_profile", r.additional_profile); w.n("additional_profile_raw", r.additional_profile_raw); w.u("descriptor_bytes_consumed", r.descriptor_bytes_consumed);
  if (r.descriptor_total_samples) w.u("descriptor_total_samples", *r.descriptor_total_samples); if (r.descriptor_duration_seconds) w.d("descriptor_duration_seconds", *r.descriptor_duration_seconds);
  w.arr("codec_configs", r.codec_configs, [&](auto& c) {
    w.u("id", c.id); w.s("codec_id", c.codec_id); w.u("codec_id_raw", c.codec_id_raw); w.u("num_samples_per_frame", c.num_samples_per_frame); w.n("audio_roll_distance", c.audio_roll_distance); w.u("output_sample_rate", c.output_sample_rate); w.u("input_sample_rate", c.input_sample_rate); w.n("bit_depth", c.bit_depth);
    if (c.opus) w.obj("opus", [&] { auto& o = *c.opus; w.n("version", o.version); w.n("output_channel_count", o.output_channel_count); w.n("pre_skip", o.pre_skip); w.u("input_sample_rate", o.input_sample_rate); w.d("output_gain", o.output_gain); w.n("output_gain_q7_8", o.output_gain_q7_8); w.n("mapping_family", o.mapping_family); });
    if (c.lpcm) w.obj("lpcm", [&] { auto& o = *c.lpcm; w.s("sample_format", o.sample_format); w.n("sample_format_raw", o.sample_format_raw); w.n("sample_size", o.sample_size); w.u("sample_rate", o.sample_rate); });
    if (c.aac) w.obj("aac", [&] { auto& o = *c.aac; w.n("object_type_indication", o.object_type_indication); w.n("stream_type", o.stream_type); w.b("upstream", o.upstream); w.b("reserved", o.reserved); w.u("buffer_size_db", o.buffer_size_db); w.u("max_bitrate", o.max_bitrate); w.u("average_bit_rate", o.average_bit_rate); w.n("audio_object_type", o.audio_object_type); w.s("sample_frequency_index", o.sample_frequency_index); w.n("sample_frequency_index_raw", o.sample_frequency_index_raw); w.n("channel_configuration", o.channel_configuration); });
    if (c.flac) w.obj("flac", [&] { w.arr("metadata_blocks", c.flac->metadata_blocks, [&](auto& b) { w.s("block_type", b.block_type); w.n("block_type_raw", b.block_type_raw); if (b.is_stream_info) { w.n("minimum_block_size", b.minimum_block_size); w.n("maximum_block_size", b.maximum_block_size); w.u("minimum_frame_size", b.minimum_frame_size); w.u("maximum_frame_size", b.maximum_frame_size); w.u("sample_rate", b.sample_rate); w.n("number_of_channels", b.number_of_channels); w.n("bits_per_sample", b.bits_per_sample); w.u("total_samples_in_stream", b.total_samples_in_stream); } }); });
  });
  w.arr("audio_elements", r.audio_elements, [&](auto& a) {
    w.u("id", a.id); w.s("type", a.type); w.n("type_raw", a.type_raw); w.n("reserved", a.reserved); w.u("codec_config_id", a.codec_config_id); w.u("num_substreams", a.num_substreams); w.vec("substream_ids", a.substream_ids);
    w.arr("params", a.params, [&](auto& p) { w.s("param_type", p.param_type); w.u("param_type_raw", p.param_type_raw); w.u("parameter_id", p.parameter_id); w.u("parameter_rate", p.parameter_rate); w.n("param_definition_mode", p.param_definition_mode); w.u("duration", p.duration); w.u("constant_subblock_duration", p.constant_subblock_duration); });
    if (!a.scalable_layers.empty()) w.arr("scalable_layers", a.scalable_layers, [&](auto& l) { w.s("loudspeaker_layout", l.loudspeaker_layout); w.n("loudspeaker_layout_raw", l.loudspeaker_layout_raw); w.n("substream_count", l.substream_count); w.n("coupled_substream_count", l.coupled_substream_count); w.b("output_gain_is_present_flag", l.output_gain_is_present_flag); w.b("recon_gain_is_present_flag", l.recon_gain_is_present_flag); w.n("output_gain_flag", l.output_gain_flag); w.d("output_gain", l.output_gain); w.n("output_gain_q7_8", l.output_gain_q7_8); if (l.expanded_loudspeaker_layout) w.s("expanded_loudspeaker_layout", *l.expanded_loudspeaker_layout); if (l.expanded_loudspeaker_layout_raw) w.n("expanded_loudspeaker_layout_raw", *l.expanded_loudspeaker_layout_raw); });
    if (a.ambisonics) w.obj("ambisonics", [&] { auto& m = *a.ambisonics; w.s("mode", m.mode); w.n("mode_raw", m.mode_raw); if (m.order) w.n("order", *m.order); if (m.mono) w.obj("mono", [&] { w.n("output_channel_count", m.mono->output_channel_count); w.n("substream_count", m.mono->substream_count); w.vec("channel_mapping", m.mono->channel_mapping); }); if (m.projection) w.obj("projection", [&] { auto& p = *m.projection; w.n("output_channel_count", p.output_channel_count); w.n("substream_count", p.substream_count); w.n("coupled_substream_count", p.coupled_substream_count); w.vec("demixing_matrix", p.demixing_matrix); }); });
    if (a.channel_layout) w.s("channel_layout", *a.channel_layout); if (a.channel_layout_raw) w.n("channel_layout_raw", *a.channel_layout_raw); if (a.expanded_channel_layout_raw) w.n("expanded_channel_layout_raw", *a.expanded_channel_layout_raw);
    if (a.ambisonics_order) w.n("ambisonics_order", *a.ambisonics_order); if (a.ambisonics_channels) w.n("ambisonics_channels", *a.ambisonics_channels); if (a.num_channels) w.n("num_channels", *a.num_channels);
  });
  w.arr("mix_presentations", r.mix_presentations, [&](auto& m) {
    w.u("id", m.id); w.u("count_label", m.count_label); w.u("num_sub_mixes", m.num_sub_mixes);
    w.arr("annotations", m.annotations, [&](auto& a) { w.s("language", a.first); w.s("label", a.second); });
    w.arr("sub_mixes", m.sub_mixes, [&](auto& s) {
      w.arr("audio_elements", s.audio_elements, [&](auto& e) { w.u("audio_element_id", e.audio_element_id); w.strs("localized_element_annotations", e.localized_element_annotations); w.obj("rendering_config", [&] { auto& c = e.rendering_config; w.s("headphones_rendering_mode", c.headphones_rendering_mode); w.n("headphones_rendering_mode_raw", c.headphones_rendering_mode_raw); w.s("binaural_filter_profile", c.binaural_filter_profile); w.n("binaural_filter_profile_raw", c.binaural_filter_profile_raw); }); w.obj("element_mix_gain", [&] { Mg(w, e.element_mix_gain); }); });
      w.obj("output_mix_gain", [&] { Mg(w, s.output_mix_gain); });
      w.arr("layouts", s.layouts, [&](auto& l) {
        w.obj("loudness_layout", [&] { auto& x = l.loudness_layout; w.s("layout_type", x.layout_type); w.n("layout_type_raw", x.layout_type_raw); if (x.sound_system) w.s("sound_system", *x.sound_system); if (x.sound_system_raw) w.n("sound_system_raw", *x.sound_system_raw); });
        w.obj("loudness", [&] { auto& x = l.loudness; w.n("info_type", x.info_type); w.b("true_peak_present", x.true_peak_present); w.b("anchored_loudness_present", x.anchored_loudness_present); w.b("has_layout_extension", x.has_layout_extension); w.d("integrated_loudness", x.integrated_loudness); w.d("digital_peak", x.digital_peak); if (x.true_peak) w.d("true_peak", *x.true_peak);
          if (!x.anchored_loudness_elements.empty()) w.arr("anchored_loudness_elements", x.anchored_loudness_elements, [&](auto& e) { w.s("anchor_element", e.anchor_element); w.n("anchor_element_raw", e.anchor_element_raw); w.d("anchored_loudness", e.anchored_loudness); w.n("anchored_loudness_q7_8", e.anchored_loudness_q7_8); }); });
      });
    });
    w.arr("tags", m.tags, [&](auto& t) { w.s("tag_name", t.tag_name); w.s("tag_value", t.tag_value); });
    w.strs("layouts", m.layouts); if (m.integrated_loudness_lkfs) w.d("integrated_loudness_lkfs", *m.integrated_loudness_lkfs); if (m.digital_peak_dbfs) w.d("digital_peak_dbfs", *m.digital_peak_dbfs); if (m.true_peak_dbfs) w.d("true_peak_dbfs", *m.true_peak_dbfs);
  });
  if (r.temporal_unit_scan) w.obj("temporal_unit_scan", [&] {
    auto& t = *r.temporal_unit_scan; w.u("temporal_unit_count", t.temporal_unit_count); w.u("audio_frame_count", t.audio_frame_count); w.u("parameter_block_count", t.parameter_block_count); w.u("temporal_delimiter_count", t.temporal_delimiter_count); w.u("audio_frame_parse_errors", t.audio_frame_parse_errors); w.u("parameter_block_parse_errors", t.parameter_block_parse_errors); w.u("bytes_consumed", t.bytes_consumed); w.s("stopped_reason", t.stopped_reason);
    if (t.total_samples) w.u("total_samples", *t.total_samples); if (t.output_sample_rate) w.u("output_sample_rate", *t.output_sample_rate); if (t.duration_seconds) w.d("duration_seconds", *t.duration_seconds);
    w.arr("audio_frames_by_substream", t.audio_frames_by_substream, [&](auto& a) { w.u("substream_id", a.substream_id); w.u("codec_config_id", a.codec_config_id); w.u("frame_count", a.frame_count); w.u("total_samples", a.total_samples); });
    w.arr("parameter_blocks", t.parameter_blocks, [&](auto& b) { w.u("parameter_id", b.parameter_id); w.s("param_type", b.param_type); w.u("param_type_raw", b.param_type_raw); w.u("start_timestamp", b.start_timestamp); w.u("end_timestamp", b.end_timestamp); w.u("duration", b.duration); w.u("constant_subblock_duration", b.constant_subblock_duration);
      w.arr("subblocks", b.subblocks, [&](auto& x) { w.u("subblock_duration", x.subblock_duration);
        if (x.mix_gain) w.obj("mix_gain", [&] { auto& m = *x.mix_gain; w.s("animation_type", m.animation_type); w.u("animation_type_raw", m.animation_type_raw); w.d("start_point_value", m.start_point_value); w.n("start_point_value_q7_8", m.start_point_value_q7_8); if (m.end_point_value) w.d("end_point_value", *m.end_point_value); if (m.end_point_value_q7_8) w.n("end_point_value_q7_8", *m.end_point_value_q7_8); if (m.control_point_value) w.d("control_point_value", *m.control_point_value); if (m.control_point_value_q7_8) w.n("control_point_value_q7_8", *m.control_point_value_q7_8); if (m.control_point_relative_time) w.n("control_point_relative_time", *m.control_point_relative_time); });
        if (x.demixing) w.obj("demixing", [&] { w.s("dmixp_mode", x.demixing->dmixp_mode); w.n("dmixp_mode_raw", x.demixing->dmixp_mode_raw); w.n("reserved", x.demixing->reserved); });
        if (x.recon_gain) w.obj("recon_gain", [&] { w.arr("layers", x.recon_gain->layers, [&](auto& l) { w.n("layer_index", l.layer_index); w.u("recon_gain_flag", l.recon_gain_flag); w.vec("recon_gain", l.recon_gain); }); }); }); });
    w.arr("temporal_units", t.temporal_units, [&](auto& u) { w.u("start_timestamp", u.start_timestamp); w.u("num_samples", u.num_samples); w.u("byte_offset_from_scan_start", u.byte_offset_from_scan_start); w.u("samples_to_trim_at_start", u.samples_to_trim_at_start); w.u("samples_to_trim_at_end", u.samples_to_trim_at_end); });
  });
  return w.f;
}
// A strict JSON reader.
struct Json {
  const std::string& t; size_t i = 0; Flat f; bool ok = true;
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
  bool eat(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
  std::string str() {
    std::string o; if (!eat('"')) { ok = false; return o; }
    while (ok) { if (i >= t.size()) { ok = false; break; } unsigned char c = t[i++]; if (c == '"') break; if (c < 0x20) { ok = false; break; } if (c != '\\') { o += c; continue; }
      if (i >= t.size()) { ok = false; break; } char e = t[i++]; switch (e) { case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': { if (i + 4 > t.size()) { ok = false; break; } int v = 0; for (int k = 0; k < 4; ++k) { char h = t[i++]; int x = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (x < 0) ok = false; v = v * 16 + x; } if (v > 127) ok = false; o += (char)v; break; } default: ok = false; } }
    return o;
  }
  void value(const std::string& p) {
    ws(); if (!ok || i >= t.size()) { ok = false; return; }
    if (t[i] == '{') { ++i; if (eat('}')) return; std::set<std::string> keys; do { ws(); std::string k = str(); if (!keys.insert(k).second) ok = false; if (!eat(':')) ok = false; if (!ok) return; value(p + "." + k); if (!ok) return; } while (eat(',')); if (!eat('}')) ok = false; }
    else if (t[i] == '[') { ++i; size_t n = 0; if (!eat(']')) { do { value(p + "[" + std::to_string(n++) + "]"); if (!ok) return; } while (eat(',')); if (!eat(']')) ok = false; } f[p + "#"] = std::to_string(n); }
    else if (t[i] == '"') f[p] = S(str());
    else { size_t b = i; while (i < t.size() && !strchr(",]} \n\t\r", t[i])) ++i; const std::string v = t.substr(b, i - b); bool good = v == "true" || v == "false" || v == "null"; if (!good) { size_t k = v[0] == '-'; size_t d0 = k; while (k < v.size() && isdigit((unsigned char)v[k])) ++k; good = k > d0 && (v[d0] != '0' || k == d0 + 1); if (good && k < v.size() && v[k] == '.') { size_t d1 = ++k; while (k < v.size() && isdigit((unsigned char)v[k])) ++k; good = k > d1; } if (good && k < v.size() && (v[k] == 'e' || v[k] == 'E')) { ++k; if (k < v.size() && (v[k] == '+' || v[k] == '-')) ++k; size_t d1 = k; while (k < v.size() && isdigit((unsigned char)v[k])) ++k; good = k > d1; } good = good && k == v.size(); } if (!good) ok = false; f[p] = v; }
  }
};
bool Same(const std::string& want, const std::string& got) {
  if (want[0] != '~') return want == got; if (got.empty()) return false; char* e; double a = strtod(want.c_str() + 1, nullptr), b = strtod(got[0] == '~' ? got.c_str() + 1 : got.c_str(), &e); return *e == 0 && std::fabs(a - b) <= 2e-5 * std::fabs(a);
}
// Compares, ignoring paths for which `skip` holds; "" if equal.
template <class F> std::string Diff(const Flat& want, const Flat& got, F skip) {
  for (auto& [k, v] : want) { if (skip(k)) continue; auto it = got.find(k); if (it == got.end()) return k + " missing, want " + v; if (!Same(v, it->second)) return k + "=" + it->second + " want " + v; }
  for (auto& [k, v] : got) if (!skip(k) && !want.count(k)) return k + "=" + v + " not expected";
  return "";
}
bool NoSkip(const std::string&) { return false; }
void CheckJson(Ctx& ctx, const ProbeReport& r, const Flat& flat) {
  const std::string text = ProbeReportToJson(r); Json j{text}; j.value(""); j.ws(); ctx.Transitions(1);
  if (!j.ok || j.i != text.size()) { ctx.Fail("json", "not JSON at byte " + std::to_string(j.i) + ": " + text.substr(j.i > 60 ? j.i - 60 : 0, 100)); return; }
  bool index = false; for (auto& [k, v] : j.f) index |= k.find(".temporal_units") != std::string::npos;  // the seek index may be left out
  const std::string d = Diff(flat, j.f, [&](const std::string& k) { return !index && k.find(".temporal_units") != std::string::npos; });
  if (!d.empty()) ctx.Fail("json", d); else ctx.Validated();
}

// ---------------------------------------------------------------------------
// Temporal-unit OBUs with what they mean to a scan.
struct Tok {
  const char* name; Bytes b; int kind; uint32_t sid = 0, ts = 0, te = 0; uint32_t dur = 0; Flat block; uint32_t pid = 0; size_t detect = 0;
};  // kind: 0 skipped, 1 delimiter, 2 frame, 3 damaged frame, 4 block, 5 block of an unknown parameter, 6 block with damaged contents, 7 next sequence, 8 garbage
struct Env { std::map<uint32_t, std::pair<uint32_t, uint32_t>> sub; std::map<uint32_t, uint32_t> rate; };  // substream -> frame size, codec config; codec config -> rate
struct Want { Flat f; std::vector<size_t> at; std::vector<uint32_t> units; std::string why; };
// What a scan of the first `count` OBUs reports. `reason` if it ends there.
Flat Model(const Env& env, const std::vector<const Tok*>& seq, size_t count, const std::string& reason, bool full, std::vector<std::pair<size_t, uint32_t>>* progress, std::set<uint32_t>* rates) {
  struct Sub { uint32_t frames = 0; uint64_t samples = 0; }; std::map<uint32_t, Sub> sub; std::map<uint32_t, uint64_t> clock; uint32_t frames = 0, blocks = 0, tds = 0, ferr = 0, berr = 0, done = 0; uint64_t now = 0; size_t pos = 0; std::string why = reason;
  struct Unit { uint64_t start, n; size_t at; uint32_t ts, te; }; std::vector<Unit> units; long at = -1; std::set<uint32_t> seen; uint64_t n = 0; uint32_t ts = 0, te = 0; std::vector<Flat> bl;
  auto close = [&] { if (at >= 0 && !seen.empty()) { units.push_back({now, n, (size_t)at, ts, te}); now += n; ++done; } at = -1; seen.clear(); n = 0; ts = te = 0; };
  for (size_t i = 0; i < count; ++i) {
    const Tok& t = *seq[i]; if (progress) progress->push_back({pos, done}); if (t.kind == 7) { why = "next_ia_sequence"; break; } if (t.kind == 8) { why = "malformed"; break; }
    auto open = [&] { if (at < 0) at = pos; };
    if (t.kind == 1) { close(); open(); ++tds; }
    if (t.kind == 2) { if (seen.count(t.sid)) close(); open(); if (seen.empty()) { ts = t.ts; te = t.te; } seen.insert(t.sid); auto it = env.sub.find(t.sid); const uint64_t len = it == env.sub.end() ? 0 : it->second.first; n = std::max(n, len); ++sub[t.sid].frames; sub[t.sid].samples += len; ++frames; }
    if (t.kind == 3) ++ferr;
    if (t.kind == 5) { open(); ++berr; }
    if (t.kind == 6) { open(); if (full) ++berr; else ++blocks; }
    if (t.kind == 4) { open(); ++blocks; if (full) { Flat b = t.block; b["start_timestamp"] = std::to_string(clock[t.pid]); clock[t.pid] += t.dur; b["end_timestamp"] = std::to_string(clock[t.pid]); bl.push_back(b); } }
    pos += t.b.size();
  }
  if (progress) progress->push_back({pos, done});
  close();
  W w; w.p = ".temporal_unit_scan"; uint32_t most = 0; uint64_t total = 0; for (auto& [id, s] : sub) { most = std::max(most, s.frames); total = std::max(total, s.samples); }
  w.u("temporal_unit_count", std::max(most, tds)); w.u("audio_frame_count", frames); w.u("parameter_block_count", blocks); w.u("temporal_delimiter_count", tds); w.u("audio_frame_parse_errors", ferr); w.u("parameter_block_parse_errors", berr); w.u("bytes_consumed", pos); w.s("stopped_reason", why);
  if (total) { w.u("total_samples", total); for (auto& [id, s] : sub) if (s.samples == total) rates->insert(env.rate.at(env.sub.at(id).second)); }
  std::vector<uint32_t> ids; for (auto& [id, s] : sub) ids.push_back(id);
  w.arr("audio_frames_by_substream", ids, [&](uint32_t id) { auto it = env.sub.find(id); w.u("substream_id", id); w.u("codec_config_id", it == env.sub.end() ? 0 : it->second.second); w.u("frame_count", sub[id].frames); w.u("total_samples", sub[id].samples); });
  w.arr("parameter_blocks", bl, [&](const Flat& b) { for (auto& [k, v] : b) w.f[w.p + "." + k] = v; });
  if (full) w.arr("temporal_units", units, [&](const Unit& u) { w.u("start_timestamp", u.start); w.u("num_samples", u.n); w.u("byte_offset_from_scan_start", u.at); w.u("samples_to_trim_at_start", u.ts); w.u("samples_to_trim_at_end", u.te); }); else w.f[".temporal_unit_scan.temporal_units#"] = "0";
  return w.f;
}
Flat ScanOf(const ProbeReport& r) { Flat o; for (auto& [k, v] : Flatten(r)) if (k.rfind(".temporal_unit_scan", 0) == 0) o[k] = v; return o; }
// Rate and duration: those of a codec config which carries the longest substream.
std::string CheckScan(const ProbeReport& r, const Flat& want, const std::set<uint32_t>& rates) {
  const std::string d = Diff(want, ScanOf(r), [](const std::string& k) { return k == ".temporal_unit_scan.output_sample_rate" || k == ".temporal_unit_scan.duration_seconds"; }); if (!d.empty()) return d;
  auto& t = *r.temporal_unit_scan; if (t.output_sample_rate.has_value() != !rates.empty() || t.duration_seconds.has_value() != !rates.empty()) return "presence of the duration";
  if (!rates.empty()) { if (!rates.count(*t.output_sample_rate)) return "rate " + std::to_string(*t.output_sample_rate) + " is not that of the longest substream"; if (std::fabs(*t.duration_seconds - (double)*t.total_samples / *t.output_sample_rate) > 1e-9) return "duration " + std::to_string(*t.duration_seconds); }
  return "";
}
Bytes Cat(const Bytes& a, const Bytes& b) { Bytes o = a; o.insert(o.end(), b.begin(), b.end()); return o; }
Flat Sub(std::initializer_list<std::pair<const char*, std::string>> kv) { Flat f; for (auto& [k, v] : kv) f[k] = v; return f; }
struct Base { const char* name; Bytes desc; Env env; std::vector<Tok> toks; };
Base Scalable() {
  Base b; b.name = "scalable"; sc::Stream s; s.n = 4; s.tus.resize(1); sc::Elem e; e.layers = {{1}, {2}}; e.layers[1].recon = true; e.demix = 70; e.recon = 71; e.sids = {0, 17, 18, 300}; s.elems = {e}; s.mix.es = {0}; s.mix.layouts = {0, 1}; b.desc = sc::Descriptors(s);
  for (uint32_t i : {0, 17, 18, 300}) b.env.sub[i] = {4, 200}; b.env.rate[200] = 48000;
  auto frame = [](uint32_t id, int pad, uint32_t ts, uint32_t te, bool flag) { Bits x; if (id > 17) x.leb(id, pad); x.bytes({1, 2, 3, 4}); return st::Obu(id > 17 ? 5 : 6 + id, x.b, false, flag, nullptr, ts, te); };
  auto T = [&](const char* n, Bytes x, int k) { Tok t; t.name = n; t.b = x; t.kind = k; return t; };
  auto F = [&](const char* n, uint32_t id, int pad, uint32_t ts, uint32_t te, bool flag) { Tok t = T(n, frame(id, pad, ts, te, flag), 2); t.sid = id; t.ts = ts; t.te = te; return t; };
  b.toks = {T("T", st::Obu(4, {}), 1), F("F0", 0, 0, 0, 0, false), F("F17", 17, 0, 2, 1, true), F("F18", 18, 0, 0, 0, false)};
  { Bits x; x.leb(9001); x.leb(6); x.leb(4); x.leb(1); x.put(16, (uint16_t)-300); x.put(16, 5); x.leb(2); x.put(16, 1); x.put(16, (uint16_t)-2); x.put(16, 3); x.put(8, 200); Tok t = T("G1", st::Obu(3, x.b), 4); t.pid = 9001; t.dur = 6;
    t.block = Sub({{"parameter_id", "9001"}, {"param_type", "\"mix_gain"}, {"param_type_raw", "0"}, {"duration", "6"}, {"constant_subblock_duration", "4"}, {"subblocks#", "2"}, {"subblocks[0].subblock_duration", "4"}, {"subblocks[0].mix_gain.animation_type", "\"linear"}, {"subblocks[0].mix_gain.animation_type_raw", "1"}, {"subblocks[0].mix_gain.start_point_value", "~-1.171875"}, {"subblocks[0].mix_gain.start_point_value_q7_8", "-300"}, {"subblocks[0].mix_gain.end_point_value", "~0.01953125"}, {"subblocks[0].mix_gain.end_point_value_q7_8", "5"},
      {"subblocks[1].subblock_duration", "2"}, {"subblocks[1].mix_gain.animation_type", "\"bezier"}, {"subblocks[1].mix_gain.animation_type_raw", "2"}, {"subblocks[1].mix_gain.start_point_value", "~0.00390625"}, {"subblocks[1].mix_gain.start_point_value_q7_8", "1"}, {"subblocks[1].mix_gain.end_point_value", "~-0.0078125"}, {"subblocks[1].mix_gain.end_point_value_q7_8", "-2"}, {"subblocks[1].mix_gain.control_point_value", "~0.01171875"}, {"subblocks[1].mix_gain.control_point_value_q7_8", "3"}, {"subblocks[1].mix_gain.control_point_relative_time", "200"}}); b.toks.push_back(t); }
  b.toks.push_back(T("X", st::Obu(26, {9, 0x20, 9}), 0)); b.toks.push_back(T("RH", st::SequenceHeader(st::Stream(), true), 0)); b.toks.push_back(F("Fx", 999, 0, 0, 0, false));
  // The first eight make up the deeper sequences.
  { Bits x; x.leb(9000); x.leb(4); x.leb(4); x.leb(0); x.put(16, 256); x.bytes({7, 7}); Tok t = T("G0", st::Obu(3, x.b), 4); t.pid = 9000; t.dur = 4; t.block = Sub({{"parameter_id", "9000"}, {"param_type", "\"mix_gain"}, {"param_type_raw", "0"}, {"duration", "4"}, {"constant_subblock_duration", "4"}, {"subblocks#", "1"}, {"subblocks[0].subblock_duration", "4"}, {"subblocks[0].mix_gain.animation_type", "\"step"}, {"subblocks[0].mix_gain.animation_type_raw", "0"}, {"subblocks[0].mix_gain.start_point_value", "~1"}, {"subblocks[0].mix_gain.start_point_value_q7_8", "256"}}); b.toks.push_back(t); }
  { Bits x; x.leb(70); x.put(3, 5); x.put(5, 9); Tok t = T("D", st::Obu(3, x.b), 4); t.pid = 70; t.dur = 4; t.block = Sub({{"parameter_id", "70"}, {"param_type", "\"demixing"}, {"param_type_raw", "1"}, {"duration", "4"}, {"constant_subblock_duration", "4"}, {"subblocks#", "1"}, {"subblocks[0].subblock_duration", "4"}, {"subblocks[0].demixing.dmixp_mode", "\"mode2_n"}, {"subblocks[0].demixing.dmixp_mode_raw", "5"}, {"subblocks[0].demixing.reserved", "9"}}); b.toks.push_back(t); }
  { Bits x; x.leb(71); x.leb(0x815); for (int v : {1, 2, 200, 255}) x.put(8, v); Tok t = T("R", st::Obu(3, x.b), 4); t.pid = 71; t.dur = 4; t.block = Sub({{"parameter_id", "71"}, {"param_type", "\"recon_gain"}, {"param_type_raw", "2"}, {"duration", "4"}, {"constant_subblock_duration", "4"}, {"subblocks#", "1"}, {"subblocks[0].subblock_duration", "4"}, {"subblocks[0].recon_gain.layers#", "1"}, {"subblocks[0].recon_gain.layers[0].layer_index", "1"}, {"subblocks[0].recon_gain.layers[0].recon_gain_flag", "2069"}, {"subblocks[0].recon_gain.layers[0].recon_gain#", "4"}, {"subblocks[0].recon_gain.layers[0].recon_gain[0]", "1"}, {"subblocks[0].recon_gain.layers[0].recon_gain[1]", "2"}, {"subblocks[0].recon_gain.layers[0].recon_gain[2]", "200"}, {"subblocks[0].recon_gain.layers[0].recon_gain[3]", "255"}}); b.toks.push_back(t); }
  { Bits x; x.leb(9001); x.leb(6); x.leb(6); x.leb(3); x.put(16, 1); b.toks.push_back(T("Gbad", st::Obu(3, x.b), 6)); }
  { Bits x; x.leb(9001); x.leb(6); x.leb(6); x.leb(2); x.put(8, 1); b.toks.push_back(T("Gcut", st::Obu(3, x.b), 6)); }
  { Bits x; x.leb(5555); x.leb(6); b.toks.push_back(T("G?", st::Obu(3, x.b), 5)); }
  b.toks.push_back(F("F0t", 0, 0, 3, 300, true)); b.toks.push_back(F("F0z", 0, 0, 0, 0, true)); b.toks.push_back(F("F18p", 18, 3, 1, 0, true)); b.toks.push_back(F("F300", 300, 0, 0, 0, false));
  b.toks.push_back(T("Fnone", st::Obu(5, {}), 3)); b.toks.push_back(T("Fopen", st::Obu(5, {0x80, 0x80}), 3));
  b.toks.push_back(T("X0", st::Obu(24, {}), 0)); b.toks.push_back(T("CC", st::CodecConfig(st::Stream(), true), 0)); b.toks.push_back(T("MX", st::Obu(2, {1, 2, 3}, true), 0)); b.toks.push_back(T("BH", st::Obu(6, {1, 2}, true), 0)); { Bytes ext = {1, 2, 0x20}; Tok t = T("Fext", st::Obu(6, {5, 5}, false, true, &ext, 7, 8), 2); t.sid = 0; t.ts = 7; t.te = 8; b.toks.push_back(t); }
  { Tok t = T("SH", st::SequenceHeader(st::Stream()), 7); b.toks.push_back(t); }
  { Tok t = T("GB", {0x20, 255, 255, 255, 255, 255, 255, 255, 255, 255}, 8); t.detect = 9; b.toks.push_back(t); }
  return b;
}
// Two codec configs with frames of different size and rate.
Base TwoCodecs(bool swap) {
  Base b; b.name = swap ? "two-codecs-swapped" : "two-codecs"; { Bits x; x.put(32, 0x69616d66); x.put(8, 3); x.put(8, 3); b.desc = st::Obu(31, x.b); }
  auto cc = [&](uint32_t id, uint32_t n, uint32_t rate) { Bits x; x.leb(id); x.put(32, 0x6970636d); x.leb(n); x.put(16, 0); x.put(8, 1); x.put(8, 16); x.put(32, rate); b.desc = Cat(b.desc, st::Obu(0, x.b)); b.env.rate[id] = rate; };
  if (swap) { cc(201, 6, 16000); cc(200, 4, 48000); } else { cc(200, 4, 48000); cc(201, 6, 16000); } cc(202, 10, 44100);
  auto el = [&](uint32_t id, uint32_t codec, uint32_t sid) { Bits x; x.leb(id); x.put(3, 0); x.put(5, 0); x.leb(codec); x.leb(1); x.leb(sid); x.leb(0); x.put(3, 1); x.put(5, 0); x.put(4, 1); x.put(4, 0); x.put(8, 1); x.put(8, 1); b.desc = Cat(b.desc, st::Obu(1, x.b)); };
  el(swap ? 301 : 300, 200, 0); el(swap ? 300 : 301, 201, 1); b.env.sub[0] = {4, 200}; b.env.sub[1] = {6, 201};
  st::Stream s; st::Mix m{42, {{300, {901}}, {301, {902}}}, {900}, {0}}; b.desc = Cat(b.desc, st::MixObu(s, m));
  auto F = [&](const char* n, uint32_t id) { Tok t; t.name = n; t.b = st::Obu(6 + id, {1, 2, 3, 4}); t.kind = 2; t.sid = id; b.toks.push_back(t); };
  Tok t; t.name = "T"; t.b = st::Obu(4, {}); t.kind = 1; b.toks = {t}; F("F0", 0); F("F1", 1); F("F2", 2); return b;
}
std::string File(const Bytes& b) { const std::string p = vh::ScratchDir() + "/probe.iamf"; std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), b.size()); return p; }
bool SameReport(Ctx& ctx, const absl::StatusOr<ProbeReport>& a, const absl::StatusOr<ProbeReport>& b, const std::string& what) {
  if (a.ok() != b.ok()) { ctx.Fail(what, "only one of them is ok: " + a.status().ToString() + " / " + b.status().ToString()); return false; }
  if (!a.ok()) return true; const std::string d = Diff(Flatten(*a), Flatten(*b), NoSkip); if (!d.empty()) ctx.Fail(what, d); return d.empty();
}
size_t LebSize(const Bytes& b) { size_t n = 1; while (n < b.size() && n < 8 && b[n] & 0x80) ++n; return n; }
// One sequence of OBUs, in both modes, at every stop.
void Sequence(Ctx& ctx, Base b, std::vector<const Tok*> seq, bool stops, bool cuts) {
  // Reserved and repeated descriptor OBUs ahead of the first temporal unit belong to the descriptors.
  // A header after a redundant one still belongs to this sequence.
  for (bool red = false; !seq.empty() && (seq[0]->kind < 7 || (red && seq[0]->kind == 7)) && (seq[0]->b[0] >> 3 < 3 || seq[0]->b[0] >> 3 > 23);) { if (seq[0]->b[0] >> 3 == 31) red = seq[0]->kind < 7; b.desc = Cat(b.desc, seq[0]->b); seq.erase(seq.begin()); }
  Bytes data = b.desc; for (auto* t : seq) data = Cat(data, t->b); size_t n = seq.size(); for (size_t i = 0; i < seq.size(); ++i) if (seq[i]->kind >= 7) { n = i + 1; break; }
  for (int mode = 0; mode < 2; ++mode) {
    const bool full = mode == 1; ProbeOptions o; o.scan_mode = full ? ScanMode::kScanFull : ScanMode::kScanCounts;
    std::set<uint32_t> rates; std::vector<std::pair<size_t, uint32_t>> prog, got; const Flat want = Model(b.env, seq, n, "eof", full, &prog, &rates);
    o.should_continue = [&](const ScanProgress& p) { got.push_back({p.bytes_consumed, p.temporal_unit_count}); return true; };
    auto r = Probe(data, o); ctx.Transitions(1); if (seq.empty() && absl::IsResourceExhausted(r.status())) continue; if (!seq.empty() && seq[0]->kind == 8 && absl::IsInvalidArgument(r.status())) continue;  // nothing follows which ends the descriptors
    if (!r.ok()) { ctx.Fail("scan", r.status().ToString()); return; }
    if (r->descriptor_bytes_consumed != b.desc.size()) { ctx.Fail("scan", "descriptors end at " + std::to_string(r->descriptor_bytes_consumed)); return; }
    const std::string d = CheckScan(*r, want, rates); if (!d.empty()) { ctx.Fail("scan", (full ? "full: " : "counts: ") + d); return; }
    if (seq.empty() || seq[n - 1]->kind < 7) { if (got != prog) { ctx.Fail("progress", std::to_string(got.size()) + " reports of progress, want " + std::to_string(prog.size())); return; } }
    CheckJson(ctx, *r, Flatten(*r)); ctx.Outcome(vh::Fnv(ProbeReportToJson(*r))); if (ctx.failed_in_case) return;
    if (stops) for (size_t k = 0; k <= n; ++k) {
      const bool last = k == n; std::set<uint32_t> rk; const Flat wk = Model(b.env, seq, k, "cancelled", full, nullptr, &rk);
      size_t calls = 0; ProbeOptions c = o; c.should_continue = [&](const ScanProgress&) { return ++calls <= k; }; auto x = Probe(data, c); ctx.Transitions(1);
      std::string e = !x.ok() ? x.status().ToString() : CheckScan(*x, wk, rk); if (last && !seq.empty() && seq[n - 1]->kind >= 7) e = "";  // it ended by itself
      if (!e.empty()) { ctx.Fail("cancelled", "after " + std::to_string(k) + " OBUs: " + e); return; }
      Flat wb = wk; wb[".temporal_unit_scan.stopped_reason"] = "\"scan_budget_exceeded"; c.should_continue = nullptr; c.max_scan_obu_iterations = k; x = Probe(data, c); ctx.Transitions(1); if (last) continue;  // nothing was left to do
      e = !x.ok() ? x.status().ToString() : CheckScan(*x, wb, rk); if (!e.empty()) { ctx.Fail("budget", "of " + std::to_string(k) + ": " + e); return; }
    }
    if (cuts) { size_t i = 0, pos = b.desc.size();
      for (size_t len = b.desc.size(); len < data.size(); ++len) {
        while (i < seq.size() && pos + seq[i]->b.size() <= len) pos += seq[i++]->b.size();
        if (i >= n) break; const size_t rest = len - pos; std::string why = rest == 0 ? "eof" : "truncated"; if (seq[i]->kind == 8 && rest >= seq[i]->detect) why = "malformed";
        std::set<uint32_t> rk; Flat wk = Model(b.env, seq, i, why, full, nullptr, &rk); ProbeOptions c; c.scan_mode = o.scan_mode; const Bytes part(data.begin(), data.begin() + len);
        auto x = Probe(part, c); ctx.Transitions(1); if (seq[i]->kind == 8 && rest > 5 && rest < seq[i]->detect && x.ok() && x->temporal_unit_scan->stopped_reason == "malformed") continue;  // the size is known to be too large
        if (i == 0 && (rest < 1 + LebSize(seq[0]->b) || seq[0]->kind == 7) && absl::IsResourceExhausted(x.status())) { SameReport(ctx, absl::InvalidArgumentError(""), ProbeFile(File(part), c), "file"); continue; }  // the piece may belong to a descriptor
        const std::string e = !x.ok() ? x.status().ToString() : CheckScan(*x, wk, rk); if (!e.empty()) { ctx.Fail("cut", "at byte " + std::to_string(len) + ": " + e); return; }
        if (rest == 1) SameReport(ctx, x, ProbeFile(File(part), c), "file");
      } }
    if (cuts || stops) { ProbeOptions c; c.scan_mode = o.scan_mode; SameReport(ctx, r, ProbeFile(File(data), c), "file"); vmap::g_order = 1; auto x = Probe(data, c); const std::string e = x.ok() ? CheckScan(*x, want, rates) : "refused"; SameReport(ctx, r, x, "order"); vmap::g_order = 0; if (!e.empty()) ctx.Fail("order", e); }
    if (ctx.failed_in_case) return;
  }
  ctx.Validated(); ctx.State(vh::Fnv(ctx.cur));
}
void Sequences(Ctx& ctx) {
  for (const Base& b : {Scalable(), TwoCodecs(false), TwoCodecs(true)}) {
    auto go = [&](size_t alphabet, size_t depth, size_t from, bool stops, bool cuts) {
      std::vector<size_t> ix; std::function<void()> rec = [&] {
        if (ctx.stop) return;
        if (ix.size() >= from) { if (!ctx.NextIsMine()) ctx.Skip(); else { std::string name = std::string(b.name) + ":"; std::vector<const Tok*> seq; for (size_t i : ix) { name += std::string(" ") + b.toks[i].name; seq.push_back(&b.toks[i]); } if (ctx.Mine(name)) Sequence(ctx, b, seq, stops, cuts); } }
        if (ix.size() == depth) return; if (!ix.empty() && b.toks[ix.back()].kind >= 7) return;
        for (size_t i = 0; i < std::min(alphabet, b.toks.size()); ++i) { ix.push_back(i); rec(); ix.pop_back(); }
      }; rec();
    };
    const bool t = ctx.thorough; go(99, 2, 0, true, true); go(99, t ? 4 : 3, 3, t, false); go(8, t ? 5 : 4, t ? 5 : 4, true, t); if (b.toks.size() < 8) go(99, t ? 7 : 5, t ? 6 : 5, true, false);
  }
}
// Well-formed streams: every unit found where it is, with its samples and trims.
void Streams(Ctx& ctx) {
  struct In { std::string name; Bytes desc; std::vector<Bytes> units; std::vector<std::pair<uint32_t, uint32_t>> trims; uint32_t n; bool plain; }; std::vector<In> all;
  for (auto& r : st::Recipes()) { In x{r.name, st::Descriptors(r.s), {}, {}, r.s.n, true}; for (size_t i = 0; i < r.s.tus.size(); ++i) { x.units.push_back(st::TuBytes(r.s, i)); x.trims.push_back({r.s.tus[i].trim_start, r.s.tus[i].trim_end}); if (!r.s.tus[i].delim && r.name == "reserved") x.plain = false; } all.push_back(x); }
  for (auto& e : st::ExtraStreams()) { In x{e.name, e.desc, e.units, {}, 2, true}; x.trims.resize(e.units.size()); all.push_back(x); }
  for (auto& x : all) {
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine("stream:" + x.name)) continue;
    Bytes data = x.desc; std::vector<size_t> at; for (auto& u : x.units) { at.push_back(data.size() - x.desc.size()); data = Cat(data, u); }
    ProbeOptions o; o.scan_mode = ScanMode::kScanFull; auto r = Probe(data, o); if (!r.ok()) { ctx.Fail("stream", r.status().ToString()); continue; }
    auto& t = *r->temporal_unit_scan; std::string why; if (r->descriptor_bytes_consumed != x.desc.size()) why = "end of descriptors"; else if (t.stopped_reason != "eof" || t.bytes_consumed + x.desc.size() != data.size()) why = "end"; else if (t.temporal_unit_count != x.units.size() || t.temporal_units.size() != x.units.size()) why = "number of units"; else if (t.total_samples != (uint64_t)x.n * x.units.size()) why = "total";
    for (size_t i = 0; why.empty() && i < x.units.size(); ++i) { auto& u = t.temporal_units[i]; if (u.byte_offset_from_scan_start != at[i] || u.start_timestamp != (uint64_t)x.n * i || u.num_samples != x.n || u.samples_to_trim_at_start != x.trims[i].first || u.samples_to_trim_at_end != x.trims[i].second) why = "unit " + std::to_string(i); }
    if (!why.empty()) ctx.Fail("stream", why); CheckJson(ctx, *r, Flatten(*r));
    // Descriptors alone are enough, and every shorter prefix is told to be too short.
    ProbeOptions d; auto only = Probe(data, d); if (!only.ok() || only->temporal_unit_scan.has_value()) ctx.Fail("stream", "descriptors only");
    for (size_t len = 0; len <= data.size() && len <= x.desc.size() + 2 && !ctx.failed_in_case; ++len) {
      const Bytes part(data.begin(), data.begin() + len); auto p = Probe(part, d), f = ProbeFile(File(part), d); ctx.Transitions(2); ctx.Validated();
      if (len < x.desc.size() ? p.ok() || p.status().code() != absl::StatusCode::kResourceExhausted || f.ok() || f.status().code() != absl::StatusCode::kInvalidArgument : false) ctx.Fail("prefix", std::to_string(len) + " bytes: " + p.status().ToString() + " / " + f.status().ToString());
      if (len > x.desc.size() + 1) SameReport(ctx, only, p, "prefix"), SameReport(ctx, only, f, "file");
      if (len >= x.desc.size()) SameReport(ctx, p, [&]() -> absl::StatusOr<ProbeReport> { if (f.ok()) return f; return p.ok() ? f : p; }(), "file");
    }
    // Large OBUs move every boundary across the window of the file reader.
    const Bytes tail(data.begin() + x.desc.size(), data.end());
    for (size_t at2 = 0; at2 < tail.size() && !ctx.failed_in_case; at2 += ctx.thorough ? 1 : 5) { const size_t fill = 65536 - x.desc.size() - at2; Bytes big = Cat(Cat(x.desc, st::Obu(26, Bytes(fill - 4, 0x21))), tail); SameReport(ctx, Probe(big, o), ProbeFile(File(big), o), "window"); ctx.Transitions(2); }
    ctx.State(vh::Fnv(x.name));
  }
  if (ctx.NextIsMine()) { if (ctx.Mine("no file")) { auto f = ProbeFile(vh::ScratchDir() + "/none", {}); if (f.ok() || f.status().code() != absl::StatusCode::kNotFound) ctx.Fail("file", f.status().ToString()); } } else ctx.Skip();
}

// --- descriptors -----------------------------------------------------------------
using Kv = std::vector<std::pair<std::string, std::string>>;
Kv Split(const std::string& d) { Kv v; size_t i = 0; while (i < d.size()) { size_t e = d.find(';', i), q = d.find('=', i); if (e == std::string::npos || q == std::string::npos || q > e) break; v.push_back({d.substr(i, q - i), d.substr(q + 1, e - q - 1)}); i = e + 1; } return v; }
std::string Join(const Kv& v) { std::string s; for (auto& [k, x] : v) s += k + "=" + x + ";"; return s; }
struct Out { Kv v; template <class T> void f(const char* k, T x) { v.push_back({k, std::to_string((long long)x)}); } void s(const char* k, const std::string& x) { v.push_back({k, x}); } template <class V> void b(const char* k, const V& x) { std::string o; for (auto y : x) o += std::to_string((int)y) + " "; v.push_back({k, o}); } };
Kv Keep(const Kv& v, const std::set<std::string>& keys) { Kv o; for (auto& x : v) if (keys.count(x.first)) o.push_back(x); return o; }
// Labels: a raw value always has the same one, and no other value has it.
struct Labels { std::map<std::string, std::map<long, std::string>> by; std::string Add(const std::string& kind, long raw, const std::string& label) { auto& m = by[kind]; auto it = m.find(raw); if (it != m.end()) return it->second == label ? "" : kind + " " + std::to_string(raw) + " is called " + label + " and " + it->second; for (auto& [r, l] : m) if (l == label) return kind + " " + std::to_string(raw) + " and " + std::to_string(r) + " are both called " + label; if (label.find("reserved(") == 0 && label != "reserved(" + std::to_string(raw) + ")") return kind + " " + std::to_string(raw) + " is called " + label; m[raw] = label; return ""; } };
Labels& L() { static Labels l; return l; }
void Label(Ctx& ctx, const std::string& kind, long raw, const std::string& label) { const std::string e = L().Add(kind, raw, label); if (!e.empty()) ctx.Fail("label", e); }
void Known(Ctx& ctx) {  // the labels which the interface names
  for (auto& [k, r, s] : std::vector<std::tuple<const char*, long, const char*>>{{"profile", 0, "simple"}, {"profile", 1, "base"}, {"profile", 2, "base_enhanced"}, {"codec", 0x4f707573, "Opus"}, {"codec", 0x664c6143, "FLAC"}, {"codec", 0x6970636d, "LPCM"}, {"codec", 0x6d703461, "AAC LC"}, {"lpcm", 0, "big_endian"}, {"lpcm", 1, "little_endian"}, {"aacrate", 3, "48000"}, {"flacblock", 0, "StreamInfo"}, {"flacblock", 1, "Padding"}, {"eltype", 0, "channel_based"}, {"eltype", 1, "scene_based"}, {"eltype", 2, "object_based"}, {"layout", 1, "Stereo"}, {"layout", 4, "5.1.4"}, {"layout", 15, "Expanded"}, {"layout", 2, "5.1"}, {"layout", 3, "5.1.2"}, {"layout", 5, "7.1"}, {"layout", 6, "7.1.2"}, {"layout", 7, "7.1.4"}, {"layout", 8, "3.1.2"}, {"layout", 0, "Mono"}, {"ambi", 0, "mono"}, {"ambi", 1, "projection"}, {"ptype", 0, "mix_gain"}, {"ptype", 1, "demixing"}, {"ptype", 2, "recon_gain"}, {"hrm", 0, "stereo"}, {"hrm", 1, "binaural_world_locked"}, {"hrm", 2, "binaural_head_locked"}, {"bfp", 0, "ambient"}, {"bfp", 1, "direct"}, {"bfp", 2, "reverberant"}, {"anchor", 0, "unknown"}, {"anchor", 1, "dialogue"}, {"anchor", 2, "album"}, {"lt", 2, "loudspeakers_ss_convention"}, {"lt", 3, "binaural"}, {"ss", 0, "Stereo"}, {"ss", 1, "5.1"}, {"ss", 2, "5.1.2"}, {"ss", 3, "5.1.4"}, {"ss", 8, "7.1"}, {"ss", 9, "7.1.4"}, {"ss", 10, "7.1.2"}, {"ss", 11, "3.1.2"}, {"ss", 12, "Mono"}, {"ss", 13, "9.1.6"}}) Label(ctx, k, r, s);
}
Kv CodecOf(Ctx& ctx, const CodecConfigReport& c) {
  Out o; o.f("id", c.id); o.f("codec", c.codec_id_raw); Label(ctx, "codec", c.codec_id_raw, c.codec_id); o.f("nspf", c.num_samples_per_frame); o.f("roll", c.audio_roll_distance);
  if ((int)c.opus.has_value() + c.lpcm.has_value() + c.aac.has_value() + c.flac.has_value() != 1) ctx.Fail("codec", "decoder configs reported");
  if (c.lpcm) { o.f("flags", c.lpcm->sample_format_raw); Label(ctx, "lpcm", c.lpcm->sample_format_raw, c.lpcm->sample_format); o.f("size", c.lpcm->sample_size); o.f("rate", c.lpcm->sample_rate); }
  if (c.opus) { auto& x = *c.opus; o.f("version", x.version); o.f("channels", x.output_channel_count); o.f("pre_skip", x.pre_skip); o.f("input_rate", x.input_sample_rate); o.f("gain", x.output_gain_q7_8); o.f("family", x.mapping_family); }
  if (c.flac) { o.f("blocks", c.flac->metadata_blocks.size()); for (auto& b : c.flac->metadata_blocks) { o.f("type", b.block_type_raw); Label(ctx, "flacblock", b.block_type_raw, b.block_type); if (b.is_stream_info) { o.f("minb", b.minimum_block_size); o.f("maxb", b.maximum_block_size); o.f("minf", b.minimum_frame_size); o.f("maxf", b.maximum_frame_size); o.f("rate", b.sample_rate); o.f("ch", b.number_of_channels); o.f("bps", b.bits_per_sample); o.f("total", b.total_samples_in_stream); } } }
  if (c.aac) { auto& x = *c.aac; o.f("oti", x.object_type_indication); o.f("st", x.stream_type); o.f("up", x.upstream); o.f("res", x.reserved); o.f("buf", x.buffer_size_db); o.f("max", x.max_bitrate); o.f("avg", x.average_bit_rate); o.f("aot", x.audio_object_type); o.f("fi", x.sample_frequency_index_raw); Label(ctx, "aacrate", x.sample_frequency_index_raw, x.sample_frequency_index); o.f("ch", x.channel_configuration); }
  o.f("orate", c.output_sample_rate); o.f("irate", c.input_sample_rate); o.f("bd", c.bit_depth); return o.v;
}
template <class P> void ParamOf(Out& o, const P& p) { o.f("pid", p.parameter_id); o.f("prate", p.parameter_rate); o.f("mode", p.param_definition_mode); if (!p.param_definition_mode) { o.f("dur", p.duration); o.f("cdur", p.constant_subblock_duration); } }
Kv ElementOf(Ctx& ctx, const AudioElementReport& a) {
  Out o; o.f("id", a.id); o.f("type", a.type_raw); Label(ctx, "eltype", a.type_raw, a.type); o.f("ccid", a.codec_config_id); o.f("nsub", a.num_substreams); for (auto x : a.substream_ids) o.f("sid", x); o.f("nparam", a.params.size());
  for (auto& p : a.params) { o.f("ptype", p.param_type_raw); Label(ctx, "ptype", p.param_type_raw, p.param_type); if (p.param_type_raw == 1 || p.param_type_raw == 2) ParamOf(o, p); }
  long channels = -1, order = -1, top = -1, topx = -1;
  if (a.type_raw == 0) {
    channels = 0; o.f("layers", a.scalable_layers.size()); for (auto& l : a.scalable_layers) { o.f("layout", l.loudspeaker_layout_raw); Label(ctx, "layout", l.loudspeaker_layout_raw, l.loudspeaker_layout); o.f("og", l.output_gain_is_present_flag); o.f("rg", l.recon_gain_is_present_flag); o.f("sc", l.substream_count); o.f("cc", l.coupled_substream_count); if (l.output_gain_is_present_flag) { o.f("ogf", l.output_gain_flag); o.f("ogv", l.output_gain_q7_8); if (l.output_gain != l.output_gain_q7_8 / 256.0f) ctx.Fail("element", "output gain"); }
      if (l.expanded_loudspeaker_layout_raw) { o.f("exp", *l.expanded_loudspeaker_layout_raw); if (l.expanded_loudspeaker_layout) Label(ctx, "exp", *l.expanded_loudspeaker_layout_raw, *l.expanded_loudspeaker_layout); else ctx.Fail("element", "no name of the expanded layout"); } else o.s("exp", "none"); channels += l.substream_count + l.coupled_substream_count; top = l.loudspeaker_layout_raw; topx = l.expanded_loudspeaker_layout_raw ? (long)*l.expanded_loudspeaker_layout_raw : -1; if (&l == &a.scalable_layers.back() && a.channel_layout != l.loudspeaker_layout) ctx.Fail("element", "channel_layout"); }
  } else if (a.type_raw == 1 && a.ambisonics) {
    auto& m = *a.ambisonics; o.f("amode", m.mode_raw); Label(ctx, "ambi", m.mode_raw, m.mode);
    if (m.mono) { channels = m.mono->output_channel_count; o.f("occ", m.mono->output_channel_count); o.f("n", m.mono->substream_count); o.b("map", m.mono->channel_mapping); }
    if (m.projection) { channels = m.projection->output_channel_count; o.f("occ", m.projection->output_channel_count); o.f("n", m.projection->substream_count); o.f("m", m.projection->coupled_substream_count); for (auto v : m.projection->demixing_matrix) o.f("dm", v); }
    for (long k = 0; k < 15; ++k) if ((k + 1) * (k + 1) == channels) order = k; if (m.order.value_or(-1) != order) ctx.Fail("element", "order"); if (a.ambisonics_channels.value_or(-1) != channels) ctx.Fail("element", "ambisonics_channels");
  }
  if (a.ambisonics_order.value_or(-1) != order || (a.num_channels ? (long)*a.num_channels : -1) != channels || (a.channel_layout_raw ? (long)*a.channel_layout_raw : -1) != top || (a.expanded_channel_layout_raw ? (long)*a.expanded_channel_layout_raw : -1) != topx) ctx.Fail("element", "summary fields");
  return o.v;
}
void GainOf(Ctx& ctx, Out& o, const MixGainParamDefinitionReport& g) { ParamOf(o, g.param_definition); o.f("mg", g.default_mix_gain_q7_8); if (g.default_mix_gain != g.default_mix_gain_q7_8 / 256.0f) ctx.Fail("mix", "default gain in dB"); }
Kv MixOf(Ctx& ctx, const MixPresentationReport& m) {
  Out o; o.f("id", m.id); o.f("nlab", m.annotations.size()); if (m.count_label != m.annotations.size()) ctx.Fail("mix", "count_label"); for (auto& a : m.annotations) o.s("lang", a.first); for (auto& a : m.annotations) o.s("ann", a.second); o.f("nsm", m.num_sub_mixes); if (m.num_sub_mixes != m.sub_mixes.size()) ctx.Fail("mix", "num_sub_mixes");
  auto q = [&](float f, long raw) { if (f != raw / 256.0f) ctx.Fail("mix", "loudness"); }; (void)q; auto raw = [](float f) { return std::lround(f * 256.0f); };
  for (auto& s : m.sub_mixes) {
    o.f("ne", s.audio_elements.size()); for (auto& e : s.audio_elements) { o.f("aeid", e.audio_element_id); for (auto& x : e.localized_element_annotations) o.s("eann", x); o.f("hrm", e.rendering_config.headphones_rendering_mode_raw); Label(ctx, "hrm", e.rendering_config.headphones_rendering_mode_raw, e.rendering_config.headphones_rendering_mode); o.f("bfp", e.rendering_config.binaural_filter_profile_raw); Label(ctx, "bfp", e.rendering_config.binaural_filter_profile_raw, e.rendering_config.binaural_filter_profile); GainOf(ctx, o, e.element_mix_gain); }
    GainOf(ctx, o, s.output_mix_gain); o.f("nlay", s.layouts.size());
    for (auto& l : s.layouts) { o.f("lt", l.loudness_layout.layout_type_raw); Label(ctx, "lt", l.loudness_layout.layout_type_raw, l.loudness_layout.layout_type); if (l.loudness_layout.sound_system_raw) { o.f("ss", *l.loudness_layout.sound_system_raw); Label(ctx, "ss", *l.loudness_layout.sound_system_raw, l.loudness_layout.sound_system.value_or("")); } auto& i = l.loudness; o.f("it", i.info_type); o.f("il", raw(i.integrated_loudness)); o.f("dp", raw(i.digital_peak)); if (i.true_peak) o.f("tp", raw(*i.true_peak)); else o.s("tp", "none");
      if (i.true_peak_present != (i.info_type & 1) || i.anchored_loudness_present != (i.info_type >> 1 & 1) || i.has_layout_extension != ((i.info_type & 0xfc) != 0)) ctx.Fail("mix", "info type flags");
      if (i.anchored_loudness_present) { o.f("nanch", i.anchored_loudness_elements.size()); for (auto& a : i.anchored_loudness_elements) { o.f("ae", a.anchor_element_raw); Label(ctx, "anchor", a.anchor_element_raw, a.anchor_element); o.f("al", a.anchored_loudness_q7_8); if (a.anchored_loudness != a.anchored_loudness_q7_8 / 256.0f) ctx.Fail("mix", "anchored loudness"); } } else o.s("nanch", "none"); }
  }
  for (auto& t : m.tags) { o.s("tn", t.tag_name); o.s("tv", t.tag_value); }
  if (!m.sub_mixes.empty() && !m.sub_mixes[0].layouts.empty()) { auto& l = m.sub_mixes[0].layouts; bool ok = m.layouts.size() == l.size() && m.integrated_loudness_lkfs == l[0].loudness.integrated_loudness && m.digital_peak_dbfs == l[0].loudness.digital_peak && m.true_peak_dbfs == l[0].loudness.true_peak; for (size_t i = 0; ok && i < l.size(); ++i) ok = m.layouts[i] == l[i].loudness_layout.sound_system.value_or(l[i].loudness_layout.layout_type); if (!ok) ctx.Fail("mix", "summary fields"); }
  return o.v;
}
Kv WantCodec(const std::string& d) { return Keep(Split(d), {"id", "codec", "nspf", "roll", "flags", "size", "rate", "version", "channels", "pre_skip", "input_rate", "gain", "family", "blocks", "type", "minb", "maxb", "minf", "maxf", "ch", "bps", "total", "oti", "st", "up", "res", "buf", "max", "avg", "aot", "fi", "orate", "irate", "bd"}); }
Kv WantElement(const std::string& d) { Kv o; bool first = true; for (auto& x : Keep(Split(d), {"id", "type", "ccid", "nsub", "sid", "nparam", "ptype", "pid", "prate", "mode", "dur", "cdur", "layers", "layout", "og", "rg", "sc", "cc", "ogf", "ogv", "exp", "amode", "occ", "n", "map", "m", "dm"})) { if (x.first == "nsub" && !first) continue; if (x.first == "nsub") first = false; o.push_back(x); } return o; }
Kv WantMix(const std::string& d) { Kv o; bool skip = false; for (auto& x : Split(d)) { if (x.first == "rext") { skip = false; continue; } if (skip) continue; static const std::set<std::string> keys = {"id", "nlab", "lang", "ann", "nsm", "ne", "aeid", "eann", "hrm", "bfp", "pid", "prate", "mode", "dur", "cdur", "mg", "nlay", "lt", "ss", "it", "il", "dp", "tp", "nanch", "ae", "al", "tn", "tv"}; if (keys.count(x.first)) o.push_back(x); if (x.first == "bfp") skip = true; } return o; }
void Descriptors(Ctx& ctx) {
  Known(ctx); const Bytes seq = st::SequenceHeader(st::Stream()), cc = st::CodecConfig(st::Stream()), td = st::Obu(4, {});
  struct Kind { const char* name; int type; bool flag; int devq, devt; };
  for (auto& k : std::vector<Kind>{{"seq", 31, false, 3, 4}, {"codec", 0, false, 2, 3}, {"element", 1, false, 2, 3}, {"mix", 2, false, 1, 2}, {"mixopt", 2, true, 1, 2}}) {
    Chooser c(ctx.thorough ? k.devt : k.devq);
    do {
      gram::G g(c); size_t end = 0; switch (k.type) { case 31: gram::IaSequenceHeader(g); break; case 0: gram::CodecConfig(g); break; case 1: gram::AudioElement(g); break; default: gram::MixPresentation(g, k.flag, &end); }
      auto fr = gram::Frame(c, k.type, g.in.b, g.out.b, false, k.flag); if (k.type == 2 && ((fr.in[0] >> 1 & 1) != (k.flag ? 1 : 0))) g.unk = true; if (g.d.find('?') != std::string::npos) g.unk = true;
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine(std::string(k.name) + ":" + c.Name())) continue;
      const bool valid = g.ok && fr.ok, redundant = fr.in[0] >> 2 & 1; Bytes data; Kv want;
      if (k.type == 31) data = Cat(fr.in, cc); else if (k.type == 0) data = Cat(seq, fr.in); else if (k.type == 1) data = Cat(Cat(seq, cc), fr.in);
      else { data = Cat(seq, cc); std::set<uint32_t> ids; uint32_t sid = 500; for (auto& x : Split(g.d)) if (x.first == "aeid") { const uint64_t id = std::stoull(x.second); if (id < 400 && ids.insert(id).second) { st::Elem e{(uint32_t)id, st::kMono, sid++, {}}; data = Cat(data, st::ElementObu(e)); } } data = Cat(data, fr.in); }
      const Bytes whole = Cat(data, td); auto r = Probe(whole, {}); ctx.Transitions(1); ctx.Outcome(vh::Fnv(std::string(k.name) + (r.ok() ? "ok" : std::string(r.status().message()).substr(0, 40)) + (valid ? "v" : "i")));
      if (redundant || g.unk) continue;  // judged elsewhere
      if (!r.ok()) { if (valid && k.type != 1 && k.type != 2) ctx.Fail(k.name, "refused: " + r.status().ToString()); continue; }
      if (r->descriptor_bytes_consumed != data.size()) ctx.Fail(k.name, "descriptors end at " + std::to_string(r->descriptor_bytes_consumed) + " not " + std::to_string(data.size()));
      const Flat flat = Flatten(*r); CheckJson(ctx, *r, flat); if (ctx.failed_in_case) continue;
      if (k.type == 31) { if (!valid) ctx.Fail("seq", "accepted"); Out o; o.f("primary", r->primary_profile_raw); o.f("additional", r->additional_profile_raw); if (Join(o.v) != g.d) ctx.Fail("seq", Join(o.v) + " want " + g.d); Label(ctx, "profile", r->primary_profile_raw, r->primary_profile); if (r->additional_profile_raw <= 5) Label(ctx, "profile", r->additional_profile_raw, r->additional_profile); }
      auto one = [&](const auto& list, const Kv& want, auto of) {
        if (list.empty()) { if (valid && k.type == 0) ctx.Fail(k.name, "not reported"); ctx.Count(std::string(k.name) + "_absent"); return; } if (!valid) { ctx.Fail(k.name, "an invalid OBU is reported"); return; }
        if (list.size() != 1) { ctx.Fail(k.name, std::to_string(list.size()) + " reported"); return; } const Kv got = of(ctx, list[0]); if (got != want) ctx.Fail(k.name, Join(got).substr(0, 700) + " want " + Join(want).substr(0, 700)); ctx.Validated(); ctx.Count(std::string(k.name) + "_compared");
      };
      if (k.type == 0) { one(r->codec_configs, WantCodec(g.d), CodecOf);
        uint64_t total = 0, rate = 0; for (auto& [key, v] : Split(g.d)) { if (key == "total" && !total) total = std::stoull(v); if (key == "orate") rate = std::stoull(v); }
        if (valid && (r->descriptor_total_samples.value_or(0) != total || (total && std::fabs(r->descriptor_duration_seconds.value_or(-1) - (double)total / rate) > 1e-6 * total / rate))) { size_t infos = 0; for (auto& [key, v] : Split(g.d)) infos += key == "minb"; if (infos <= 1) ctx.Fail("codec", "descriptor duration"); } }
      if (k.type == 1) one(r->audio_elements, WantElement(g.d), ElementOf);
      if (k.type == 2) one(r->mix_presentations, WantMix(g.d), MixOf);
      if (k.type != 2) { const Bytes cut(whole.begin(), whole.end() - 2); auto p = Probe(cut, {}); if (p.ok() && p->descriptor_bytes_consumed > cut.size()) ctx.Fail(k.name, "reads past the end"); }
      vmap::g_order = 1; SameReport(ctx, r, Probe(whole, {}), "order"); vmap::g_order = 0;
    } while (c.Next() && !ctx.stop);
  }
}
// Strings of the JSON form: every byte, alone and between others.
void Strings(Ctx& ctx) {
  for (int c = 1; c < 256; ++c) for (int shape = 0; shape < 3; ++shape) {
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (!ctx.Mine("string:" + std::to_string(c) + "/" + std::to_string(shape))) continue;
    const std::string s = shape == 0 ? std::string(1, (char)c) : shape == 1 ? std::string("a") + (char)c + "b" : std::string(2, (char)c) + "\"" + (char)c + "\\";
    ProbeReport r; r.primary_profile = s; MixPresentationReport m{}; m.annotations = {{s, "x"}, {"en", s}}; m.count_label = 2; m.tags = {{s, s}}; m.layouts = {s}; SubMixReport sm{}; SubMixAudioElementReport e{}; e.localized_element_annotations = {s, "", s}; sm.audio_elements = {e}; m.sub_mixes = {sm}; r.mix_presentations = {m};
    CheckJson(ctx, r, Flatten(r)); ctx.State(vh::Fnv(s)); ctx.Outcome(vh::Fnv(s));
  }
}
void Explore(Ctx& ctx) { Streams(ctx); Strings(ctx); Descriptors(ctx); Sequences(ctx); }
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C17";
  s.rule = "every sequence of up to 3 (thorough 4) OBUs out of 27 kinds of temporal-unit OBUs (frames with implicit, explicit, padded and unknown ids, trims, extension; blocks of every kind, unknown, damaged; delimiters, reserved, redundant, damaged headers, garbage, next sequence), 4 (5) out of 8, 6 (7) over two codecs; both scan modes; cut at every byte; stopped by cancellation and by budget after every OBU; the file reader with every boundary across its window; every descriptor OBU of the reference grammar with up to 1-3 deviations; the JSON form parsed back; both hash orders";
  s.assumptions = {"the seek index need not be part of the JSON form", "the reserved bits of an audio element are not reported"};
  s.min_cases = 5000; s.min_outcomes = 300; return vh::Run(argc, argv, s, Explore);
}
