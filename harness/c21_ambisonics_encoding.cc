// C21: what is given to the encoder as an ambisonics element comes out of the decoder
// as that sound field: presets of every order with every codec, mono elements with any
// channel mapping, projection elements with any split into substreams.
#include <numeric>
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
using vh::Ctx; using namespace enc;
namespace {
struct E { uint32_t id = 300; int order = 1, kind = 0; std::vector<int> map; int subs = 4, coupled = 0; std::vector<int16_t> mat; int turn = 0; int16_t gain = 0; int sid = 0, extra = 0, pat = 0; };  // kind 0: preset, 1: mono, 2: projection
struct Case { Cfg c; std::vector<E> es; int16_t out = 0; bool reverse = false, float_api = true; };
int N(const E& e) { return (e.order + 1) * (e.order + 1); }
// Channels the encoder is given (numbers of the labels A_n), and substreams.
std::vector<int> In(const E& e) { std::vector<int> v; const int n = e.kind == 2 ? e.subs + e.coupled : N(e); for (int i = 0; i < n; ++i) if (e.kind != 1 || e.map[i] != 255) v.push_back(i); std::rotate(v.begin(), v.begin() + (v.empty() ? 0 : e.turn % v.size()), v.end()); return v; }
int Subs(const Case& k, const E& e) { return (e.kind ? e.subs : k.c.codec == kOpus && e.order == 3 ? 8 : N(e)) + e.extra; }
double Sig(const Case& k, size_t e, int ch, int64_t t) { if (t < 0 || t >= (int64_t)k.c.samples) return 0; uint64_t x = (e * 977 + ch * 131 + t * 2654435761ull + 99) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return ((int)(x % 4096) - 2048) / 32768.0; }
double Acn(const Case& k, size_t ei, int i, int64_t t) {
  const E& e = k.es[ei]; if (e.kind == 1 && e.map[i] == 255) return 0; if (e.kind != 2) return Sig(k, ei, i, t);
  double v = 0; for (int j = 0; j < e.subs + e.coupled; ++j) v += e.mat[j * N(e) + i] / 32768.0 * Sig(k, ei, j, t); return v;
}
pb::UserMetadata Make(const Case& k) {
  pb::UserMetadata u = Meta(k.c); if (k.c.codec == kOpus) u.mutable_codec_config_metadata(0)->mutable_codec_config()->mutable_decoder_config_opus()->mutable_opus_encoder_metadata()->set_use_float_api(k.float_api);
  std::vector<size_t> at(k.es.size()); std::iota(at.begin(), at.end(), 0); if (k.reverse) std::reverse(at.begin(), at.end());
  for (size_t x : at) {
    const E& e = k.es[x]; auto* a = u.add_audio_element_metadata(); a->set_audio_element_id(e.id); a->set_codec_config_id(200); a->set_audio_element_type(pb::AUDIO_ELEMENT_SCENE_BASED); for (int i = 0; i < Subs(k, e); ++i) a->add_audio_substream_ids(e.sid + i);
    auto* g = a->mutable_ambisonics_config();
    if (e.kind == 0) g->mutable_ambisonics_preset_config()->set_ambisonics_preset((pb::AmbisonicsPreset)(e.order + 1));
    if (e.kind == 1) { auto* m = g->mutable_ambisonics_mono_config(); m->set_output_channel_count(N(e)); m->set_substream_count(e.subs); for (int v : e.map) m->add_channel_mapping(v); }
    if (e.kind == 2) { auto* m = g->mutable_ambisonics_projection_config(); m->set_output_channel_count(N(e)); m->set_substream_count(e.subs); m->set_coupled_substream_count(e.coupled); for (int v : e.mat) m->add_demixing_matrix(v); }
    auto* f = u.add_audio_frame_metadata(); f->set_audio_element_id(e.id); f->set_samples_to_trim_at_start(k.c.trim_start); f->set_samples_to_trim_at_end(k.c.trim_end); f->set_samples_to_trim_at_start_includes_codec_delay(false); f->set_samples_to_trim_at_end_includes_padding(false);
    int n = 0; for (int i : In(e)) { auto* m = f->add_channel_metadatas(); m->set_channel_id(n++); m->set_channel_label(Label("A_" + std::to_string(i))); }
  }
  auto* x = u.add_mix_presentation_metadata(); x->set_mix_presentation_id(42); auto* sm = x->add_sub_mixes(); uint32_t pid = 9000; auto gain = [&](pb::MixGainParamDefinition* p, int16_t v) { SetGain({pid++, v}, k.c.s.rate, p); };
  for (auto& e : k.es) { auto* a = sm->add_audio_elements(); a->set_audio_element_id(e.id); a->mutable_rendering_config()->set_headphones_rendering_mode(pb::HEADPHONES_RENDERING_MODE_STEREO); gain(a->mutable_element_mix_gain(), e.gain); } gain(sm->mutable_output_mix_gain(), k.out);
  for (int l : {0, 7}) { auto* y = sm->add_layouts(); auto* z = y->mutable_loudness_layout(); z->set_layout_type(pb::LAYOUT_TYPE_LOUDSPEAKERS_SS_CONVENTION); z->mutable_ss_layout()->set_sound_system((pb::SoundSystem)(l + 1)); y->mutable_loudness(); }
  return u;
}
Out Encode(const Case& k) {
  Out o; auto bad = [&](const char* w, const absl::Status& s) { if (s.ok()) return false; o.ok = false; o.where = w; o.err = std::string(s.message()); return true; };
  std::string ser; Make(k).SerializeToString(&ser); auto made = api::IamfEncoderFactory::CreateIamfEncoder(ser); if (bad("create", made.status())) return o; auto e = std::move(*made);
  const uint64_t n = k.c.s.n, nin = (k.c.samples + n - 1) / n; uint64_t i = 0; Bytes tu; if (!nin && bad("finalize", e->FinalizeEncode())) return o;
  for (; e->GeneratingTemporalUnits(); ++i) {
    if (o.calls++ > nin + 40) { o.ok = false; o.where = "endless"; return o; }
    Input in; if (i < nin) for (size_t x = 0; x < k.es.size(); ++x) for (int ch : In(k.es[x])) { auto l = SerLabel("A_" + std::to_string(ch)); auto& v = in.v[{(int)x, l}]; for (uint64_t t = i * n; t < std::min((i + 1) * n, k.c.samples); ++t) v.push_back(Sig(k, x, ch, t)); in.data.audio_element_id_to_data[k.es[x].id][l] = absl::MakeConstSpan(v); }
    if (bad("encode", e->Encode(in.data))) return o;
    if (i + 1 == nin && bad("finalize", e->FinalizeEncode())) return o;
    tu.clear(); if (bad("output", e->OutputTemporalUnit(tu))) return o; if (!tu.empty()) o.units.push_back(tu);
  }
  bad("descriptors", e->GetDescriptorObus(false, o.desc, o.fin)); return o;
}
// At most 28 channels fit in a mix; whether missing ones count is not judged.
void RunCase(Ctx& ctx, const Case& k, bool expect = true, bool may = false) {
  Out o = Encode(k); ctx.Transitions(o.calls + 1); if (!o.ok) { if (expect && !(may && o.where == "create")) ctx.Fail("encode", o.where + ": " + o.err); else ctx.Count("refused"); return; } if (!expect) return ctx.Fail("accepted", "");
  const uint64_t total = Delay(k.c.codec) + k.c.samples, frames = k.c.samples ? (total + k.c.s.n - 1) / k.c.s.n : 0; if (o.units.size() != frames) return ctx.Fail("units", std::to_string(o.units.size()) + " want " + std::to_string(frames));
  Bytes all = o.desc; for (auto& u : o.units) all.insert(all.end(), u.begin(), u.end()); ctx.State(vh::Fnv(all.data(), all.size()));
  bool approx = false; for (auto& e : k.es) approx |= e.kind == 0 && e.order == 3 && k.c.codec == kOpus; const double tol = (approx ? 131072 : 4096) + (k.c.codec == kOpus && !k.float_api ? 65536. * 8 : 0);
  for (int l : {0, 7}) {
    dec::api::IamfDecoder::Settings set; set.requested_output_sample_type = dec::api::OutputSampleType::kInt32LittleEndian; set.requested_mix.output_layout = dec::ApiLayout(l);
    auto r = dec::Standalone(all, set, {}, dec::kDrainEach); if (!r.ok) return ctx.Fail("decode", r.err); if (k.c.samples && r.layout != l) return ctx.Fail("layout", r.Str() + " desc " + std::to_string(o.desc.size()) + " " + std::to_string(o.units.size()) + " ask " + std::to_string(l));
    Bytes got; for (auto& t : r.tus) got.insert(got.end(), t.begin(), t.end()); st::Pcm want;
    for (int64_t t = k.c.trim_start; t < (int64_t)k.c.samples - k.c.trim_end; ++t) { std::vector<double> row(st::OutCh(l), 0.0); for (size_t x = 0; x < k.es.size(); ++x) { auto* g = gains::Find("A" + std::to_string(k.es[x].order), st::OutKey(l)); if (!g) return ctx.Fail("harness", "no gains"); for (int i = 0; i < N(k.es[x]); ++i) { const double a = Acn(k, x, i, t) * st::Db(k.es[x].gain) * st::Db(k.out); if (a) for (size_t q = 0; q < row.size(); ++q) row[q] += a * (*g)[i][q]; } } want.push_back(row); }
    auto e = dec::Compare(want, got, l, false, false, tol); if (!e.empty()) return ctx.Fail("samples", "layout " + std::to_string(l) + " " + e); ctx.Validated(want.size()); ctx.Outcome(vh::Fnv(got.data(), got.size()));
  }
  ctx.Count(std::string(approx ? "opus third order preset" : "exact"));
}
std::vector<int16_t> Matrix(int n, int c, int pat) { std::vector<int16_t> m; for (int j = 0; j < c; ++j) for (int i = 0; i < n; ++i) m.push_back(pat == 0 ? (i == j ? 32767 : 0) : pat == 1 ? (i == (j + 1) % n ? -32768 : 0) : (int16_t)((j * 7919 + i * 104729 + 17) % 16384 - 8192)); return m; }
// Dimensions every kind of element shares.
void Shared(Chooser& c, Case& k, int codec = -1) {
  k.c.codec = codec >= 0 ? (Codec)codec : (Codec)c.alt({kLpcm, kOpus, kFlac, kAac}); k.c.s.rate = 48000; k.c.s.bits = k.c.codec == kLpcm ? c.alt({16, 24, 32}) : k.c.codec == kFlac ? c.alt({16, 24}) : 16; k.c.s.big = k.c.codec == kLpcm && c.flag(); k.float_api = !(k.c.codec == kOpus && c.flag());
  k.c.s.n = k.c.codec == kAac ? 1024 : k.c.codec == kOpus ? c.alt({120, 240, 960}) : k.c.codec == kFlac ? c.alt({16, 17, 64}) : c.alt({8, 1, 5, 64});
  const int n = k.c.s.n; k.c.samples = c.alt({2 * n, 1, n, n + 1, 2 * n - 1, 3 * n, 0}); if ((int)k.c.samples > n) { k.c.trim_start = c.alt({0, 1, n}); k.c.trim_end = c.alt({0, 1}); }
  k.c.delim = !c.flag(); k.es[0].turn = c.alt({0, 1, 2, 5}); k.es[0].gain = c.alt({0, -600, 300}); k.out = c.alt({0, -1536}); k.es[0].sid = c.alt({0, 14, 200});
  const int more = c(5); if (more) { E e; e.id = more == 4 ? 17 : 301; e.sid = 1000; e.order = more == 1 ? 1 : more == 2 ? 0 : more == 3 ? 2 : 1; e.gain = -200; e.turn = more; if (more >= 3) { e.kind = 1; e.subs = N(e); for (int i = 0; i < N(e); ++i) e.map.push_back(N(e) - 1 - i); } k.es.push_back(e); k.reverse = c.flag(); }
  k.c.s.primary = k.c.s.additional = k.es.size() > 1 || N(k.es[0]) > 16 ? 2 : c.alt({0, 1, 2});
}
Case Preset(Chooser& c, int order, int codec) { Case k; k.es.resize(1); k.es[0].order = order; Shared(c, k, codec); k.es[0].extra = c.alt({0, 1, -1}); return k; }
Case Explicit(Chooser& c, const E& e) { Case k; k.es = {e}; Shared(c, k); return k; }
E Mono(int order, std::vector<int> map) { E e; e.kind = 1; e.order = order; e.map = map; std::set<int> u(map.begin(), map.end()); u.erase(255); e.subs = u.size(); return e; }
void Body(Ctx& ctx) {
  for (int o = 0; o < 4; ++o) for (int codec = 0; codec < 4; ++codec) { Chooser c(ctx.thorough ? 3 : 2); do { Case k = Preset(c, o, codec); if (!ctx.NextIsMine()) { ctx.Skip(); continue; } if (ctx.Mine("preset:" + std::to_string(o) + "." + std::to_string(codec) + ":" + c.Name())) RunCase(ctx, k, k.es[0].extra == 0); } while (c.Next()); }
  std::vector<std::pair<std::string, E>> es;
  auto mono = [&](int o, const std::vector<int>& m) { std::string s = "mono:" + std::to_string(o); for (int v : m) s += "." + std::to_string(v); es.emplace_back(s, Mono(o, m)); };
  // Every mapping of order 1 in which no two channels share a substream.
  for (int a = 0; a < 625; ++a) { std::vector<int> m, u; for (int x = a, i = 0; i < 4; ++i, x /= 5) { m.push_back(x % 5 == 4 ? 255 : x % 5); if (x % 5 < 4) u.push_back(x % 5); } std::sort(u.begin(), u.end()); bool ok = !u.empty(); for (size_t i = 0; i < u.size(); ++i) ok &= u[i] == (int)i; if (ok) mono(1, m); }
  for (int o : {0, 2, 3, 4}) { const int n = (o + 1) * (o + 1); std::vector<int> id(n); std::iota(id.begin(), id.end(), 0); auto rev = id; std::reverse(rev.begin(), rev.end()); mono(o, id); if (n == 1) continue; mono(o, rev); for (int r = 1; r < n; r += ctx.thorough ? 1 : 3) { auto x = id; std::rotate(x.begin(), x.begin() + r, x.end()); mono(o, x); } for (int h = 0; h < n; ++h) { std::vector<int> x(n), y(n, 255); int q = 0; for (int i = 0; i < n; ++i) x[i] = i == h ? 255 : q++; y[h] = 0; mono(o, x); mono(o, y); } }
  for (int o : {0, 1, 2, 3, 4}) { const int n = (o + 1) * (o + 1); for (int s = 1; s <= n; ++s) for (int p = 0; p <= s && s + p <= n; ++p) { if (!ctx.thorough && o > 2 && s % 4 && p % 4 && s + p != n) continue; for (int pat = 0; pat < 3; ++pat) { E e; e.kind = 2; e.order = o; e.subs = s; e.coupled = p; e.pat = pat; e.mat = Matrix(n, s + p, pat); es.emplace_back("projection:" + std::to_string(o) + "." + std::to_string(s) + "." + std::to_string(p) + "." + std::to_string(pat), e); } } }
  for (auto& [name, e] : es) { Chooser c(ctx.thorough ? 2 : e.kind == 2 && e.pat < 2 ? 0 : 1); do { Case k = Explicit(c, e); if (!ctx.NextIsMine()) { ctx.Skip(); continue; } int coded = 0, all = 0; for (auto& x : k.es) { coded += In(x).size(); all += N(x); } if (ctx.Mine(name + ":" + c.Name())) RunCase(ctx, k, coded <= 28, all > 28); } while (c.Next()); }
}
}  // namespace
int main(int argc, char** argv) {
  dec::g_buffer = 1 << 17;
  vh::Spec s; s.id = "C21"; s.case_timeout_s = 30; s.min_cases = 1000; s.min_outcomes = 20;
  s.rule = "ambisonics presets of orders 0 to 3 with each of four codecs and up to 2 (thorough 3) deviations in 16 dimensions (bit depth, frame size, length, trims, gains, ids, order of the labels, a second element); every mono mapping of order 1, identity, reversal, rotations and holes of orders 0, 2, 3, 4, every projection split of orders 0 to 4 with three matrices, each with up to 1 (thorough 2) deviations; encoded and decoded to stereo and 22.2 with recorded gains";
  s.assumptions = {"libopus, libflac and fdk-aac are lossless stand-ins"};
  return vh::Run(argc, argv, s, Body);
}
