// C18: what threads may do. Every schedule (up to a preemption bound) of the
// producer and the consumer of the frame generator and of every codec encoder, and
// of two threads that own different decoders, encoders or probes, on the real code.
// The scheduling points are the lock operations of the code's own mutexes and the
// gaps between calls; ThreadSanitizer watches every access between them.
#include "sched.h"
#include "vh_main.h"
#include "enc.h"
#include "dec.h"
#include "iamf/cli/cli_util.h"
#include "iamf/cli/codec/aac_encoder.h"
#include "iamf/cli/codec/flac_encoder.h"
#include "iamf/cli/codec/lpcm_encoder.h"
#include "iamf/cli/codec/opus_encoder.h"
#include "iamf/cli/downmixer_manager.h"
#include "iamf/cli/global_timing_module.h"
#include "iamf/cli/parameters_manager.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "iamf/cli/proto_conversion/channel_label_utils.h"
#include "iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/codec_config_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.h"
using vh::Ctx; using gram::Bytes; using namespace iamf_tools;
static uint64_t g_races = 0; static std::string g_race;
extern "C" {
int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long);
int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long);
void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
NOTSAN void __tsan_on_report(void* rep) {
  ++g_races; if (g_races > 1) return;
  const char* d = ""; int n, st, mop, loc, mu, th, un; void* tr[4]; __tsan_get_report_data(rep, &d, &n, &st, &mop, &loc, &mu, &th, &un, &st, tr, 4); static char buf[1024]; static char msg[3000]; size_t at = 0;
  at += snprintf(msg, sizeof msg, "%s", d);
  for (int i = 0; i < 2; ++i) { int tid, size, write, atomic; void* addr; void* pcs[8] = {}; __tsan_get_report_mop(rep, i, &tid, &addr, &size, &write, &atomic, pcs, 8); at += snprintf(msg + at, sizeof msg - at, "; %s of %d bytes:", write ? "write" : "read", size);
    for (int k = 0; k < 6 && pcs[k]; ++k) { __sanitizer_symbolize_pc((char*)pcs[k] - 1, "%f", buf, sizeof buf); buf[80] = 0; at += snprintf(msg + at, sizeof msg - at, " < %s", buf); } }
  g_race = msg;
}
const char* __tsan_default_options() { return "halt_on_error=0:exitcode=0:log_path=/dev/null:suppress_equal_stacks=0:suppress_equal_addresses=0:report_thread_leaks=0:report_destroy_locked=0:detect_deadlocks=0:history_size=3"; }
}
namespace {
std::string St(const absl::Status& s) { return s.ok() ? "" : std::string(s.message()); }
enc::Cfg Make(std::vector<st::Kind> kinds, enc::Codec codec, uint32_t n, uint64_t samples, uint32_t ts, uint32_t te, bool si, bool ei, std::vector<enc::Codec> per = {}) {
  enc::Cfg c; c.codec = codec; c.s.n = n; c.samples = samples; c.trim_start = ts; c.trim_end = te; c.start_incl = si; c.end_incl = ei; c.ecodec = per; c.s.primary = c.s.additional = 2;
  uint32_t sid = 3; for (size_t i = 0; i < kinds.size(); ++i) { c.s.elems.push_back({(uint32_t)(40 - 7 * i), kinds[i], sid}); sid += 20; c.s.mixes.push_back(st::Simple(1 + i, {(uint32_t)(40 - 7 * i)})); if (i) { c.s.mixes.back().es[0].g.id += 10 * i; c.s.mixes.back().out.id += 10 * i; } }
  enc::Plan(c); return c;
}
struct Case { std::string name; enc::Cfg c; };
std::vector<Case> GenCases(bool thorough) {
  using namespace enc; std::vector<Case> v; const int n = 8;
  v.push_back({"mono/lpcm", Make({st::kMono}, kLpcm, n, 3 * n, 0, 0, true, true)});
  v.push_back({"mono/lpcm/part", Make({st::kMono}, kLpcm, n, 2 * n + 3, 0, 5, true, true)});
  v.push_back({"mono/lpcm/pad", Make({st::kMono}, kLpcm, n, 2 * n + 3, 3, 0, true, false)});
  v.push_back({"mono/lpcm/user-end", Make({st::kMono}, kLpcm, n, 2 * n, 0, 3, true, true)});
  v.push_back({"mono/lpcm/user-end-pad", Make({st::kMono}, kLpcm, n, 2 * n + 3, 0, 2, true, false)});
  v.push_back({"stereo/lpcm/start", Make({st::kStereo}, kLpcm, n, 2 * n, n + 2, 0, true, true)});
  v.push_back({"stereo/opus", Make({st::kStereo}, kOpus, 240, 2 * 240, 0, 0, false, false)});
  v.push_back({"mono/opus/part", Make({st::kMono}, kOpus, 240, 240 + 30, 0, 0, false, false)});
  v.push_back({"stereo/flac", Make({st::kStereo}, kFlac, 16, 3 * 16, 0, 0, true, true)});
  v.push_back({"mono/flac/part", Make({st::kMono}, kFlac, 16, 16 + 5, 0, 0, true, false)});
  v.push_back({"mono/aac", Make({st::kMono}, kAac, 1024, 1024, 0, 0, false, false)});
  v.push_back({"mono+mono/lpcm", Make({st::kMono, st::kMono}, kLpcm, n, 2 * n + 1, 0, 0, true, false)});
  v.push_back({"foa/lpcm", Make({st::kFoa}, kLpcm, n, n + 1, 0, 0, true, false)});
  v.push_back({"mono+stereo/lpcm,opus", Make({st::kMono, st::kStereo}, kLpcm, 240, 240, 0, 0, false, false, {kLpcm, kOpus})});
  v.push_back({"empty/lpcm", Make({st::kMono}, kLpcm, n, 0, 0, 0, true, true)});
  if (thorough) {
    v.push_back({"5.1/lpcm", Make({st::k51}, kLpcm, n, n + 1, 0, 0, true, false)});
    v.push_back({"stereo+foa/opus", Make({st::kStereo, st::kFoa}, kOpus, 240, 300, 0, 0, false, false)});
    v.push_back({"mono+mono/flac", Make({st::kMono, st::kMono}, kFlac, 16, 40, 0, 0, true, false)});
    v.push_back({"mono+mono/aac,opus", Make({st::kMono, st::kMono}, kAac, 1024, 1024, 0, 0, false, false, {enc::kAac, enc::kOpus})});
  }
  return v;
}
// Everything the generator needs.
struct Rig {
  iamf_tools_cli_proto::UserMetadata meta; DescriptorObus::CodecConfigsById codecs; DescriptorObus::AudioElementsById elements; DescriptorObus::MixPresentationObus mixes; absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> defs;
  std::unique_ptr<GlobalTimingModule> timing; std::unique_ptr<ParametersManager> params; std::unique_ptr<AudioFrameGenerator> gen; std::string err;
  bool Bad(const absl::Status& s) { if (s.ok()) return false; err = std::string(s.message()); return true; }
  explicit Rig(const iamf_tools_cli_proto::UserMetadata& m, bool generator = true) : meta(m) {
    if (Bad(CodecConfigGenerator(meta.codec_config_metadata()).Generate(codecs))) return;
    if (Bad(AudioElementGenerator(meta.audio_element_metadata()).Generate(codecs, elements))) return;
    if (!generator) return;
    if (Bad(MixPresentationGenerator(meta.mix_presentation_metadata()).Generate(false, mixes))) return;
    if (Bad(CollectAndValidateParamDefinitions(elements, mixes, defs))) return;
    timing = GlobalTimingModule::Create(elements, defs); if (!timing) { err = "timing"; return; }
    auto p = ParametersManager::Create(elements); if (!p.ok()) { err = "params"; return; } params = std::move(*p);
    auto g = AudioFrameGenerator::Create(meta.audio_frame_metadata(), meta.codec_config_metadata(), elements, DownmixerManager::MakeForPassthrough(elements), *params, *timing);
    if (!g.ok()) { Bad(g.status()); return; } gen = std::move(*g);
  }
};
struct Fr { uint32_t sid; int64_t start, end; uint32_t ts, te; bool flag; Bytes bytes; auto operator<=>(const Fr&) const = default; };
Fr One(const AudioFrameWithData& f) { return {f.obu.GetSubstreamId(), f.start_timestamp, f.end_timestamp, f.obu.header_.num_samples_to_trim_at_start, f.obu.header_.num_samples_to_trim_at_end, f.obu.header_.type_specific_flag, f.obu.audio_frame_}; }
using Unit = std::vector<Fr>;
std::string Show(const std::vector<Unit>& u) { std::string s; for (auto& x : u) { s += "{"; for (auto& f : x) { char b[200]; snprintf(b, sizeof b, "%u@%lld trim %u,%u %zu bytes #%04x ", f.sid, (long long)f.start, f.ts, f.te, f.bytes.size(), (unsigned)(vh::Fnv(f.bytes.data(), f.bytes.size()) & 0xffff)); s += b; } s += "} "; } return s; }
// The samples of the input, per call of AddSamples.
struct Add { uint32_t id; ChannelLabel::Label label; std::vector<double> v; };
std::vector<Add> Adds(const enc::Cfg& c) {
  std::vector<Add> a; const uint64_t nin = (c.samples + c.s.n - 1) / c.s.n;
  for (uint64_t i = 0; i < nin; ++i) { enc::Input in; enc::Fill(c, i * c.s.n, std::min<uint64_t>(c.s.n, c.samples - i * c.s.n), in);
    for (size_t e = 0; e < c.s.elems.size(); ++e) for (auto& l : enc::Labels(c.s.elems[e].kind)) a.push_back({c.s.elems[e].id, *ChannelLabelUtils::ProtoToLabel(enc::Label(l)), in.v[{(int)e, enc::SerLabel(l)}]}); }
  return a;
}
struct Res { std::vector<Unit> units; std::string err; };
// What has to come out, unit by unit, for LPCM from the reference writer.
std::vector<Unit> Want(const enc::Cfg& c) {
  std::vector<Unit> v;
  for (size_t i = 0; i < c.s.tus.size(); ++i) { Unit u; for (size_t e = 0; e < c.s.elems.size(); ++e) for (size_t k = 0; k < st::Info(c.s.elems[e].kind).sub.size(); ++k) { auto& t = c.s.tus[i]; Fr f{c.s.elems[e].sid + (uint32_t)k, (int64_t)(i * c.s.n), (int64_t)((i + 1) * c.s.n), t.trim_start, t.trim_end, t.trim_start || t.trim_end, {}};
      if (c.codec == enc::kLpcm && c.ecodec.empty()) { auto o = st::FrameObu(c.s, e, k, i); const size_t len = c.s.n * st::Info(c.s.elems[e].kind).sub[k] * c.s.bits / 8; f.bytes.assign(o.end() - len, o.end()); }
      u.push_back(f); } std::sort(u.begin(), u.end()); v.push_back(u); }
  return v;
}
void Producer(AudioFrameGenerator& g, const std::vector<Add>& adds, Res& r, bool yield) {
  for (auto& a : adds) { if (!g.TakingSamples()) { r.err = "stopped taking samples"; break; } std::vector<double> v = a.v; auto s = g.AddSamples(a.id, a.label, absl::MakeConstSpan(v)); std::fill(v.begin(), v.end(), 9.0); if (!s.ok()) { r.err = "AddSamples: " + St(s); break; } if (yield) sched::Progress(); }
  auto s = g.Finalize(); if (!s.ok()) r.err = "Finalize: " + St(s); if (yield) sched::Progress();
}
void Consumer(AudioFrameGenerator& g, Res& r, bool yield) {
  for (int i = 0; g.GeneratingFrames(); ++i) {
    if (i > 400) { r.err = "GeneratingFrames never ends"; return; }
    std::list<AudioFrameWithData> l; auto s = g.OutputFrames(l); if (!s.ok()) { r.err = "OutputFrames: " + St(s); return; }
    if (l.empty()) { if (yield) sched::Wait(); continue; }
    Unit u; for (auto& f : l) u.push_back(One(f)); std::sort(u.begin(), u.end()); r.units.push_back(u);
  }
}
bool Judge(Ctx& c, const char* part, const sched::Result& x, const std::string& name) {
  if (g_races) { c.Fail(std::string(part) + "/race", "data race (schedule " + x.trace + "): " + g_race); return false; }
  if (x.deadlock) { c.Fail(std::string(part) + "/deadlock", "every thread waits for a mutex held by another (schedule " + x.trace + ")"); return false; }
  if (x.endless) { c.Fail(std::string(part) + "/endless", "the threads never finish (schedule " + x.trace + ")"); return false; }
  return true;
}
void Generator(Ctx& c) {
  for (auto& k : GenCases(c.thorough)) {
    if (!c.NextIsMine()) { c.Skip(); continue; } if (!c.Mine("generator/" + k.name)) continue;
    const auto meta = enc::Meta(k.c); const auto adds = Adds(k.c); auto want = Want(k.c); std::vector<Unit> ref; const bool lpcm = k.c.codec == enc::kLpcm && k.c.ecodec.empty();
    { Rig rig(meta); if (!rig.gen) { c.Fail("generator/setup", rig.err); continue; } Res r; Producer(*rig.gen, adds, r, false); Consumer(*rig.gen, r, false); if (!r.err.empty()) { c.Fail("generator/serial", r.err); continue; } ref = r.units; }
    if (!lpcm) for (size_t i = 0; i < want.size() && i < ref.size(); ++i) for (size_t j = 0; j < want[i].size() && j < ref[i].size(); ++j) want[i][j].bytes = ref[i][j].bytes;
    if (ref != want) { c.Fail("generator/serial", "one thread: got " + Show(ref) + " want " + Show(want)); continue; }
    Chooser ch(c.thorough ? 6 : 4); uint64_t n = 0; bool late_lost = false;
    do {
      ch.Rewind(); Rig rig(meta); g_races = 0; Res a, b; std::vector<std::function<void()>> fns = {[&] { Producer(*rig.gen, adds, a, true); }, [&] { Consumer(*rig.gen, b, true); }};
      if (n % 2) std::swap(fns[0], fns[1]);  // who is first by default
      auto x = sched::Execute(ch, fns); ++n; c.Transitions(x.points);
      if (x.deadlock || x.endless) { (void)rig.gen.release(); }
      if (!Judge(c, "generator", x, k.name)) break;
      if (!a.err.empty() || !b.err.empty()) { c.Fail("generator/error", a.err + " " + b.err + " (schedule " + x.trace + ")"); break; }
      c.State(vh::Fnv(x.trace + k.name)); c.Validated(); c.Outcome(vh::Fnv(Show(b.units) + k.name));
      if (b.units != want) {
        auto cut = b.units; if (cut.size() == want.size() && !cut.empty()) for (size_t j = 0; j < cut.back().size() && j < want.back().size(); ++j) { auto& f = cut.back()[j]; if (f.te < want.back()[j].te) { f.te = want.back()[j].te; f.flag = want.back()[j].flag; } }
        if (cut == want) { if (!late_lost) c.Fail("generator/end-trim-lost", "the end trim of the last frame is lost (schedule " + x.trace + "): got " + Show(b.units) + " want " + Show(want)); late_lost = true; }
        else { c.Fail("generator/frames", "got " + Show(b.units) + " want " + Show(want) + " (schedule " + x.trace + ")"); break; }
      }
    } while (ch.Next());
    c.Count("generator_schedules", n);
  }
}
// --- codec encoders -----------------------------------------------------------------
struct EncCase { std::string name; enc::Codec codec; int ch; int frames; uint32_t n; };
std::unique_ptr<EncoderBase> MakeEncoder(const Rig& r, enc::Codec k, int ch) {
  const auto& cc = r.codecs.begin()->second; auto cnt = ch == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled(); const auto& m = r.meta.codec_config_metadata(0).codec_config(); std::unique_ptr<EncoderBase> e;
  if (k == enc::kLpcm) e = std::make_unique<LpcmEncoder>(cc, cnt);
  if (k == enc::kOpus) e = std::make_unique<iamf_tools::OpusEncoder>(iamf_tools::OpusEncoder::Settings{}, cc, cnt);
  if (k == enc::kFlac) e = std::make_unique<FlacEncoder>(m.decoder_config_flac().flac_encoder_metadata(), cc, cnt);
  if (k == enc::kAac) e = std::make_unique<AacEncoder>(m.decoder_config_aac().aac_encoder_metadata(), cc, cnt);
  if (!e->Initialize(true).ok()) return nullptr; return e;
}
std::vector<std::vector<int32_t>> EncIn(const EncCase& k, int i) { std::vector<std::vector<int32_t>> v(k.ch, std::vector<int32_t>(k.n)); for (int q = 0; q < k.ch; ++q) for (uint32_t t = 0; t < k.n; ++t) v[q][t] = (int32_t)((i * 7919 + q * 104729 + t * 31337 + 17) % 30011 - 15000) << 16; return v; }
absl::Status EncodeOne(EncoderBase& e, const EncCase& k, int i, const AudioElementWithData* el) {
  auto f = absl::WrapUnique(new AudioFrameWithData{.obu = AudioFrameObu(ObuHeader{}, 3, {}), .start_timestamp = i * (int64_t)k.n, .end_timestamp = (i + 1) * (int64_t)k.n, .audio_element_with_data = el});
  return e.EncodeAudioFrame(EncIn(k, i), std::move(f));
}
void EncProducer(EncoderBase& e, const EncCase& k, Res& r, const AudioElementWithData* el, bool yield) {
  for (int i = 0; i < k.frames; ++i) { auto s = EncodeOne(e, k, i, el); if (!s.ok()) { r.err = "EncodeAudioFrame: " + St(s); return; } if (yield) sched::Progress(); }
  auto s = e.Finalize(); if (!s.ok()) { r.err = "Finalize: " + St(s); return; } if (yield) sched::Progress();
  if (EncodeOne(e, k, 99, el).ok()) r.err = "a frame is accepted after Finalize()"; if (yield) sched::Progress();
}
void EncConsumer(EncoderBase& e, Res& r, bool yield) {
  for (int i = 0; !e.Finished(); ++i) {
    if (i > 400) { r.err = "never finished"; return; }
    const bool av = e.FramesAvailable(); std::list<AudioFrameWithData> l; auto s = e.Pop(l); if (!s.ok()) { r.err = "Pop: " + St(s); return; }
    if (av && l.size() != 1) { r.err = "a frame was available, and Pop gave " + std::to_string(l.size()); return; }
    if (l.size() > 1) { r.err = "Pop gave more than one frame"; return; }
    if (l.empty()) { if (yield) sched::Wait(); continue; }
    r.units.push_back({One(l.front())});
  }
}
void Encoders(Ctx& c) {
  std::vector<EncCase> v = {{"lpcm", enc::kLpcm, 2, 3, 8}, {"opus", enc::kOpus, 1, 3, 240}, {"flac", enc::kFlac, 1, 3, 16}, {"aac", enc::kAac, 1, 4, 1024}, {"lpcm/none", enc::kLpcm, 1, 0, 8}, {"opus/2", enc::kOpus, 2, 2, 480}, {"flac/none", enc::kFlac, 1, 0, 16}, {"flac/2", enc::kFlac, 2, 4, 16}};
  for (auto& k : v) {
    if (!c.NextIsMine()) { c.Skip(); continue; } if (!c.Mine("encoder/" + k.name)) continue;
    auto cfg = Make({k.ch == 1 ? st::kMono : st::kStereo}, k.codec, k.n, k.n, 0, 0, false, false); Rig rig(enc::Meta(cfg), false); if (!rig.err.empty()) { c.Fail("encoder/setup", rig.err); continue; } const auto* el = &rig.elements.begin()->second;
    std::vector<Unit> ref; { auto e = MakeEncoder(rig, k.codec, k.ch); if (!e) { c.Fail("encoder/setup", "cannot be made"); continue; } Res r; EncProducer(*e, k, r, el, false); if (!r.err.empty()) { c.Fail("encoder/serial", r.err); continue; } EncConsumer(*e, r, false); if (!r.err.empty()) { c.Fail("encoder/serial", r.err); continue; } ref = r.units; }
    bool ok = (int)ref.size() == k.frames; for (int i = 0; ok && i < k.frames; ++i) ok = ref[i][0].start == i * (int64_t)k.n && !ref[i][0].bytes.empty() && (i == 0 || (k.codec == enc::kAac && i < 3) || ref[i][0].bytes != ref[i - 1][0].bytes); if (!ok) { c.Fail("encoder/serial", "frames in order: " + Show(ref)); continue; }
    if (k.codec == enc::kLpcm) for (int i = 0; i < k.frames; ++i) { Bytes w; auto in = EncIn(k, i); for (uint32_t t = 0; t < k.n; ++t) for (int q = 0; q < k.ch; ++q) { w.push_back(in[q][t] >> 16); w.push_back(in[q][t] >> 24); } if (ref[i][0].bytes != w) { c.Fail("encoder/serial", "LPCM bytes"); ok = false; break; } }
    if (!ok) continue;
    Chooser ch(c.thorough ? 8 : 5); uint64_t n = 0;
    do {
      ch.Rewind(); auto e = MakeEncoder(rig, k.codec, k.ch); g_races = 0; Res a, b; std::vector<std::function<void()>> fns = {[&] { EncProducer(*e, k, a, el, true); }, [&] { EncConsumer(*e, b, true); }};
      auto x = sched::Execute(ch, fns); ++n; c.Transitions(x.points); if (x.deadlock || x.endless) (void)e.release();
      if (!Judge(c, "encoder", x, k.name)) break;
      if (!a.err.empty() || !b.err.empty()) { c.Fail("encoder/error", a.err + " " + b.err + " (schedule " + x.trace + ")"); break; }
      c.State(vh::Fnv(x.trace + k.name)); c.Validated(); c.Outcome(vh::Fnv(Show(b.units) + k.name));
      if (b.units != ref) { c.Fail("encoder/frames", "got " + Show(b.units) + " want " + Show(ref) + " (schedule " + x.trace + ")"); break; }
    } while (ch.Next());
    c.Count("encoder_schedules", n);
  }
}
// --- threads that own different instances -------------------------------------------------
struct Job { std::string name; std::function<std::string()> run; };  // yields between its calls; the result as text
std::string Hash(const Bytes& b) { char t[40]; snprintf(t, sizeof t, "%zu:%016llx ", b.size(), (unsigned long long)vh::Fnv(b.data(), b.size())); return t; }
Job DecodeJob(const std::string& name, const st::Stream& s, dec::api::IamfDecoder::Settings set) {
  auto bytes = std::make_shared<Bytes>(st::All(s));
  return {name, [=] {
    dec::Session d; d.buf.resize(1 << 15); std::string o; if (d.Bad(dec::api::IamfDecoder::Create(set, d.d), "create")) return d.r.err; sched::Yield();
    const size_t step = bytes->size() / 2 + 1; for (size_t at = 0; at < bytes->size(); at += step) { if (!d.Feed(*bytes, at, std::min(bytes->size(), at + step), dec::kDrainEach)) break; sched::Yield(); }
    d.Finish(dec::kDrainEach); if (!d.r.ok) o += d.r.err; for (auto& t : d.r.tus) o += Hash(t); sched::Yield(); d.d.reset(); return o; }};
}
Job EncodeJob(const std::string& name, const enc::Cfg& c) {
  return {name, [=] {
    std::string err, o; auto e = enc::Make(c, err); if (!e) return err; sched::Yield(); Bytes b; bool fin = false; const uint64_t nin = (c.samples + c.s.n - 1) / c.s.n;
    for (uint64_t i = 0; e->GeneratingTemporalUnits() && i < nin + 50; ++i) {
      enc::Input in; if (i < nin) enc::Fill(c, i * c.s.n, std::min<uint64_t>(c.s.n, c.samples - i * c.s.n), in); else enc::Fill(c, 0, 0, in, false); enc::FillBlocks(c, i, in);
      auto s = e->Encode(in.data); if (s.ok() && i + 1 == nin) s = e->FinalizeEncode(); b.clear(); if (s.ok()) s = e->OutputTemporalUnit(b); if (!s.ok()) { o += St(s); break; } o += Hash(b); sched::Yield(); }
    b.clear(); auto s = e->GetDescriptorObus(false, b, fin); o += St(s) + Hash(b); sched::Yield(); e.reset(); return o; }};
}
Job ProbeJob(const std::string& name, const st::Stream& s) {
  auto bytes = std::make_shared<Bytes>(st::All(s));
  return {name, [=] { std::string o; auto r = Probe(absl::MakeConstSpan(*bytes), ProbeOptions{}); sched::Yield(); o += r.ok() ? ProbeReportToJson(*r) : St(r.status()); sched::Yield(); return o; }};
}
std::vector<Job> Jobs(bool thorough) {
  std::vector<Job> v; dec::api::IamfDecoder::Settings a; a.requested_output_sample_type = dec::api::OutputSampleType::kInt16LittleEndian;
  dec::api::IamfDecoder::Settings b = a; b.requested_mix.output_layout = dec::api::OutputLayout::kItu2051_SoundSystemB_0_5_0; b.requested_output_sample_type = dec::api::OutputSampleType::kInt32LittleEndian; b.channel_ordering = dec::api::ChannelOrdering::kOrderingForAndroid;
  auto rs = st::Recipes(); auto find = [&](const char* n) -> const st::Stream& { for (auto& r : rs) if (r.name == n) return r.s; std::abort(); };
  v.push_back(DecodeJob("decode:gains", find("gains"), a)); v.push_back(DecodeJob("decode:gains:5.1", find("gains"), b)); v.push_back(DecodeJob("decode:foa", find("foaproj"), b));
  v.push_back(EncodeJob("encode:lpcm", Make({st::kStereo}, enc::kLpcm, 8, 11, 0, 0, true, false))); v.push_back(EncodeJob("encode:opus", Make({st::kFoa}, enc::kOpus, 240, 240, 0, 0, false, false))); v.push_back(EncodeJob("encode:flac", Make({st::kMono}, enc::kFlac, 16, 20, 0, 0, true, false)));
  v.push_back(EncodeJob("encode:aac", Make({st::kMono}, enc::kAac, 1024, 1024, 0, 0, false, false))); v.push_back(ProbeJob("probe", find("gains")));
  return v;
}
void Instances(Ctx& c) {
  const auto jobs = Jobs(c.thorough); std::map<std::string, std::string> solo;
  for (size_t i = 0; i < jobs.size(); ++i) for (size_t j = i; j < jobs.size(); ++j) {
    if (!c.NextIsMine()) { c.Skip(); continue; } if (!c.Mine("instances/" + jobs[i].name + "+" + jobs[j].name)) continue;
    Chooser ch(c.thorough ? 2 : 1); uint64_t n = 0; std::vector<std::pair<std::string, std::string>> got;
    do {
      ch.Rewind(); g_races = 0; std::string a, b; std::vector<std::function<void()>> fns = {[&] { a = jobs[i].run(); }, [&] { b = jobs[j].run(); }};
      auto x = sched::Execute(ch, fns, 100000); ++n; c.Transitions(x.points); if (!Judge(c, "instances", x, jobs[i].name)) break;
      c.State(vh::Fnv(x.trace + c.cur)); c.Validated(); got.push_back({a, b});
    } while (ch.Next());
    if (c.failed_in_case) continue;
    // The solo runs come last: whatever is set up on first use has been set up by two threads at once.
    for (auto* k : {&jobs[i], &jobs[j]}) if (!solo.count(k->name)) { solo[k->name] = k->run(); }
    for (auto& [a, b] : got) { c.Outcome(vh::Fnv(a + b)); if (a != solo[jobs[i].name] || b != solo[jobs[j].name]) { c.Fail("instances/result", jobs[i].name + ": " + a.substr(0, 200) + " alone: " + solo[jobs[i].name].substr(0, 200) + " | " + jobs[j].name + ": " + b.substr(0, 200) + " alone: " + solo[jobs[j].name].substr(0, 200)); break; } }
    c.Count("instance_schedules", n);
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C18"; s.case_timeout_s = 200; s.min_cases = 40; s.min_outcomes = 20;
  s.rule = "One case = one configuration; all its schedules are explored depth first. Threads are fibers under a controlled scheduler, scheduling points are the lock operations of the code's own mutexes and the gaps between API calls; a schedule is the sequence of threads chosen, bounded by the number of preemptions (generator 4, thorough 6; encoders 5, thorough 8; instances 1, thorough 2; a thread that waits or ends hands over for free). (A) AudioFrameGenerator: producer adds samples per element and label and finalizes, consumer outputs until nothing is generating: the frames (payload, trims, times, unit boundaries) equal the reference, for 15 (19) configurations of codecs, elements, padding and trims. (B) each codec encoder: producer encodes 0-4 frames, finalizes, then has to be refused; consumer pops. (C) all pairs of decoder, encoder and probe jobs on distinct instances: results equal those of the job alone. In all of them: no data race (ThreadSanitizer, one shadow thread per fiber, switches do not synchronise), no deadlock, termination.";
  s.assumptions = {"absl::Mutex is replaced by a stand-in whose lock operations are the scheduling points; the code has no other blocking primitive", "switches inside a critical section or between unlocked accesses are not explored: ThreadSanitizer reports such accesses as races instead", "the libraries (absl, protobuf, libstdc++) are not instrumented"};
  return vh::Run(argc, argv, s, [](Ctx& c) { Generator(c); Encoders(c); Instances(c); });
}
