// C22: the command-line programs (the encoder, the ADM converter and the probe; the decoder
// is part of C19). Each is run in a child process with every combination of few arguments,
// inputs and faults; what it leaves behind is compared with what the library gives.
#include <fcntl.h>
#include <sys/wait.h>
#include <iostream>
#include <iterator>
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
#include "admdoc.h"
#include "absl/base/log_severity.h"
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/flags/usage.h"
#include "absl/log/absl_log.h"
#include "absl/log/globals.h"
#include "absl/log/initialize.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.h"
#include "iamf/cli/encoder_main_lib.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "iamf/cli/proto/test_vector_metadata.pb.h"
#include "src/google/protobuf/text_format.h"
#define main ProbeMain
#include "iamf/cli/probe_main.cc"
#undef main
#define main EncoderMain
#include "iamf/cli/encoder_main.cc"
#undef main
// Both programs have a flag of this name, which a single process can not have.
#define adm_filename a2m_adm_filename
#define FLAGS_adm_filename FLAGS_a2m_adm_filename
#define main AdmMain
#include "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main.cc"
#undef main
#undef adm_filename
#undef FLAGS_adm_filename
using vh::Ctx;
namespace {
struct Cli { int code = -1; std::string out, err; };
// Runs a program in a child process with its own scratch folder as temporary directory.
Cli Run(int (*prog)(int, char**), std::vector<std::string> args, const std::string& in = "/dev/null", const std::string& out = "", long limit = -1, const std::string& tmp = "") {
  Cli r; const std::string o = out.empty() ? Dir() + "/stdout" : out, e = Dir() + "/stderr"; fflush(nullptr); const pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGALRM}) signal(s, SIG_DFL); alarm(50);
    dup2(open(in.c_str(), O_RDONLY), 0); dup2(open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), 1); dup2(open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), 2); if (!tmp.empty()) setenv("TMPDIR", tmp.c_str(), 1);
    if (limit >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l{(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &l); dup2(open("/dev/null", O_WRONLY), 2); dup2(2, 1); }
    args.insert(args.begin(), "program"); std::vector<char*> v; for (auto& x : args) v.push_back(x.data()); v.push_back(nullptr);
    const int rc = prog((int)args.size(), v.data()); exit(rc);  // as a return from main: flushes the standard output
  }
  int st = 0; waitpid(pid, &st, 0); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); if (out.empty() && limit < 0) r.out = Slurp(o); if (limit < 0) r.err = Slurp(e); return r;
}
using Files = std::map<std::string, std::string>;
Files Ls(const std::string& d) { Files f; if (fs::is_directory(d)) for (auto& e : fs::recursive_directory_iterator(d)) if (e.is_regular_file()) f[fs::relative(e.path(), d).string()] = Slurp(e.path().string()); return f; }
std::string Names(const Files& f) { std::string s; for (auto& [n, b] : f) s += n + "(" + std::to_string(b.size()) + ") "; return s; }
void Write(const std::string& p, const std::string& b) { std::ofstream(p, std::ios::binary) << b; }
std::string Show(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += x.substr(0, x.find("=/")) + " "; return s; }
void Bad(Ctx& ctx, const Cli& r, const char* key, const std::string& what) { if (r.code == 0 || r.code >= 1000) return ctx.Fail(key, what + ": exit code " + std::to_string(r.code)); if (!strncmp(key, "probe", 5) && r.err.empty()) ctx.Fail(key, what + ": no message"); }
// --- documents --------------------------------------------------------------------------
const std::vector<const char*> kDocs = {"plain", "no-programme", "one", "comp", "gains", "unsupported", "refused", "truncated", "garbage"};
std::string AdmFile(int k) {
  Doc d; d.o.resize(2); d.o[0] = {0, "AO_1001", "a"}; d.o[1] = {1, "AO_1002", "b"}; d.o[1].importance = 5; d.p = {{{{0}, {1}}}}; d.p[0].loud = "-20.5"; d.p[0].peak = "-1.25"; d.ticks = 500;
  if (k == 1) d.p.clear(); if (k == 2) { d.o.resize(1); d.p = {{{{0}}}}; d.rate = 44100; d.bits = 24; } if (k == 3) { d.o[0].comp = {1}; d.p = {{{{0}}}, {{{1}}}}; } if (k == 4) { d.o[0].gain = "-3.5"; d.o[0].pack = 2; d.p.push_back({{{1}}}); } if (k == 5) d.o[0].pack = 11; if (k == 6) for (auto& o : d.o) o.pack = 11;
  Bytes b = DocFile(d, Source(d)); std::string s(b.begin(), b.end()); if (k == 7) s.resize(s.size() - 100); if (k == 8) s = "This is no WAV file at all. It is text."; return s;
}
absl::StatusOr<pb::UserMetadata> Lib(const std::string& file, const std::string& prefix, int ms, int thr, bool enh, const std::string& out) {
  std::istringstream in(file); return adm::GenerateUserMetadataAndSpliceWavFiles(prefix, ms, thr, out, in, enh ? iamf_tools::ProfileVersion::kIamfBaseEnhancedProfile : iamf_tools::ProfileVersion::kIamfBaseProfile);
}
struct AdmArgs { int doc = 0, profile = 0, bin = 0, ms = 0, thr = 0, stem = 0, in = 0, out = 0; };
const std::vector<const char*> kProf = {"", "base", "enhanced", "Base", "advanced"}; const std::vector<int> kMs = {0, 10, 5, 20, 1}; const std::vector<int> kThr = {0, 0, 5, 6, 10, 11, -3, 2000000000}; const std::vector<const char*> kStem = {"in.wav", "a.b.wav", "noext", "with space.wav"};
void RunAdm(Ctx& ctx, const AdmArgs& a, long limit = -1) {
  Tmp t; const std::string file = AdmFile(a.doc), in = t.d + "/" + kStem[a.stem], lib = t.d + "/lib", stem = fs::path(kStem[a.stem]).stem().string(); fs::create_directory(lib); Write(in, file);
  std::vector<std::string> args; const std::string src = a.in == 0 ? in : a.in == 1 ? t.d + "/nothing.wav" : a.in == 2 ? "" : t.d; if (a.in != 2) args.push_back("--a2m_adm_filename=" + src);
  if (a.profile) args.push_back(std::string("--profile_version=") + kProf[a.profile]); if (a.bin == 1) args.push_back("--write_binary_proto=true"); if (a.bin == 2) args.push_back("--write_binary_proto=false"); if (a.ms) args.push_back("--frame_duration_ms=" + std::to_string(kMs[a.ms])); if (a.thr) args.push_back("--importance_threshold=" + std::to_string(kThr[a.thr]));
  const std::string out = a.out == 0 ? t.out : a.out == 1 ? t.d + "/missing" : t.out + "/"; args.push_back("--output_file_path=" + out);
  auto m = Lib(file, stem, a.ms ? kMs[a.ms] : 10, kThr[a.thr], a.profile == 2, lib); const bool good = a.in == 0 && a.profile < 3 && m.ok() && a.out != 1;
  Cli r = Run(AdmMain, args, "/dev/null", "", limit, t.tmp); ctx.Transitions(1); ctx.Validated(); ctx.Outcome(r.code); const std::string what = Show(args); Files got = Ls(t.out); ctx.State(vh::Fnv(Names(got))); ctx.Count(r.code == 0 ? "adm: converted" : "adm: refused");
  if (!good) return Bad(ctx, r, "adm-refuse", what);
  Files want = Ls(lib); const std::string meta = stem + (a.bin == 2 ? ".textproto" : ".binpb"); const std::string mb = got.count(meta) ? got[meta] : "";
  if (limit >= 0) { size_t big = 0; for (auto& [n, b] : want) big = std::max(big, b.size()); big = std::max(big, a.bin == 2 ? m->DebugString().size() : m->SerializeAsString().size()); if (r.code >= 1000) return ctx.Fail("adm-full", what + "crash with room for " + std::to_string(limit)); if (r.code != 0) { if (limit > (long)big) ctx.Fail("adm-full", what + "refused although everything fits"); return; } }
  else if (r.code != 0) return ctx.Fail("adm", what + ": exit code " + std::to_string(r.code) + ": " + r.err.substr(0, 200));
  if (!got.count(meta)) return ctx.Fail("adm-files", what + ": " + Names(got)); pb::UserMetadata p; const bool ok = a.bin == 2 ? google::protobuf::TextFormat::ParseFromString(mb, &p) : p.ParseFromString(mb);
  if (!ok || p.SerializeAsString() != m->SerializeAsString()) return ctx.Fail("adm-metadata", what + (limit >= 0 ? "with room for " + std::to_string(limit) + " bytes: " : "") + "the file of " + std::to_string(mb.size()) + " bytes does not hold the metadata");
  got.erase(meta); if (got != want) return ctx.Fail("adm-files", what + ": " + Names(got) + " want " + Names(want)); if (!Ls(t.tmp).empty()) ctx.Fail("adm-temp", what + Names(Ls(t.tmp)));
}
// --- the encoder ---------------------------------------------------------------------------
struct EncArgs { int doc = 0, source = 0, format = 0, wavs = 0, out = 0, profile = 0, ms = 0, thr = 0, valid = 0, extra = 0, damage = 0; };
void RunEnc(Ctx& ctx, const EncArgs& a, long limit = -1) {
  // source 0: metadata file, 1: ADM file, 2: neither, 3: both
  Tmp t; const std::string adm_file = AdmFile(a.doc), in = t.d + "/in.wav", wav = t.d + "/wav", lib = t.d + "/lib", lw = t.d + "/lw"; for (auto& d : {wav, lib, lw}) fs::create_directory(d); Write(in, adm_file);
  auto m = Lib(adm_file, a.source == 1 ? "in" : "q", a.ms ? kMs[a.ms] : 10, kThr[a.thr], a.profile == 2, lw); const bool have = m.ok(); std::vector<std::string> args; bool good = a.source < 2;
  if (have) { if (a.source != 1) m->mutable_test_vector_metadata()->set_is_valid(a.valid == 0); if (a.extra == 1) { auto* e = m->mutable_encoder_control_metadata(); e->set_add_build_information_tag(false); } if (a.extra == 2) m->mutable_temporal_delimiter_metadata()->set_enable_temporal_delimiters(true); if (a.extra == 3) m->mutable_audio_element_metadata(0)->set_codec_config_id(77); }
  std::string mf;
  if (a.source != 1 && have) {
    static const std::vector<const char*> ext = {"binpb", "textproto", "txtpb", "pb"}; mf = t.d + "/meta." + ext[a.format]; std::string b = a.format == 1 || a.format == 2 ? m->DebugString() : m->SerializeAsString(); if (a.format == 3) good = false;
    if (a.damage == 1) b.resize(b.size() - 3), good = false; if (a.damage == 2) b = "garbage {", good = false; if (a.damage == 3) b = "", good = false; if (a.damage != 4) Write(mf, b); else good = false;
    if (a.wavs == 0) for (auto& [n, x] : Ls(lw)) Write(wav + "/" + n, x); if (a.wavs == 1) good = false; if (a.wavs == 2) { for (auto& [n, x] : Ls(lw)) Write(wav + "/" + n, x.substr(0, 20)); good = false; } if (a.wavs == 3) good = false;
    if (a.source != 2) args.push_back("--user_metadata_filename=" + mf); if (a.wavs != 3) args.push_back("--input_wav_directory=" + wav);
  }
  if (a.source == 1 || a.source == 3) { args.push_back("--adm_filename=" + (a.damage == 4 && a.source == 1 ? t.d + "/none.wav" : in)); if (a.source == 1 && a.damage == 4) good = false; if (a.ms) args.push_back("--adm_frame_duration_ms=" + std::to_string(kMs[a.ms])); if (a.thr) args.push_back("--adm_importance_threshold=" + std::to_string(kThr[a.thr])); }
  if (a.profile) args.push_back(std::string("--adm_profile_version=") + kProf[a.profile]); if (a.profile >= 3) good = false;
  if (a.source == 0 && !have) return;
  std::string out = t.out; if (a.out == 1) out = t.d + "/new/nested"; if (a.out == 2) { Write(t.d + "/file", "x"); out = t.d + "/file/x"; good = false; } if (a.out == 3) out = t.tmp; else args.push_back("--output_iamf_directory=" + out);
  Files want; if (!have) good = false; if (good) { auto s = iamf_tools::TestMain(*m, lw, lib); good = s.ok(); want = Ls(lib); }
  Cli r = Run(EncoderMain, args, "/dev/null", "", limit, a.out == 4 ? t.d + "/no-tmp" : t.tmp); ctx.Transitions(1); ctx.Validated(); ctx.Outcome(r.code); Files got = Ls(out); if (a.out == 3) for (auto it = got.begin(); it != got.end();) it = it->first.find("_converted") != std::string::npos ? got.erase(it) : std::next(it); ctx.State(vh::Fnv(Names(got))); const std::string what = Show(args); ctx.Count(r.code == 0 ? "encoder: success" : "encoder: error");
  if (a.out == 4 && a.source == 1) good = false;  // there is no place for the temporary WAV files
  if (!good) return Bad(ctx, r, "encode-refuse", what);
  if (limit >= 0) { if (r.code >= 1000) return ctx.Fail("encode-full", what + "crash with room for " + std::to_string(limit)); if (r.code == 0 && got != want) ctx.Fail("encode-full", what + "with room for " + std::to_string(limit) + " bytes: exit code 0, " + Names(got) + " want " + Names(want)); size_t big = 0; for (auto& x : {want, Ls(lw)}) for (auto& [n, b] : x) big = std::max(big, b.size()); if (r.code != 0 && limit > (long)big * 2) ctx.Fail("encode-full", what + "refused although everything fits"); return; }
  if (r.code != 0) return ctx.Fail("encode", what + ": exit code " + std::to_string(r.code) + ": " + r.err.substr(0, 300));
  if (got != want) { std::string d; for (auto& [n, b] : want) if (got[n] != b) d += n + " "; return ctx.Fail("encode-files", what + Names(got) + " want " + Names(want) + " differ: " + d); }
}
// --- the probe -------------------------------------------------------------------------------
struct Strm { std::string name; std::string bytes; };
const std::vector<Strm>& Streams() {
  static std::vector<Strm> v; if (!v.empty()) return v;
  auto make = [](std::vector<st::Kind> ks, int codec, bool params) { Cfg c; c.codec = (decltype(c.codec))codec; c.s.primary = 1; c.s.n = codec == kAac ? 1024 : 960; uint32_t sid = 0; std::vector<uint32_t> all; for (auto k : ks) { c.s.elems.push_back({(uint32_t)(300 + c.s.elems.size()), k, sid, {}}); sid += st::Info(k).sub.size(); all.push_back(c.s.elems.back().id); } c.s.mixes = {st::Simple(42, all), st::Simple(7, {300})}; if (params) c.s.mixes[1].out = {920, -256}; c.samples = 3 * c.s.n; c.start_incl = c.end_incl = false; Plan(c); auto o = Encode(c); Bytes b; if (o.ok) { b = o.desc; for (auto& u : o.units) b.insert(b.end(), u.begin(), u.end()); } return std::string(b.begin(), b.end()); };
  v = {{"stereo", make({st::kStereo}, kLpcm, true)}, {"opus", make({st::kStereo, st::k51}, kOpus, false)}, {"flac", make({st::kMono, st::kFoa}, kFlac, true)}, {"aac", make({st::k714}, kAac, false)}};
  v.push_back({"cut", v[0].bytes.substr(0, v[0].bytes.size() - 3)}); v.push_back({"two", v[0].bytes + v[1].bytes}); v.push_back({"short", v[0].bytes.substr(0, 20)});
  v.push_back({"mp4", std::string("\0\0\0\x18" "ftypiamf\0\0\0\0iamfmp41", 24)}); v.push_back({"mid", std::string("\x30\x04\0\0\0\0\x20\0", 8) + v[0].bytes}); v.push_back({"empty", ""}); v.push_back({"text", "hello, world. This is text"}); v.push_back({"zero", std::string(300, '\0')});
  return v;
}
// "key=value" and "key: value" words of a report, from the report itself.
std::vector<std::string> Facts(const iamf_tools::ProbeReport& r) {
  std::vector<std::string> o; auto n = [](auto v) { return std::to_string(v); };
  for (auto& c : r.codec_configs) { o.push_back("id=" + n(c.id)); o.push_back("codec=" + c.codec_id); o.push_back("frame=" + n(c.num_samples_per_frame)); o.push_back("roll=" + n(c.audio_roll_distance)); o.push_back("in_sr=" + n(c.input_sample_rate)); o.push_back("out_sr=" + n(c.output_sample_rate)); o.push_back("bit_depth=" + n(c.bit_depth)); if (c.opus) o.push_back("pre_skip=" + n(c.opus->pre_skip)); if (c.lpcm) { o.push_back("fmt=" + c.lpcm->sample_format); o.push_back("size=" + n(c.lpcm->sample_size)); } if (c.aac) o.push_back("avg_bitrate=" + n(c.aac->average_bit_rate)); if (c.flac) o.push_back(n(c.flac->metadata_blocks.size()) + " metadata_blocks"); }
  for (auto& a : r.audio_elements) { o.push_back("id=" + n(a.id)); o.push_back("type=" + a.type); o.push_back("codec_cfg=" + n(a.codec_config_id)); o.push_back("substreams=" + n(a.num_substreams)); if (a.num_channels) o.push_back("channels=" + n(*a.num_channels)); std::string ids; for (auto i : a.substream_ids) ids += (ids.empty() ? "" : ",") + n(i); o.push_back("ids=[" + ids + "]"); for (auto& l : a.scalable_layers) { o.push_back("layer: " + l.loudspeaker_layout); o.push_back("coupled=" + n(l.coupled_substream_count)); } if (a.ambisonics) { o.push_back("mode=" + a.ambisonics->mode); if (a.ambisonics->order) o.push_back("order=" + n(*a.ambisonics->order)); } }
  for (auto& m : r.mix_presentations) { o.push_back("id=" + n(m.id)); o.push_back("sub_mixes=" + n(m.num_sub_mixes)); for (auto& [l, x] : m.annotations) o.push_back(l + " = \"" + x + "\""); for (auto& s : m.sub_mixes) { for (auto& e : s.audio_elements) o.push_back("ae_id=" + n(e.audio_element_id)); for (auto& l : s.layouts) o.push_back("layout: " + (l.loudness_layout.sound_system ? *l.loudness_layout.sound_system : l.loudness_layout.layout_type)); } for (auto& t : m.tags) o.push_back(t.tag_name + " = " + t.tag_value); }
  if (r.temporal_unit_scan) { auto& s = *r.temporal_unit_scan; o.push_back("Temporal Units:"); auto kv = [&](const char* k, uint64_t v) { std::string x = k; x += ":"; o.push_back(x + std::string(x.size() < 19 ? 19 - x.size() : 1, ' ') + n(v) + "\n"); }; kv("count", s.temporal_unit_count); kv("audio_frames", s.audio_frame_count); kv("parameter_blocks", s.parameter_block_count); kv("delimiters", s.temporal_delimiter_count); kv("bytes_consumed", s.bytes_consumed); o.push_back(s.stopped_reason); if (s.total_samples) kv("total_samples", *s.total_samples); for (auto& f : s.audio_frames_by_substream) { o.push_back("substream id=" + n(f.substream_id)); o.push_back("frames=" + n(f.frame_count)); o.push_back("samples=" + n(f.total_samples)); } for (auto& b : s.parameter_blocks) { o.push_back("block id=" + n(b.parameter_id)); o.push_back("ts=[" + n(b.start_timestamp) + "," + n(b.end_timestamp) + ")"); } }
  return o;
}
const std::vector<const char*> kFormat = {"", "text", "json", "xml"}, kScan = {"", "counts", "full", "all"}, kInput = {"flag", "stdin", "positional", "positional-stdin", "none", "missing", "folder"};
void RunProbe(Ctx& ctx, int s, int input, int format, int scan, bool duration, bool full) {
  const auto& x = Streams()[s]; if (x.bytes.empty() && x.name != "empty") return ctx.Fail("probe", "no stream"); const std::string p = Dir() + "/probe.iamf"; Write(p, x.bytes); std::vector<std::string> a;
  switch (input) { case 0: a.push_back("--input_filename=" + p); break; case 1: a.push_back("--input_filename=-"); break; case 2: a.push_back(p); break; case 3: a.push_back("-"); break; case 4: break; case 5: a.push_back("--input_filename=" + p + ".no"); break; case 6: a.push_back("--input_filename=" + Dir()); break; }
  if (format) a.push_back(std::string("--format=") + kFormat[format]); if (scan) a.push_back(std::string("--scan=") + kScan[scan]); if (duration) a.push_back("--duration");
  iamf_tools::ProbeOptions o; o.scan_mode = scan == 2 ? iamf_tools::ScanMode::kScanFull : scan == 1 || duration ? iamf_tools::ScanMode::kScanCounts : iamf_tools::ScanMode::kDescriptorsOnly; Bytes b(x.bytes.begin(), x.bytes.end()); auto rep = iamf_tools::Probe(b, o);
  Cli r = Run(ProbeMain, a, input == 1 || input == 3 ? p : "/dev/null", full ? "/dev/full" : ""); ctx.Transitions(1); ctx.Validated(); ctx.Outcome(vh::Fnv(r.out + std::to_string(r.code))); const std::string what = x.name + " " + Show(a); ctx.Count(r.code == 0 ? "probe: report" : "probe: error");
  if (input >= 4 || format == 3 || scan == 3 || !rep.ok() || full) {
    Bad(ctx, r, full ? "probe-full" : "probe-refuse", what + (full ? "to a full device" : "")); if (!full && !r.out.empty()) ctx.Fail("probe-refuse", what + ": output beside an error");
    if (input < 4 && format < 3 && scan < 3 && !full) { if (x.name == "mp4" && r.err.find("MP4") == std::string::npos) ctx.Fail("probe-hint", what + r.err); if (x.name == "mid" && r.err.find("mid-stream") == std::string::npos) ctx.Fail("probe-hint", what + r.err); }
    return;
  }
  if (r.code != 0) return ctx.Fail("probe", what + ": exit code " + std::to_string(r.code) + ": " + r.err.substr(0, 200));
  if (format == 2) { if (r.out != iamf_tools::ProbeReportToJson(*rep)) ctx.Fail("probe-json", what + ": not the JSON form of the report"); return; }
  size_t at = 0; for (auto& f : Facts(*rep)) { size_t k = r.out.find(f, at); if (k == std::string::npos) return ctx.Fail("probe-text", what + ": " + f + " is missing or out of place"); at = k + f.size(); }
  if (!rep->temporal_unit_scan && r.out.find("Temporal Units") != std::string::npos) ctx.Fail("probe-text", what + ": a scan nobody asked for"); ctx.State(vh::Fnv(r.out));
}
void Body(Ctx& ctx) {
  { Chooser c(ctx.thorough ? 4 : 2); do { AdmArgs a; a.doc = c((int)(kDocs.size())); a.profile = c((int)(kProf.size())); a.bin = c((int)(3)); a.ms = c((int)(kMs.size())); a.thr = c((int)(kThr.size())); a.stem = c((int)(kStem.size())); a.in = c((int)(4)); a.out = c((int)(3)); if (ctx.Mine("adm:" + c.Name())) RunAdm(ctx, a); } while (c.Next()); }
  { Chooser c(ctx.thorough ? 4 : 2); do { EncArgs a; a.source = c((int)(4)); a.doc = c((int)(kDocs.size())); a.format = c((int)(4)); a.wavs = c((int)(4)); a.out = c((int)(5)); a.profile = c((int)(kProf.size())); a.ms = c((int)(kMs.size())); a.thr = c((int)(kThr.size())); a.valid = c((int)(2)); a.extra = c((int)(4)); a.damage = c((int)(5)); if (a.source == 1 && a.extra) continue; if (ctx.Mine("encoder:" + c.Name())) RunEnc(ctx, a); } while (c.Next()); }
  for (int s = 0; s < 12; ++s) for (size_t in = 0; in < kInput.size(); ++in) for (size_t f = 0; f < kFormat.size(); ++f) for (size_t k = 0; k < kScan.size(); ++k) for (int d = 0; d < 2; ++d) if (ctx.Mine("probe:" + std::to_string(s) + "," + kInput[in] + "," + kFormat[f] + "," + kScan[k] + (d ? ",duration" : ""))) RunProbe(ctx, s, in, f, k, d, false);
  for (int s = 0; s < 4; ++s) for (size_t f = 0; f < 3; ++f) for (size_t k = 0; k < 3; ++k) if (ctx.Mine("probe-full:" + std::to_string(s) + "," + kFormat[f] + "," + kScan[k])) RunProbe(ctx, s, 0, f, k, false, true);
  // Disks that fill up: no file grows beyond a limit.
  for (int bin = 1; bin < 3; ++bin) for (int doc : {0, 4}) for (long k = 0; k < 4600; k += ctx.thorough ? 7 : 61) if (ctx.Mine("adm-full:" + std::to_string(bin) + "," + std::to_string(doc) + "," + std::to_string(k))) { AdmArgs a; a.bin = bin; a.doc = doc; RunAdm(ctx, a, k); }
  for (int source = 0; source < 2; ++source) for (int doc : {0, 1}) for (long k = 0; k < 8000; k += ctx.thorough ? 7 : 61) if (ctx.Mine("encoder-full:" + std::to_string(source) + "," + std::to_string(doc) + "," + std::to_string(k))) { EncArgs a; a.source = source; a.doc = doc; RunEnc(ctx, a, k); }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C22"; s.case_timeout_s = 60; s.min_cases = 1500; s.min_outcomes = 30;
  s.rule = "the ADM converter and the encoder with up to 2 (thorough 4) deviations in 8 and 11 dimensions (document, flags, form of the metadata, folders, damage); the probe with every combination of 12 inputs, 7 ways to name them, formats, scans; every step of file size limits; a full output device";
  s.assumptions = {"what the library gives for the same arguments is right (C12, C17, C20)"};
  return vh::Run(argc, argv, s, Body);
}
