// ADM documents, the BW64 files around them and the samples of their tracks.
#ifndef ADMDOC_H_
#define ADMDOC_H_
#include <sys/resource.h>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "enc.h"
#include "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.h"
#include "iamf/cli/proto/user_metadata.pb.h"
using namespace enc; namespace fs = std::filesystem; namespace adm = iamf_tools::adm_to_user_metadata;
namespace {
void Le(Bytes& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back(v >> (8 * i)); }
std::string Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
std::string Dir() { static std::string d = fs::canonical(vh::ScratchDir()).string(); return d; }
struct Wav { bool ok = false; int ch = 0, bits = 0; uint32_t rate = 0; std::string data; };
Wav ReadWav(const std::string& p) {
  Wav w; const std::string s = Slurp(p); auto le = [&](size_t a, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; --i) v = v << 8 | (uint8_t)s[a + i]; return v; };
  if (s.size() < 12 || s.compare(0, 4, "RIFF") || s.compare(8, 4, "WAVE") || le(4, 4) + 8 != s.size()) return w; bool fmt = false;
  for (size_t at = 12; at + 8 <= s.size();) { const std::string id = s.substr(at, 4); const size_t n = le(at + 4, 4); at += 8; if (at + n > s.size()) return w; if (id == "fmt ") { w.ch = le(at + 2, 2); w.rate = le(at + 4, 4); w.bits = le(at + 14, 2); fmt = true; } if (id == "data") { w.data = s.substr(at, n); w.ok = fmt && at + n == s.size(); return w; } at += n; }
  return w;
}
// --- layouts that may be converted ----------------------------------------------------
struct Pack { const char* id; int kind; std::vector<const char*> labels; int sys; const char* layout; };  // kind: st::Kind or -1
const std::vector<Pack>& Packs() {
  static const std::vector<Pack> v = {
    {"AP_00010002", st::kStereo, {"L_2", "R_2"}, 0, "LOUDSPEAKER_LAYOUT_STEREO"}, {"AP_00010001", st::kMono, {"MONO"}, 12, "LOUDSPEAKER_LAYOUT_MONO"},
    {"AP_00010003", st::k51, {"L_5", "R_5", "CENTRE", "LFE", "LS_5", "RS_5"}, 1, "LOUDSPEAKER_LAYOUT_5_1_CH"},
    {"AP_00010004", st::k512, {"L_5", "R_5", "CENTRE", "LFE", "LS_5", "RS_5", "LTF_2", "RTF_2"}, 2, "LOUDSPEAKER_LAYOUT_5_1_2_CH"},
    {"AP_00010005", st::k514, {"L_5", "R_5", "CENTRE", "LFE", "LS_5", "RS_5", "LTF_4", "RTF_4", "LTB_4", "RTB_4"}, 3, "LOUDSPEAKER_LAYOUT_5_1_4_CH"},
    {"AP_0001000f", st::k71, {"L_7", "R_7", "CENTRE", "LFE", "LSS_7", "RSS_7", "LRS_7", "RRS_7"}, 8, "LOUDSPEAKER_LAYOUT_7_1_CH"},
    {"AP_00010017", st::k714, {"L_7", "R_7", "CENTRE", "LFE", "LSS_7", "RSS_7", "LRS_7", "RRS_7", "LTF_4", "RTF_4", "LTB_4", "RTB_4"}, 9, "LOUDSPEAKER_LAYOUT_7_1_4_CH"},
    {"AP_00050001", st::kBinaural, {"L_2", "R_2"}, 100, "LOUDSPEAKER_LAYOUT_BINAURAL"}, {"AP_00040001", st::kFoa, {"A_0", "A_1", "A_2", "A_3"}, -1, ""},
    {"AP_00040003", st::kToa, {"A_0", "A_1", "A_2", "A_3", "A_4", "A_5", "A_6", "A_7", "A_8", "A_9", "A_10", "A_11", "A_12", "A_13", "A_14", "A_15"}, -1, ""},
    {"AP_00040002", -1, {"A_0", "A_1", "A_2", "A_3", "A_4", "A_5", "A_6", "A_7", "A_8"}, -1, ""},
    // Not supported: an object, an unknown loudspeaker layout, user defined, malformed.
    {"AP_00031001", -2, {"?"}, -1, ""}, {"AP_00010009", -2, {"?", "?"}, -1, ""}, {"AP_00011002", -2, {"?", "?"}, -1, ""}, {"AP_0001", -2, {"?"}, -1, ""}};
  return v;
}
// --- documents ------------------------------------------------------------------------
struct Obj { int pack = 0; std::string id, label; int importance = -1; const char* gain = nullptr; std::vector<int> comp; };
struct Prog { std::vector<std::vector<int>> contents; const char* loud = nullptr; const char* peak = nullptr; const char* dialogue = nullptr; };
struct Doc { std::vector<Obj> o; std::vector<Prog> p; int threshold = 0, bits = 16, rate = 48000, ms = 10, ticks = 100, order = 0, style = 0; bool enhanced = false; int copies = 1; };
std::string Xml(const Doc& d) {
  std::string s; const std::string nl = d.style & 1 ? "\n   " : ""; auto el = [&](const std::string& n, const std::string& v) { s += nl + "<" + n + ">" + v + "</" + n + ">"; };
  s = d.style & 2 ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ebuCoreMain xmlns=\"urn:ebu:metadata-schema:ebuCore_2014\"><coreMetadata><format><audioFormatExtended version=\"ITU-R_BS.2076-2\">" : "<topLevel>";
  int cid = 0; std::string contents; for (size_t i = 0; i < d.p.size(); ++i) {
    auto& p = d.p[i]; s += nl + "<audioProgramme audioProgrammeID=\"APR_" + std::to_string(1001 + i) + "\" audioProgrammeName=\"P\" start=\"00:00:00.00000\">";
    for (auto& c : p.contents) { const std::string id = "ACO_" + std::to_string(1001 + cid++); el("audioContentIDRef", id); contents += nl + "<audioContent audioContentName=\"C\" audioContentID=\"" + id + "\">"; for (int o : c) contents += nl + "<audioObjectIDRef>" + d.o[o].id + "</audioObjectIDRef>"; contents += nl + "</audioContent>"; }
    if (p.loud || p.peak || p.dialogue) { s += nl + "<loudnessMetadata>"; if (p.loud) el("integratedLoudness", p.loud); if (p.peak) el("maxTruePeak", p.peak); if (p.dialogue) el("dialogueLoudness", p.dialogue); s += nl + "</loudnessMetadata>"; }
    s += nl + "</audioProgramme>"; if (d.style & 4) s += "<!-- <audioProgramme> -->";
  }
  s += contents; int t = 1;
  for (auto& o : d.o) {
    s += nl + "<audioObject audioObjectID=\"" + o.id + "\" audioObjectName=\"N\"" + (o.importance >= 0 ? " importance=\"" + std::to_string(o.importance) + "\"" : "") + ">"; el("audioPackFormatIDRef", Packs()[o.pack].id); el("audioObjectLabel", o.label);
    for (size_t k = 0; k < Packs()[o.pack].labels.size(); ++k) { char b[32]; snprintf(b, sizeof b, "ATU_%08x", t++); el("audioTrackUIDRef", b); } for (int c : o.comp) el("audioComplementaryObjectIDRef", d.o[c].id); if (o.gain) el("gain", o.gain); s += nl + "</audioObject>";
  }
  return s + (d.style & 2 ? "</audioFormatExtended></format></coreMetadata></ebuCoreMain>" : "</topLevel>");
}
struct Chunks { std::vector<std::pair<std::string, Bytes>> c; };
Bytes Fmt(int ch, uint32_t rate, int bits) { Bytes f; Le(f, 1, 2); Le(f, ch, 2); Le(f, rate, 4); Le(f, (uint64_t)rate * ch * bits / 8, 4); Le(f, (int64_t)ch * bits / 8, 2); Le(f, bits, 2); return f; }
Bytes File(const Chunks& c) { Bytes b; for (auto& [id, p] : c.c) { b.insert(b.end(), id.begin(), id.end()); Le(b, p.size(), 4); b.insert(b.end(), p.begin(), p.end()); if (p.size() % 2) b.push_back(0); } Bytes o = {'R', 'I', 'F', 'F'}; Le(o, b.size() + 4, 4); for (char x : std::string("WAVE")) o.push_back(x); o.insert(o.end(), b.begin(), b.end()); return o; }
Bytes Raw(const std::string& s) { return Bytes(s.begin(), s.end()); }
struct Tmp { std::string d, out, tmp; Tmp() { d = Dir() + "/t"; fs::remove_all(d); fs::create_directory(d); out = d + "/out"; tmp = d + "/tmp"; fs::create_directory(out); fs::create_directory(tmp); setenv("TMPDIR", tmp.c_str(), 1); } };
absl::StatusOr<pb::UserMetadata> Convert(const Tmp& t, const Bytes& file, int ms, int threshold, bool enhanced, long limit = -1) {
  std::istringstream in(std::string(file.begin(), file.end()));
  struct Limit { rlimit old; bool on; Limit(long l) : on(l >= 0) { if (on) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = l; setrlimit(RLIMIT_FSIZE, &r); } } ~Limit() { if (on) setrlimit(RLIMIT_FSIZE, &old); } } l(limit);
  return adm::GenerateUserMetadataAndSpliceWavFiles("p", ms, threshold, t.out, in, enhanced ? iamf_tools::ProfileVersion::kIamfBaseEnhancedProfile : iamf_tools::ProfileVersion::kIamfBaseProfile);
}
// The stream whose signals the tracks of the document carry: one element per object.
Cfg Source(const Doc& d) {
  Cfg c; c.codec = kLpcm; c.s.bits = d.bits; c.s.big = false; c.s.rate = d.rate; c.s.n = (uint32_t)((int64_t)d.ms * d.rate / 1000); c.samples = d.ticks; c.start_incl = c.end_incl = false; c.trim_start = c.trim_end = 0; c.delim = false;
  for (size_t i = 0; i < d.o.size(); ++i) { int k = Packs()[d.o[i].pack].kind; c.s.elems.push_back({(uint32_t)(1000 + i), k < 0 ? st::kMono : (st::Kind)k, (uint32_t)(100 * i), {}}); }
  Plan(c); c.s.chmap.clear(); return c;
}
uint64_t Track(const Cfg& c, const Doc& d, int o, int k, int t) {  // raw sample, d.bits wide
  const Pack& p = Packs()[d.o[o].pack]; const uint64_t mask = d.bits == 32 ? 0xffffffffull : (1ull << d.bits) - 1;
  if (p.kind < 0) { uint32_t h = (uint32_t)(o * 7919 + k * 104729 + t * 2654435761u); h ^= h >> 13; h *= 0x9e3779b1u; return h & mask; }
  auto l = Labels((st::Kind)p.kind); const int at = std::find(l.begin(), l.end(), p.labels[k]) - l.begin(); return (uint64_t)st::Sample(c.s, o, at, t) & mask;
}
Bytes DocFile(const Doc& d, const Cfg& c) {
  Bytes data; int n = 0; for (auto& o : d.o) n += Packs()[o.pack].labels.size();
  for (int t = 0; t < d.ticks; ++t) for (size_t o = 0; o < d.o.size(); ++o) for (size_t k = 0; k < Packs()[d.o[o].pack].labels.size(); ++k) Le(data, Track(c, d, o, k, t), d.bits / 8);
  Chunks f; auto fmt = [&] { f.c.push_back({"fmt ", Fmt(n, d.rate, d.bits)}); }; auto x = [&] { f.c.push_back({"axml", Raw(Xml(d))}); }; auto dt = [&] { f.c.push_back({"data", data}); };
  switch (d.order) { case 0: fmt(); x(); dt(); break; case 1: fmt(); dt(); x(); break; case 2: x(); fmt(); dt(); break; case 3: f.c.push_back({"bext", Bytes(7, 65)}); fmt(); f.c.push_back({"chna", Bytes(4, 0)}); dt(); x(); f.c.push_back({"junk", {}}); break; }
  return File(f);
}
}  // namespace
#endif
