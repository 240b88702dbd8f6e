// C10: every history of calls on the OBU sequencers, in lock step with a model of
// the documented protocol: what reaches the output, in which order, and what is
// left behind after an error.
#include <filesystem>
#include <fstream>
#include <sstream>
#include "vh_main.h"
#include "stream.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/cli/obu_sequencer_base.h"
#include "iamf/cli/obu_sequencer_iamf.h"
#include "iamf/cli/obu_sequencer_streaming_iamf.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/arbitrary_obu.h"
using vh::Ctx; using namespace iamf_tools; using gram::Bytes;
namespace {
enum Op { kD, kDbad, kUStart, kUPart, kUFull, kUEnd, kUHooks, kUArb, kUpdSame, kUpdLoud, kUpdSize, kUpdRate, kClose, kAbort, kOps };
const char* kNames = "DXspfehaULZRCA";
constexpr int kN = 4;
// A description with `variant`: 0 base, 1 other loudness, 2 other size, 3 other
// number of samples per frame (same size), 4 unsupported profile.
struct Desc { Bytes bytes; std::unique_ptr<MemoryBasedReadBitBuffer> rb; std::unique_ptr<ObuProcessor> p; std::list<MetadataObu> meta; std::list<ArbitraryObu> arbs; };
st::Stream Base(int variant) {
  st::Stream s; s.primary = variant == 4 ? 0 : 1; s.n = variant == 3 ? kN + 1 : kN; s.elems = {{300, st::kStereo, 0, {}}, {301, st::kMono, 7, {}}};
  s.mixes = {st::Simple(42, {300, 301})}; if (variant == 2) s.mixes[0].layouts = {0, 1};
  s.tus.resize(4); s.tus[0].trim_start = kN; s.tus[1].trim_start = 1; s.tus[1].trim_end = 1; s.tus[3].trim_end = kN; for (auto& t : s.tus) t.delim = false;
  return s;
}
// Every OBU of a buffer as (type, bytes).
Desc Make(int variant) {
  Desc d; auto s = Base(variant == 4 ? 0 : variant); auto all = st::All(s); auto desc = st::Descriptors(s);
  if (variant == 1) { for (size_t i = 0; i < 4; ++i) { all[desc.size() - 4 + i] = desc[desc.size() - 4 + i] = 0x11 * (i + 1); } }
  d.rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(all)); bool insufficient = false; d.p = ObuProcessor::Create(false, d.rb.get(), insufficient);
  if (!d.p) std::abort();
  ObuHeader h; const Bytes a = {1, 2, 3}, b = {}, c = {9};
  d.arbs.emplace_back(kObuIaReserved26, h, absl::MakeConstSpan(a), ArbitraryObu::kInsertionHookBeforeDescriptors);
  d.arbs.emplace_back(kObuIaReserved27, h, absl::MakeConstSpan(b), ArbitraryObu::kInsertionHookAfterDescriptors);
  d.arbs.emplace_back(kObuIaReserved26, h, absl::MakeConstSpan(c), ArbitraryObu::kInsertionHookAfterCodecConfigs);
  Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); };
  auto cc = st::CodecConfig(s), sh = st::SequenceHeader(s);
  add(st::Obu(26, a)); add(sh); add(cc); add(st::Obu(26, c)); Bytes tail(desc.begin() + sh.size() + cc.size(), desc.end()); add(tail); add(st::Obu(27, b));
  d.bytes = o; return d;
}
struct World {
  std::vector<Desc> d; std::vector<std::list<AudioFrameWithData>> frames; std::vector<Bytes> frame_bytes; std::unique_ptr<IASequenceHeaderObu> bad_header;
  World() {
    for (int v = 0; v < 4; ++v) d.push_back(Make(v));
    auto s = Base(0);
    for (size_t i = 0; i < s.tus.size(); ++i) { std::optional<ObuProcessor::OutputTemporalUnit> out; bool more = false; auto st = d[0].p->ProcessTemporalUnit(true, out, more); if (!st.ok() || !out) std::abort(); frames.push_back(std::move(out->output_audio_frames)); auto b = st::TuBytes(s, i); frame_bytes.push_back(b); }
    bad_header = std::make_unique<IASequenceHeaderObu>(ObuHeader(), ProfileVersion::kIamfSimpleProfile, ProfileVersion::kIamfSimpleProfile);
  }
};
World& W() { static World* w = new World; return *w; }
// What the base class handed to the concrete sequencer.
struct Event { char kind; int64_t t = 0; int64_t n = 0; int64_t rate = 0, bits = 0, ch = 0; Bytes data; bool has_t = true;
  bool operator==(const Event& o) const { return kind == o.kind && t == o.t && n == o.n && rate == o.rate && bits == o.bits && ch == o.ch && data == o.data && has_t == o.has_t; }
  std::string Str() const { return std::string(1, kind) + "(t=" + (has_t ? std::to_string(t) : "-") + ",n=" + std::to_string(n) + "," + std::to_string(data.size()) + "B:" + std::to_string(vh::Fnv(data.data(), data.size()) % 10000) + ")"; } };
struct Spy : ObuSequencerBase {
  std::vector<Event> ev; int fail_at = -1, n = 0;
  Spy(bool delim, bool delay) : ObuSequencerBase(*LebGenerator::Create(), delim, delay) {}
  ~Spy() override = default;
  absl::Status Ret() { return n++ == fail_at ? absl::UnknownError("injected") : absl::OkStatus(); }
  absl::Status PushSerializedDescriptorObus(uint32_t spf, uint32_t rate, uint8_t bits, std::optional<InternalTimestamp> t, int ch, absl::Span<const uint8_t> x) override { ev.push_back({'D', t.value_or(0), spf, rate, bits, ch, Bytes(x.begin(), x.end()), t.has_value()}); return Ret(); }
  absl::Status PushSerializedTemporalUnit(InternalTimestamp t, int k, bool, absl::Span<const uint8_t> x) override { ev.push_back({'T', t, k, 0, 0, 0, Bytes(x.begin(), x.end())}); return Ret(); }
  absl::Status PushFinalizedDescriptorObus(absl::Span<const uint8_t> x) override { ev.push_back({'F', 0, 0, 0, 0, 0, Bytes(x.begin(), x.end())}); return Ret(); }
  void CloseDerived() override { ev.push_back({'C'}); }
  void AbortDerived() override { ev.push_back({'A'}); }
};
Bytes Hooked() { Bytes o; auto add = [&](const Bytes& x) { o.insert(o.end(), x.begin(), x.end()); }; add(st::Obu(26, {1})); add(st::Obu(26, {2})); add(W().frame_bytes[2]); add(st::Obu(27, {3})); return o; }
struct Model {
  bool delim, delay; int state = 0; bool started = false, found = false; int fail_at = -1, n = 0;  // state: 0 new, 1 open, 2 closed, 3 aborted
  std::vector<Event> ev, held; Bytes desc, units; bool final_desc = false; Bytes last_unit;
  bool Push(Event e) { ev.push_back(e); return n++ != fail_at; }
  Event D(std::optional<int64_t> t) { return {'D', t.value_or(0), kN, 48000, 16, 2, desc, t.has_value()}; }
  bool Start(int64_t t) { if (started) return true; started = true; if (!Push(D(t))) return false; for (auto& h : held) if (!Push(h)) return false; held.clear(); return true; }
  bool Abort() { if (state < 2) ev.push_back({'A'}); state = state == 2 ? 2 : 3; return false; }
  bool CloseIt(bool in_update) { if (state == 1 && !Start(0)) { if (in_update) return Abort(); state = 4; return false; } ev.push_back({'C'}); state = 2; return true; }
  bool Do(int o, int64_t at) {
    auto& w = W();
    switch (o) {
      case kD: case kDbad:
        if (state || o == kDbad) return Abort();
        state = 1; desc = w.d[0].bytes; if (!delay) { started = true; if (!Push(D(std::nullopt))) return Abort(); } return true;
      case kUStart: case kUPart: case kUFull: case kUEnd: case kUHooks: case kUArb: {
        if (state != 1 || o == kUArb) return Abort();
        int k = o - kUStart; static const int ts[] = {kN, 1, 0, 0, 0}, left[] = {0, 2, kN, 0, kN};
        Bytes b; if (delim) b = st::Obu(4, {}); Bytes x = o == kUHooks ? Hooked() : w.frame_bytes[k]; b.insert(b.end(), x.begin(), x.end());
        Event e{'T', at, left[k], 0, 0, 0, b};
        if (found && ts[k]) return Abort();
        if (!found && left[k]) { found = true; if (!Start(at + ts[k])) return Abort(); }
        units.insert(units.end(), b.begin(), b.end()); last_unit = b;
        if (!started) { held.push_back(e); return true; }
        return Push(e) || Abort();
      }
      case kUpdSame: case kUpdLoud: case kUpdSize: case kUpdRate:
        if (state != 1 || o == kUpdSize || o == kUpdRate) return Abort();
        if (o == kUpdLoud) { if (!Start(0)) return Abort(); if (!Push({'F', 0, 0, 0, 0, 0, w.d[1].bytes})) return Abort(); desc = w.d[1].bytes; }
        return CloseIt(true);
      case kClose: if (state >= 2) return false; return CloseIt(false);
      default: if (state < 2) { ev.push_back({'A'}); } if (state != 2) state = 3; return true;
    }
  }
};
absl::Status Apply(ObuSequencerBase& q, int o, int64_t at) {
  auto& w = W(); auto& d = w.d[o == kUpdLoud ? 1 : o == kUpdSize ? 2 : o == kUpdRate ? 3 : 0]; auto& p = *d.p;
  switch (o) {
    case kD: case kDbad: return q.PushDescriptorObus(o == kDbad ? *w.bad_header : p.GetIaSequenceHeaderView(), d.meta, p.GetCodecConfigsByIdView(), p.GetAudioElementsView(), p.GetMixPresentationObusView(), d.arbs);
    case kUpdSame: case kUpdLoud: case kUpdSize: case kUpdRate: return q.UpdateDescriptorObusAndClose(p.GetIaSequenceHeaderView(), d.meta, p.GetCodecConfigsByIdView(), p.GetAudioElementsView(), p.GetMixPresentationObusView(), d.arbs);
    case kClose: return q.Close();
    case kAbort: q.Abort(); return absl::OkStatus();
    case kUArb: { std::list<ArbitraryObu> a; const Bytes x = {5, 6}; a.emplace_back(kObuIaReserved27, ObuHeader(), absl::MakeConstSpan(x), ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, at, true); auto v = TemporalUnitView::Create(std::list<ParameterBlockWithData>(), std::list<AudioFrameWithData>(), a); if (!v.ok()) std::abort(); return q.PushTemporalUnit(*v); }
    default: {
      auto& f = w.frames[o == kUHooks ? 2 : o - kUStart]; std::list<ArbitraryObu> a;
      if (o == kUHooks) { const Bytes x = {1}, y = {2}, z = {3}; a.emplace_back(kObuIaReserved27, ObuHeader(), absl::MakeConstSpan(z), ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, at); a.emplace_back(kObuIaReserved26, ObuHeader(), absl::MakeConstSpan(y), ArbitraryObu::kInsertionHookAfterParameterBlocksAtTick, at); a.emplace_back(kObuIaReserved26, ObuHeader(), absl::MakeConstSpan(x), ArbitraryObu::kInsertionHookBeforeParameterBlocksAtTick, at); }
 for (auto& x : f) { x.start_timestamp = at; x.end_timestamp = at + kN; } auto v = TemporalUnitView::Create(std::list<ParameterBlockWithData>(), f, a); if (!v.ok()) std::abort(); return q.PushTemporalUnit(*v); }
  }
}
std::string Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
enum Kind { kSpy, kSpyDelay, kSpyDelim, kSpyDelayDelim, kFile, kFileOver, kNoFile, kStream, kKinds };
void Run(Ctx& ctx, int kind, const std::vector<int>& ops, int fail_at) {
  Model m; m.delim = kind == kSpyDelim || kind == kSpyDelayDelim || kind == kFileOver; m.delay = kind == kSpyDelay || kind == kSpyDelayDelim; m.fail_at = fail_at;
  std::unique_ptr<ObuSequencerBase> q; Spy* spy = nullptr; ObuSequencerStreamingIamf* str = nullptr; const std::string path = vh::ScratchDir() + "/o.iamf"; const std::string old = "previous content of the file";
  auto leb = LebGenerator::Create();
  if (kind <= kSpyDelayDelim) { auto s = std::make_unique<Spy>(m.delim, m.delay); s->fail_at = fail_at; spy = s.get(); q = std::move(s); }
  else if (kind == kStream) { auto s = std::make_unique<ObuSequencerStreamingIamf>(m.delim, *leb); str = s.get(); q = std::move(s); }
  else { std::filesystem::remove(path); if (kind == kFileOver) std::ofstream(path) << old; q = std::make_unique<ObuSequencerIamf>(kind == kNoFile ? "" : path, m.delim, *leb); }
  int64_t at = 0; bool opened = false;
  for (size_t i = 0; i < ops.size(); ++i) {
    const std::string where = "call " + std::to_string(i) + " (" + kNames[ops[i]] + ")"; const int before = m.state;
    auto st = Apply(*q, ops[i], at); bool want = m.Do(ops[i], at); if (m.started) opened = true; ctx.Transitions(1);
    if (ops[i] >= kUStart && ops[i] <= kUArb) at += kN;
    if (st.ok() != want) return ctx.Fail("status", where + ": " + (st.ok() ? std::string("succeeded") : std::string(st.message())) + ", expected " + (want ? "success" : "an error"));
    if (m.state == 4) break;  // a failed Close: nothing is promised about later calls
    if (spy) {
      auto got = spy->ev; if (before >= 2) while (!got.empty() && got.back().kind == 'A' && got.size() > m.ev.size()) got.pop_back();
      if (before < 2 && m.state == 3) while (got.size() > m.ev.size() && got.back().kind == 'A') got.pop_back();
      if (got != m.ev) { std::string s = where + ": got"; for (auto& e : got) s += " " + e.Str(); s += " want"; for (auto& e : m.ev) s += " " + e.Str(); return ctx.Fail("events", s); }
      spy->ev = got;
    }
    if (str) {
      auto b = str->GetSerializedDescriptorObus(), t = str->GetPreviousSerializedTemporalUnit(); Bytes gb(b.begin(), b.end()), gt(t.begin(), t.end());
      if (m.state == 1 || (m.state == 2 && before != 2)) { if (gb != m.desc) return ctx.Fail("stream-descriptors", where); if (gt != (m.state == 1 ? m.last_unit : Bytes())) return ctx.Fail("stream-unit", where); }
      if (m.state == 3 && (!gb.empty() || !gt.empty())) return ctx.Fail("stream-after-abort", where + ": data left after an abort");
    }
    if (kind == kFile || kind == kFileOver) {
      const bool exists = std::filesystem::exists(path);
      if (m.state == 2) { Bytes w = m.desc; w.insert(w.end(), m.units.begin(), m.units.end()); auto g = Slurp(path); if (opened ? g != std::string(w.begin(), w.end()) : kind == kFileOver ? g != old : exists) return ctx.Fail("file", where + ": the closed file has " + std::to_string(g.size()) + " bytes, expected " + std::to_string(w.size()) + (g.size() == w.size() ? " (other content)" : "")); }
      if (m.state == 3 && opened && exists) return ctx.Fail("file-after-abort", where + ": the file is still there");
      if (!opened && m.state != 2 && kind == kFileOver && Slurp(path) != old) return ctx.Fail("file-untouched", where + ": the existing file was changed before anything was written");
      if (!opened && kind == kFile && exists) return ctx.Fail("file-early", where);
    }
  }
  ctx.Validated(ops.size()); uint64_t h = kind; for (auto& e : m.ev) h = vh::Fnv(e.Str(), h + 1); ctx.State(h + m.state); ctx.Outcome(vh::Fnv(std::to_string(kind) + "." + std::to_string(m.state) + "." + std::to_string(m.ev.size()))); ctx.Count("ends-in-state-" + std::to_string(m.state));
  if (m.state < 2 || m.state == 4) q->Abort();
  q.reset();
}
void Case(Ctx& ctx, int kind, const std::vector<int>& ops, int fail_at) {
  if (!ctx.NextIsMine()) return ctx.Skip();
  std::string s = "q:" + std::to_string(kind) + ":"; for (int o : ops) s += kNames[o]; if (fail_at >= 0) s += ":fail" + std::to_string(fail_at);
  if (ctx.Mine(s)) Run(ctx, kind, ops, fail_at);
}
// Model state after the calls, to bound the tree: nothing new after two calls on a closed sequencer.
void Dfs(Ctx& ctx, int kind, std::vector<int>& ops, size_t depth, int dead, int fail_at) {
  if (ctx.stop) return;
  if (!ops.empty() && (ops.size() == depth || dead)) Case(ctx, kind, ops, fail_at);
  if (ops.size() == depth || dead >= 2) return;
  for (int o = 0; o < kOps; ++o) {
    ops.push_back(o); Model m{kind == kSpyDelim || kind == kSpyDelayDelim, kind == kSpyDelay || kind == kSpyDelayDelim}; m.fail_at = fail_at; int64_t at = 0; int dd = 0; for (int x : ops) { if (m.state >= 2) ++dd; if (m.state == 4) dd += 2; m.Do(x, at); at += kN; } if (m.state >= 2 && !dd) dd = 0;
    const bool closed = m.state >= 2; Dfs(ctx, kind, ops, depth, closed ? dd + 1 : 0, fail_at); ops.pop_back();
  }
}
void Body(Ctx& ctx) {
  const size_t depth = ctx.thorough ? 6 : 5;
  for (int k = 0; k < kKinds; ++k) { std::vector<int> ops; Dfs(ctx, k, ops, depth, 0, -1); }
  for (int k : {kSpy, kSpyDelay}) for (int f = 0; f < 4; ++f) { std::vector<int> ops; Dfs(ctx, k, ops, depth - (ctx.thorough ? 0 : 1), 0, f); }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C10"; sp.min_cases = 1000; sp.min_outcomes = 10; sp.case_timeout_s = 30;
  sp.rule = "every sequence of up to 5 (6 thorough) of 14 calls (descriptors good and bad, six kinds of temporal unit: trimmed at start fully/partly, untrimmed, trimmed at end, with arbitrary OBUs at each place, invalid; update-and-close with the same, equally long, differently long or functionally different descriptors; close; abort) on the file, streaming and disabled sequencers and on recording sequencers of all four configurations, and again with each of the first four calls into the concrete sequencer failing; two further calls after the sequencer is closed";
  sp.assumptions = {"is_key_frame is not checked (marked TODO in the code)", "the number of AbortDerived calls after the first is not checked"};
  return vh::Run(argc, argv, sp, Body);
}
