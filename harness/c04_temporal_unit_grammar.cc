// Temporal-unit OBUs (parameter blocks, audio frames, temporal delimiters) and
// metadata OBUs against the reference grammar.
#include "vh_main.h"
#include "obu_check.h"
#include "iamf/obu/param_definitions/extended_param_definition.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/param_definitions/subblock_schedule.h"
using namespace iamf_tools;
using namespace obuc;

namespace {
struct Def { std::unique_ptr<ParamDefinition> p; int kind = 0; std::vector<bool> layers; uint64_t dur = 0, cdur = 0; std::vector<uint64_t> sub; bool sched = false; };

void Data(gram::G& g, const Def& d, bool rich) {
  auto& c = g.c;
  auto s16 = [&](const char* n, int v) { g.s(n, 16, rich ? c.alt<int>({v, 0, -32768, 32767, -1}) : v); };
  if (d.kind == 0) {
    uint64_t t = c.alt<uint64_t>({0, 1, 2, 3, 0xffffffff, 0x100000000ull}); g.leb("anim", t); if (t > 2) { g.ok = false; return; }
    s16("a", 256); if (t >= 1) s16("b", -512); if (t == 2) { s16("c", 77); g.f("t", 8, rich ? c.alt<int>({128, 0, 255, 1}) : 9); }
  } else if (d.kind == 1) {
    int m = g.f("dmixp", 3, c.alt<int>({0, 1, 2, 3, 4, 5, 6, 7})); g.ok &= m != 3 && m != 7; g.f("res", 5, rich ? c.alt<int>({0, 1, 16, 31}) : 0);
  } else if (d.kind == 2) {
    for (size_t i = 0; i < d.layers.size(); ++i) {
      if (!d.layers[i]) { g.d += "rg=none;"; continue; }
      uint64_t fl = rich ? c.alt<uint64_t>({0x1, 0, 0xfff, 0x800, 0x7f, 0x80, 0xaaa, 0x1000, 0xfffff000, 0xffffffff, 0x100000000ull}) : 3;
      g.leb("rg", fl); Bytes v(12); for (int j = 0; j < 12; ++j) if (fl >> j & 1) { v[j] = rich && j % 11 == 0 ? c.alt<int>({255, 0, 128}) : 20 + j; g.raw(8, v[j]); }
      g.dumpb("v", v);
    }
  } else {
    Bytes e = rich ? c.alt<Bytes>({{}, {1}, {9, 8, 7}, Bytes(200, 5)}) : Bytes{4}; uint64_t lie = rich ? c.alt<uint64_t>({0, gram::kMaxObu + 1, 0xffffffff}) : 0;
    g.leb_raw(lie ? lie : e.size()); if (lie) { g.ok = false; return; } g.bytes("ext", e);
  }
}
void Block(gram::G& g, Def& def) {
  auto& c = g.c;
  def.kind = c.alt<int>({0, 1, 2, 3});
  def.sched = c(2) == 0 ? false : true; // 0: schedule in the block (mode 1)
  uint64_t id = c.alt<uint64_t>({7, 0, 128, 0xffffffff});
  ParamDefinition::BaseArgs a; a.parameter_id = id; a.parameter_rate = 48000;
  uint64_t wire = c.alt<uint64_t>({0, 1}); g.leb("pid", id ^ wire); if (wire) g.ok = false;
  struct S { uint64_t dur, cdur; std::vector<uint64_t> sub; };
  std::vector<S> scheds = {{8, 8, {}}, {8, 4, {}}, {8, 3, {}}, {8, 0, {3, 5}}, {8, 0, {8}}, {8, 0, {1, 2, 5}}, {1, 1, {}}, {8, 1, {}}, {300, 0, {200, 100}}, {0xffffffff, 0xffffffff, {}}, {0xffffffff, 0x7fffffff, {}}, {0xffffffff, 0, {0x80000000ull, 0x7fffffff}}, {3, 0, {1, 1, 1}}, {1, 0, {1}},
                           // invalid ones
                           {0, 1, {}}, {8, 9, {}}, {8, 0, {3, 4}}, {8, 0, {3, 6}}, {8, 0, {}}, {8, 0, {8, 0}}, {0, 0, {1}}, {2, 0, {1, 1, 1}}, {0xffffffff, 1, {}}, {192001, 1, {}}, {7, 0, {0xffffffff, 8}}, {0x100000007ull, 7, {}}};
  int k = c(def.sched ? 14 : (int)scheds.size()); S s = scheds[k];
  if (!def.sched && k >= 14) g.ok = false;
  if (def.sched && (def.kind == 1 || def.kind == 2)) { s = {8, 8, {}}; }  // one subblock by definition
  def.dur = s.dur; def.cdur = s.cdur; def.sub = s.sub;
  // Number and duration of subblocks.
  std::vector<uint64_t> durs = s.sub; uint64_t nsub = durs.size();
  if (s.cdur) { nsub = s.dur ? (s.dur + s.cdur - 1) / s.cdur : 0; for (uint64_t i = 0; i < nsub && i < 10; ++i) durs.push_back(i + 1 < nsub ? s.cdur : s.dur - i * s.cdur); }
  if (def.sched) {
    a.schedule = s.cdur ? *SubblockSchedule::CreateWithConstantSubblockDuration(s.dur, s.cdur) : *SubblockSchedule::CreateWithVariableSubblockDuration(std::vector<uint32_t>(s.sub.begin(), s.sub.end()));
  }
  if (def.kind == 2) { def.layers = c.alt<std::vector<bool>>({{false, true}, {false}, {true, true, true}, {false, true, false, true, true, true}, {true}}); }
  switch (def.kind) {
    case 0: def.p = std::make_unique<MixGainParamDefinition>(a); break;
    case 1: def.p = std::make_unique<DemixingParamDefinition>(a); break;
    case 2: { auto r = std::make_unique<ReconGainParamDefinition>(a, 300); for (bool l : def.layers) r->aux_data_.push_back({l, {}}); def.p = std::move(r); break; }
    default: def.p = std::make_unique<ExtendedParamDefinition>(static_cast<ParamDefinition::ParameterDefinitionType>(c.alt<uint32_t>({9, 1000})), a); break;
  }
  // Demixing and recon gain definitions must carry a one-subblock schedule.
  if (!def.sched && (def.kind == 1 || def.kind == 2)) g.unk = !def.p->Validate().ok(), g.ok = g.ok && !g.unk;
  if (def.sched) {
    g.dump("dur", s.dur); g.dump("cdur", s.cdur); g.dump("nsub", nsub);
    for (size_t i = 0; i < nsub; ++i) { g.dump("sd", durs[i]); Data(g, def, i < 2); }
  } else {
    g.leb("dur", s.dur); g.leb("cdur", s.cdur);
    if (s.cdur) { g.dump("nsub", nsub); if (g.ok || nsub <= 10) for (size_t i = 0; i < nsub && i < durs.size(); ++i) { g.dump("sd", durs[i]); Data(g, def, i < 2); } }
    else {
      uint64_t n = s.sub.size() + c.alt<uint64_t>({0, 192001, 0xfffffff0ull}); g.leb("nsub", n); if (n != s.sub.size()) g.ok = false;
      for (size_t i = 0; i < s.sub.size(); ++i) { g.leb_raw(s.sub[i]); g.dump("sd", s.sub[i]); Data(g, def, i < 2); }
    }
  }
}
void Blocks(Ctx& ctx) {
  Chooser c(ctx.thorough ? 4 : 3);
  do {
    gram::G g(c); Def def; Block(g, def);
    auto fr = gram::Frame(c, gram::kParameterBlock, g.in.b, g.out.b);
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    if (!ctx.Mine("block:" + c.Name())) continue;
    auto make = [&](const ObuHeader& h, int64_t p, ReadBitBuffer& rb) { auto at = rb.Tell(); auto id = ParameterBlockObu::PeekParameterId(rb); if (rb.Tell() != at) ctx.Fail("peek-moves", ""); if (id.ok() && *id == def.p->GetParameterId() && g.d.rfind("pid=" + std::to_string(*id) + ";", 0) && !g.unk) ctx.Fail("peek-id", std::to_string(*id)); return ParameterBlockObu::CreateFromBuffer(h, p, *def.p, rb); };
    CheckObu<ParameterBlockObu>(ctx, g, make, fr, false, 0, c.dev <= 1);
  } while (c.Next() && !ctx.stop);
}
void Frames(Ctx& ctx) {
  for (int type = 5; type <= 23; ++type) for (bool flag : {false, true}) {
    Chooser c(ctx.thorough ? 6 : 4);
    do {
      gram::G g(c);
      if (type == 5) g.leb("sid", c.alt<uint64_t>({18, 0, 17, 127, 128, 0xffffffff, 0x100000000ull})); else g.dump("sid", type - 6);
      Bytes d = c.alt<Bytes>({{1, 2, 3}, {}, {0x80}, Bytes(300, 7)}); if (d.size() == 300) for (int i = 0; i < 300; ++i) d[i] = i;
      g.bytes("data", d);
      auto fr = gram::Frame(c, type, g.in.b, g.out.b, false, flag);
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
      if (!ctx.Mine("frame" + std::to_string(type) + (flag ? "t:" : ":") + c.Name())) continue;
      CheckObu<AudioFrameObu>(ctx, g, Plain<AudioFrameObu>(), fr, true, 0, false);
      // An explicit substream id cut short is refused.
      if (type == 5 && g.ok && fr.ok && c.dev <= 1) {
        size_t idlen = g.in.b.size() - d.size();
        for (size_t k = 0; k < idlen; ++k) { auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(g.in.b)); ObuHeader h; h.obu_type = kObuIaAudioFrame; if (AudioFrameObu::CreateFromBuffer(h, k, *rb).ok()) ctx.Fail("short-id-accepted", vh::Hex(fr.in)); }
      }
    } while (c.Next() && !ctx.stop);
  }
}
void Delimiters(Ctx& ctx) {
  for (bool flag : {false, true}) {
    Chooser c(6);
    do {
      gram::G g(c); Bytes tail = c.alt<Bytes>({{}, {1}, Bytes(130, 9)}); g.in.bytes(tail); g.out.bytes(tail);
      auto fr = gram::Frame(c, gram::kTemporalDelimiter, g.in.b, g.out.b, false, flag);
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
      if (!ctx.Mine(std::string("delimiter") + (flag ? "k:" : ":") + c.Name())) continue;
      CheckObu<TemporalDelimiterObu>(ctx, g, Plain<TemporalDelimiterObu>(), fr, true, 0, false);
    } while (c.Next() && !ctx.stop);
  }
}
void Metadata(Ctx& ctx) {
  Chooser c(ctx.thorough ? 6 : 4);
  do {
    gram::G g(c); bool greedy = true;
    uint64_t t = c.alt<uint64_t>({1, 2, 0, 3, 127, 128, 0xffffffff, 0x100000000ull}); g.leb("mtype", t);
    if (t == 1) {
      int cc = g.f("cc", 8, c.alt<int>({0xb5, 0, 0xfe, 0xff})); if (cc == 0xff) g.f("cce", 8, c.alt<int>({0, 1, 255})); else g.dump("cce", -1);
      g.bytes("body", c.alt<Bytes>({{1, 2}, {}, {0xff}, Bytes(200, 3)}));
    } else if (t == 2) {
      greedy = false; int n = c.alt<int>({1, 0, 2, 3, 255}); g.f("ntag", 8, n);
      for (int i = 0; i < n; ++i) { bool rich = i < 2; g.str("tn", rich ? c.alt<std::string>({"tag", "", "content_language", std::string(127, 'n'), std::string(128, 'n'), "\xff\x01"}) : "x"); g.str("tv", rich ? c.alt<std::string>({"value", "", std::string(127, 'v'), std::string(128, 'v'), "eng"}) : ""); }
    } else { Bytes tail = c.alt<Bytes>({{}, {1}, Bytes(130, 9)}); g.in.bytes(tail); g.out.bytes(tail); }
    auto fr = gram::Frame(c, gram::kMetadata, g.in.b, g.out.b);
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    if (!ctx.Mine("metadata:" + c.Name())) continue;
    CheckObu<MetadataObu>(ctx, g, Plain<MetadataObu>(), fr, greedy, 0, c.dev <= 1);
  } while (c.Next() && !ctx.stop);
}
void Body(Ctx& ctx) { Frames(ctx); Delimiters(ctx); Metadata(ctx); Blocks(ctx); }
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C04";
  s.rule = "Reference grammar of audio frames (all 19 types), temporal delimiters, metadata OBUs and parameter blocks (4 parameter kinds x schedule in the definition or in the block), every resolution of its choice points with at most d deviations from the default (quick: frames 4, metadata 4, blocks 3; thorough 6/6/4); each is parsed, compared field by field, rewritten and compared byte by byte; default and single-deviation OBUs also at every truncation and with trailing bytes.";
  s.assumptions = {"field values come from a finite alphabet per field (boundary values)"};
  s.min_cases = 10000; s.min_outcomes = 200;
  return vh::Run(argc, argv, s, Body);
}
