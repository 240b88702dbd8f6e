// C02: every operation sequence up to a depth on WriteBitBuffer (all LEB
// generators) against a list of bits; every LEB128 value/size; read-back.
#include <fstream>
#include "vh_main.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
using namespace iamf_tools;
using vh::Ctx;
using Bytes = std::vector<uint8_t>;
namespace {
struct Model {
  std::vector<bool> b;
  void Put(int n, uint64_t v) { for (int i = n - 1; i >= 0; --i) b.push_back(i < 64 && (v >> i & 1)); }
  void Bs(const Bytes& x) { for (auto v : x) Put(8, v); }
  Bytes Out() const { Bytes o((b.size() + 7) / 8); for (size_t i = 0; i < b.size(); ++i) if (b[i]) o[i / 8] |= 0x80 >> (i % 8); return o; }
};
// Reference LEB128; empty if the size cannot hold the value. size 0: minimal.
Bytes Uleb(uint64_t v, int size) {
  Bytes o; do { o.push_back(v & 127 | 128); v >>= 7; } while (v);
  if (size && (int)o.size() > size) return {};
  while (size && (int)o.size() < size) o.push_back(128);
  o.back() &= 127; return o;
}
Bytes Sleb(int64_t v, int size) {
  Bytes o; bool more = true; while (more) { uint8_t x = v & 127; v >>= 7; more = !((v == 0 && !(x & 64)) || (v == -1 && (x & 64))); o.push_back(x | 128); }
  if (size && (int)o.size() > size) return {};
  while (size && (int)o.size() < size) o.push_back(v < 0 ? 255 : 128);
  o.back() &= 127; return o;
}
int64_t DecodeSleb(const Bytes& b) { int64_t v = 0; int sh = 0; for (auto x : b) { v |= (int64_t)(x & 127) << sh; sh += 7; } if (sh < 64 && (b.back() & 64)) v |= -(1ll << sh); return v; }
Bytes Iso(uint32_t v) { Bytes o; do { o.insert(o.begin(), v & 127); v >>= 7; } while (v); for (size_t i = 0; i + 1 < o.size(); ++i) o[i] |= 128; return o; }

struct Op { const char* n; int64_t a; int64_t v; };
const std::vector<Op> kOps = {
    {"lit", 0, 0}, {"lit", 1, 1}, {"lit", 3, 5}, {"lit", 8, 0xa5}, {"lit", 13, 0x1abc}, {"lit", 16, 0x8001}, {"lit", 32, 0xdeadbeef}, {"lit", 32, 0}, {"lit", 33, 1}, {"lit", 5, 32}, {"lit", -1, 0}, {"lit", 0, 1},
    {"lit64", 64, -1}, {"lit64", 64, 0x0123456789abcdefll}, {"lit64", 33, 0x1ffffffffll}, {"lit64", 65, 1}, {"lit64", 40, 0x10000000000ll}, {"lit64", 56, 0x80000000000001ll},
    {"s16", 0, -2}, {"s16", 0, -32768}, {"s9", 0, -256}, {"s9", 0, 255}, {"s9", 0, -257}, {"s9", 0, 256}, {"s9", 0, -1}, {"s8", 0, -128}, {"s8", 0, 5}, {"bool", 0, 1}, {"bool", 0, 0},
    {"str", 0, 0}, {"str", 3, 0}, {"str", 127, 0}, {"str", 128, 0}, {"strnul", 4, 1}, {"strhi", 3, 0},
    {"span", 0, 0}, {"span", 1, 0}, {"span", 7, 0}, {"uleb", 0, 0}, {"uleb", 0, 127}, {"uleb", 0, 128}, {"uleb", 0, 0xffffffff}, {"iso", 0, 0}, {"iso", 0, 127}, {"iso", 0, 128}, {"iso", 0, 0xffffffff},
    {"flushfile", 0, 0}, {"flush", 0, 0}, {"reset", 0, 0}};

std::string Step(WriteBitBuffer& wb, Model& m, Bytes& file_model, std::optional<std::fstream>& file, int fixed, const Op& op) {
  const std::string n = op.n; Model before = m; bool want = true; absl::Status s = absl::OkStatus();
  if (n == "lit") { want = op.a == 0 || (op.a > 0 && op.a <= 32 && (op.a == 32 || ((uint64_t)op.v >> op.a) == 0)); if (want && op.a > 0) m.Put(op.a, op.v); s = wb.WriteUnsignedLiteral((uint32_t)op.v, op.a); }
  else if (n == "lit64") { want = op.a <= 64 && (op.a == 64 || ((uint64_t)op.v >> op.a) == 0); if (want) m.Put(op.a, op.v); s = wb.WriteUnsignedLiteral64((uint64_t)op.v, op.a); }
  else if (n == "s16") { m.Put(16, (uint16_t)op.v); s = wb.WriteSigned16(op.v); }
  else if (n == "s9") { want = op.v >= -256 && op.v <= 255; if (want) m.Put(9, op.v & 0x1ff); s = wb.WriteSigned9(op.v); }
  else if (n == "s8") { m.Put(8, (uint8_t)op.v); s = wb.WriteSigned8(op.v); }
  else if (n == "bool") { m.Put(1, op.v); s = wb.WriteBoolean(op.v); }
  else if (n == "str" || n == "strnul" || n == "strhi") {
    std::string t(op.a, 'x'); if (n == "strnul") t[op.v] = 0; if (n == "strhi") t[1] = (char)0xe9;
    want = n != "strnul" && t.size() <= 127; if (want) { for (char c : t) m.Put(8, (uint8_t)c); m.Put(8, 0); } s = wb.WriteString(t);
  } else if (n == "span") { Bytes t(op.a); for (int i = 0; i < op.a; ++i) t[i] = 17 * i + 0x91; m.Bs(t); s = wb.WriteUint8Span(t); }
  else if (n == "uleb") { Bytes t = Uleb((uint32_t)op.v, fixed); want = !t.empty(); m.Bs(t); s = wb.WriteUleb128((uint32_t)op.v); }
  else if (n == "iso") { m.Bs(Iso(op.v)); s = wb.WriteIso14496_1Expanded(op.v); }
  else if (n == "flushfile" || n == "flush") {
    std::optional<std::fstream> none; want = m.b.size() % 8 == 0; if (want) { if (n == "flushfile") { auto o = m.Out(); file_model.insert(file_model.end(), o.begin(), o.end()); } m.b.clear(); }
    s = wb.FlushAndWriteToFile(n == "flush" ? none : file);
  } else if (n == "reset") { m.b.clear(); wb.Reset(); }
  std::string d = n + "(" + std::to_string(op.a) + "," + std::to_string(op.v) + ")";
  if (s.ok() != want) return d + " status " + s.ToString();
  if (!want) m = before;
  if (wb.bit_offset() != (int64_t)m.b.size()) return d + " offset " + std::to_string(wb.bit_offset()) + " want " + std::to_string(m.b.size());
  if (wb.IsByteAligned() != (m.b.size() % 8 == 0)) return d + " alignment";
  if (wb.bit_buffer() != m.Out()) return d + " content " + vh::Hex(wb.bit_buffer()) + " want " + vh::Hex(m.Out());
  return "";
}
void Body(Ctx& ctx) {
  const int depth = ctx.thorough ? 4 : 3;
  const std::string dir = vh::ScratchDir();
  // Sequences. A case is a first operation and configuration; deeper operations are enumerated inside.
  for (int fixed : {0, 1, 2, 5, 8}) for (int cap : {0, 1, 64}) for (size_t i0 = 0; i0 < kOps.size(); ++i0) for (size_t i1 = 0; i1 < kOps.size(); ++i1) {
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    if (!ctx.Mine("seq:leb" + std::to_string(fixed) + ":cap" + std::to_string(cap) + ":" + std::to_string(i0) + "," + std::to_string(i1))) continue;
    auto gen = fixed ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, fixed) : LebGenerator::Create();
    std::vector<size_t> rest(depth - 2, 0); uint64_t h = 0;
    while (true) {
      WriteBitBuffer wb(cap, *gen); Model m; Bytes fm; std::optional<std::fstream> file; const std::string path = dir + "/w.bin"; bool used = false;
      std::vector<size_t> seq = {i0, i1}; seq.insert(seq.end(), rest.begin(), rest.end());
      for (size_t k : seq) used |= !strcmp(kOps[k].n, "flushfile");
      if (used) file.emplace(path, std::ios::binary | std::ios::out | std::ios::trunc);
      std::string e; for (size_t k : seq) { e = Step(wb, m, fm, file, fixed, kOps[k]); if (!e.empty()) break; }
      ctx.Transitions(seq.size());
      if (e.empty() && used) { file->close(); std::ifstream f(path, std::ios::binary); Bytes got((std::istreambuf_iterator<char>(f)), {}); if (got != fm) e = "file has " + vh::Hex(got) + " want " + vh::Hex(fm); }
      if (!e.empty()) { std::string q; for (size_t k : seq) q += std::string(kOps[k].n) + "(" + std::to_string(kOps[k].a) + "," + std::to_string(kOps[k].v) + ") "; ctx.Fail("sequence", q + ": " + e); break; }
      auto o = m.Out(); h = vh::Fnv(o.data(), o.size(), h + m.b.size());
      ctx.State(vh::Fnv(o.data(), o.size(), m.b.size())); ctx.Validated();
      size_t k = 0; for (; k < rest.size(); ++k) { if (++rest[k] < kOps.size()) break; rest[k] = 0; }
      if (k == rest.size()) break;
    }
    ctx.Outcome(h);
  }
  // Every ULEB128/SLEB128 value near every 7-bit boundary and (in blocks) every value below 2^21, in every size.
  std::vector<uint32_t> edge; for (int i = 0; i <= 32; ++i) for (int d = -2; d <= 2; ++d) edge.push_back((uint32_t)((1ull << i) + d));
  const uint32_t limit = 1u << (ctx.thorough ? 22 : 18), block = 4096;
  for (int fixed = 0; fixed <= 8; ++fixed) for (uint32_t at = 0; at <= limit; at += block) {
    if (!ctx.Mine("leb:" + std::to_string(fixed) + ":" + std::to_string(at))) continue;
    auto gen = fixed ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, fixed) : LebGenerator::Create();
    std::vector<uint32_t> vals; if (at == limit) vals = edge; else for (uint32_t i = 0; i < block; ++i) vals.push_back(at + i);
    for (uint32_t v : vals) {
      Bytes want = Uleb(v, fixed), got; auto s = gen->Uleb128ToUint8Vector(v, got);
      if (s.ok() != !want.empty()) { ctx.Fail("uleb-status", std::to_string(v) + " " + s.ToString()); break; }
      if (s.ok() && got != want) { ctx.Fail("uleb-bytes", std::to_string(v) + " " + vh::Hex(got)); break; }
      if (s.ok()) {
        Bytes pad = got; pad.push_back(0x77); auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(pad)); uint32_t back = ~v; int8_t sz = 0;
        auto r = rb->ReadULeb128(back, sz); if (!r.ok() || back != v || sz != (int)got.size() || rb->Tell() != 8 * (int64_t)got.size()) { ctx.Fail("uleb-readback", std::to_string(v)); break; }
        ctx.Validated();
      }
      for (int64_t sv : {(int64_t)(int32_t)v, -(int64_t)(int32_t)v}) {
        if (sv > 2147483647ll) continue;
        Bytes w2 = Sleb(sv, fixed), g2; auto s2 = gen->Sleb128ToUint8Vector((int32_t)sv, g2);
        if (s2.ok() != !w2.empty()) { ctx.Fail("sleb-status", std::to_string(sv) + " " + s2.ToString()); break; }
        if (s2.ok() && (g2.size() != w2.size() || (int32_t)DecodeSleb(g2) != sv || (g2.back() & 128))) { ctx.Fail("sleb-bytes", std::to_string(sv) + " " + vh::Hex(g2)); break; }
      }
      Bytes iso = Iso(v); WriteBitBuffer wb(8); if (!wb.WriteIso14496_1Expanded(v).ok() || wb.bit_buffer() != iso) { ctx.Fail("iso", std::to_string(v)); break; }
      { auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(iso)); uint32_t back = ~v; if (!rb->ReadIso14496_1Expanded(0xffffffff, back).ok() || back != v) { ctx.Fail("iso-readback", std::to_string(v)); break; } }
      ctx.Transitions(4);
    }
    ctx.Outcome(at * 16 + fixed);
  }
  for (int f = -128; f < 128; ++f) { if (!ctx.Mine("create:" + std::to_string(f))) continue; auto g = LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, f); if ((g != nullptr) != (f >= 1 && f <= 8)) ctx.Fail("create", std::to_string(f)); }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C02"; sp.min_cases = 1000; sp.min_outcomes = 100;
  sp.rule = "every sequence of 3 (thorough: 4) operations from 49 concrete writes, flushes and resets, for 5 LEB generators and 3 capacities, against a list of bits; every unsigned value below 2^18 (2^22) and all power-of-two neighbours in every LEB128 size, read back";
  return vh::Run(argc, argv, sp, Body);
}
