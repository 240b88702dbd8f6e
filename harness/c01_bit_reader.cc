// Every operation sequence up to a depth on every kind of ReadBitBuffer, against
// a plain sequence of bits with a cursor.
#include "vh_main.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/types.h"
using namespace iamf_tools;
using vh::Ctx;

namespace {
enum Kind { kMem, kFile, kStream };
// The reference model: a list of bits and a cursor; nothing else.
struct Model {
  std::vector<uint8_t> bytes;
  int64_t pos = 0;
  int unseekable = 0;  // 2 right after Flush(): Seek must refuse. 1 once something was read since (a read may take a new position itself). 0 after Tell().
  int64_t Size() const { return (int64_t)bytes.size() * 8; }
  bool Bit(int64_t i) const { return bytes[i / 8] >> (7 - i % 8) & 1; }
  bool Read(int n, uint64_t& v) { if (pos + n > Size()) return false; v = 0; for (int i = 0; i < n; ++i) v = v << 1 | Bit(pos++); return true; }
};
struct Op { const char* name; int a; };
const std::vector<Op>& Ops(Kind k) {
  static const std::vector<Op> base = {
      {"read", 0}, {"read", 1}, {"read", 5}, {"read", 8}, {"read", 12}, {"read", 16}, {"read", 35}, {"read", 64}, {"read", 65},
      {"bool", 0}, {"s9", 0}, {"span", 3}, {"uleb", 0}, {"iso", 0}, {"str", 0},
      {"tell", 0}, {"seeksaved", 0}, {"seek", 11}, {"seekend", 0}, {"seekpast", 0}, {"seekneg", 0}, {"ignore", 1}, {"ignore", 2}};
  static const std::vector<Op> mem = base;
  static const std::vector<Op> stream = [] { auto v = base; v.push_back({"push", 1}); v.push_back({"push", 3}); v.push_back({"flush", 0}); return v; }();
  return k == kStream ? stream : mem;
}
// Bytes with both ULEB continuation and terminal bytes, NULs and text.
const std::vector<uint8_t>& Data(int which) {
  static const std::vector<std::vector<uint8_t>> d = {
      {0x81, 0x02, 0x41, 0x00, 0xff, 0x7f, 0x80, 0x80, 0x01, 0x62, 0x63, 0x00, 0xa5, 0x5a},
      {0xff, 0xff, 0xff, 0xff, 0x8f, 0x80, 0x00, 0x13, 0xc7, 0x80, 0x80, 0x80, 0x80, 0x80}};
  return d[which];
}
std::string StatusName(const absl::Status& s) { return absl::StatusCodeToString(s.code()); }

struct Exec {
  std::unique_ptr<ReadBitBuffer> rb; StreamBasedReadBitBuffer* stream = nullptr;
  Model m; int64_t saved = 0; bool saved_valid = true; size_t next_push = 0; const std::vector<uint8_t>* data;
  std::string err;
  bool Fail(const std::string& s) { if (err.empty()) err = s; return false; }
  void SyncAfterPartial(int64_t start) {
    // A multi-byte read that fails may have consumed some whole bytes.
    const int64_t p = rb->Tell();
    if (p < start || p > m.Size()) Fail("cursor left the data after a failed read: " + std::to_string(p));
    m.pos = p;
  }
  bool Step(const Op& op) {
    const std::string n = op.name;
    using absl::StatusCode;
    if (n == "read") {
      uint64_t v = 0xdeadbeef, e; auto s = rb->ReadUnsignedLiteral(op.a, v);
      if (op.a > 64) { if (s.code() != StatusCode::kInvalidArgument) return Fail("read(65) " + StatusName(s)); return true; }
     
      if (m.Read(op.a, e)) { if (!s.ok()) return Fail("read failed: " + s.ToString()); if (v != e) return Fail(absl::StrCat("read ", op.a, " got ", v, " want ", e)); }
      else if (s.code() != StatusCode::kResourceExhausted) return Fail("short read: " + StatusName(s));
    } else if (n == "bool") {
      bool v = false; uint64_t e; auto s = rb->ReadBoolean(v);
      if (m.Read(1, e)) { if (!s.ok() || v != (e != 0)) return Fail("bool"); } else if (s.code() != StatusCode::kResourceExhausted) return Fail("short bool: " + StatusName(s));
    } else if (n == "s9") {
      int16_t v = 0; uint64_t e; auto s = rb->ReadSigned9(v);
      if (m.Read(9, e)) { int x = e >= 256 ? (int)e - 512 : (int)e; if (!s.ok() || v != x) return Fail("signed9"); } else if (s.code() != StatusCode::kResourceExhausted) return Fail("short s9");
    } else if (n == "span") {
      std::vector<uint8_t> v(op.a); int64_t start = m.pos; auto s = rb->ReadUint8Span(absl::MakeSpan(v));
      if (m.pos + 8 * op.a <= m.Size()) { if (!s.ok()) return Fail("span"); for (int i = 0; i < op.a; ++i) { uint64_t e; m.Read(8, e); if (v[i] != e) return Fail("span byte"); } }
      else { if (s.code() != StatusCode::kResourceExhausted) return Fail("short span " + StatusName(s)); SyncAfterPartial(start); }
    } else if (n == "uleb" || n == "iso") {
      const bool le = n == "uleb"; const uint64_t max = le ? 0xffffffffull : 300;
      int64_t start = m.pos; uint32_t v = 0; int8_t sz = -1;
      auto s = le ? rb->ReadULeb128(v, sz) : rb->ReadIso14496_1Expanded(max, v);
     
      Model t = m; uint64_t acc = 0; int want = -1; int used = 0;  // 0 ok, 1 short, 2 invalid
      for (int i = 0; i < 8 && want < 0; ++i) {
        uint64_t b; if (!t.Read(8, b)) { want = 1; break; }
        ++used;
        acc = le ? acc | (b & 0x7f) << (7 * i) : acc << 7 | (b & 0x7f);
        if (i == 7 && (b & 0x80)) want = 2; else if (acc > max) want = 2; else if (!(b & 0x80)) want = 0;
      }
      if (want == 0) { if (!s.ok() || v != acc || (le && sz != used)) return Fail(n + " value " + std::to_string(v) + " want " + std::to_string(acc) + " " + StatusName(s)); m = t; }
      else { if (s.code() != (want == 1 ? StatusCode::kResourceExhausted : StatusCode::kInvalidArgument)) return Fail(n + " status " + StatusName(s)); SyncAfterPartial(start); }
    } else if (n == "str") {
      std::string v = "junk", e; int64_t start = m.pos; auto s = rb->ReadString(v);
      Model t = m; bool ok = false; uint64_t b; while (t.Read(8, b)) { if (!b) { ok = true; break; } e.push_back((char)b); }
      if (ok) { if (!s.ok() || v != e) return Fail("string"); m = t; }
      else { if (s.code() != StatusCode::kResourceExhausted) return Fail("short string " + StatusName(s)); SyncAfterPartial(start); }
    } else if (n == "tell") {
      saved = rb->Tell(); saved_valid = true; if (saved != m.pos) return Fail(absl::StrCat("Tell ", saved, " want ", m.pos));
    } else if (n == "seeksaved" || n == "seek" || n == "seekend" || n == "seekpast" || n == "seekneg") {
      int64_t p = n == "seeksaved" ? saved : n == "seek" ? op.a : n == "seekend" ? m.Size() : n == "seekpast" ? m.Size() + 1 : -1;
      if (n == "seeksaved" && !saved_valid) return true;
      auto s = rb->Seek(p);
      if (m.unseekable == 1 && s.code() == StatusCode::kFailedPrecondition) return true;
      StatusCode want = m.unseekable == 2 ? StatusCode::kFailedPrecondition : p < 0 ? StatusCode::kInvalidArgument : p > m.Size() ? StatusCode::kResourceExhausted : StatusCode::kOk;
      if (s.code() != want) return Fail(absl::StrCat(n, "(", p, ") ", StatusName(s), " want code ", (int)want));
      if (s.ok()) m.pos = p;
    } else if (n == "ignore") {
      auto s = rb->IgnoreBytes(op.a);
      if (m.pos + 8 * op.a <= m.Size()) { if (!s.ok()) return Fail("ignore " + StatusName(s)); m.pos += 8 * op.a; } else if (s.code() != StatusCode::kResourceExhausted) return Fail("short ignore " + StatusName(s));
    } else if (n == "push") {
      std::vector<uint8_t> c; for (int i = 0; i < op.a; ++i) c.push_back((*data)[next_push++ % data->size()]);
      if (!stream->PushBytes(c).ok()) return Fail("push");
      m.bytes.insert(m.bytes.end(), c.begin(), c.end());
    } else if (n == "flush") {
      stream->Flush(); m.bytes.erase(m.bytes.begin(), m.bytes.begin() + m.pos / 8); m.pos %= 8; m.unseekable = 2; saved_valid = false;
    }
    if (!err.empty()) return false;
    if (m.unseekable == 2 && n != "flush" && n != "push" && n.rfind("seek", 0) != 0) m.unseekable = 1;
    const int64_t avail = rb->NumBytesAvailable(), want_avail = (m.Size() - m.pos) / 8;
    // Bytes available: whole unread bytes (a partially read byte does not count).
    if (avail != want_avail) return Fail(absl::StrCat("NumBytesAvailable ", avail, " want ", want_avail));
    if (rb->IsDataAvailable() != (want_avail > 0)) return Fail("IsDataAvailable");
    return true;
  }
};
}  // namespace

int main(int argc, char** argv) {
  vh::Spec spec;
  spec.id = "C01";
  spec.rule = "strings of every length 0-131 and the spans behind them at every bit alignment, terminated, cut or not, on every source and capacity, read twice; all sequences of reader operations (23 on memory/file buffers, 26 with push/flush on stream buffers) up to depth 4 (quick) / 5 (thorough), x source kind x internal capacity {1,2,3,64} x 2 data sets x initial fill, each step compared with a list-of-bits model";
  spec.assumptions = {"internal capacity >= 1", "after a failed multi-byte read the cursor may be anywhere between its old position and the end"};
  return vh::Run(argc, argv, spec, [](Ctx& c) {
    const std::string dir = vh::ScratchDir();
    for (int d = 0; d < 2; ++d) { std::ofstream f(dir + "/d" + std::to_string(d), std::ios::binary); f.write((const char*)Data(d).data(), 6); }
    struct Cfg { Kind k; int cap; int d; int fill; };
    std::vector<Cfg> cfgs;
    for (int d = 0; d < 2; ++d) {
      cfgs.push_back({kMem, 0, d, 6});
      for (int cap : {1, 2, 3, 64}) { cfgs.push_back({kFile, cap, d, 6}); cfgs.push_back({kStream, cap, d, 0}); if (cap < 64) cfgs.push_back({kStream, cap, d, 5}); }
    }
    // Strings and spans of every length across many refills, at every alignment.
    for (int kind = 0; kind < 3; ++kind) for (int cap : {1, 3, 16, 64, 200}) for (int len = 0; len <= 131; ++len) {
      if (kind == 0 && cap != 1) continue;
      if (!c.NextIsMine()) { c.Skip(); continue; }
      if (!c.Mine(absl::StrCat("long:kind=", kind, ":cap=", cap, ":len=", len))) continue;
      for (int shift = 0; shift < 8; ++shift) for (int cut : {0, 1, 200}) {
        // shift bits, `len` characters, a terminator (if it is not cut off), then 60 bytes.
        std::vector<bool> bits(shift, true); auto put = [&](int v) { for (int i = 7; i >= 0; --i) bits.push_back(v >> i & 1); };
        std::string text; for (int i = 0; i < len; ++i) { text += (char)(1 + (i * 37 + len) % 255); put((uint8_t)text.back()); }
        std::vector<uint8_t> tail; if (cut != 1) { put(0); for (int i = 0; i < 60; ++i) { tail.push_back(i * 59 + 7); put(tail.back()); } } 
        std::vector<uint8_t> src((bits.size() + 7) / 8); for (size_t i = 0; i < bits.size(); ++i) if (bits[i]) src[i / 8] |= 0x80 >> (i % 8);
        if (cut == 200) src.resize((shift + 8 * len) / 8);  // the terminator is missing altogether, bits may be left over
        std::unique_ptr<ReadBitBuffer> rb; const std::string path = dir + "/long";
        if (kind == 0) rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(src));
        else if (kind == 1) { if (shift % 3 || cut == 200) continue; { std::ofstream f(path, std::ios::binary); f.write((const char*)src.data(), src.size()); } rb = FileBasedReadBitBuffer::CreateFromFilePath(cap, path); }
        else { auto b = StreamBasedReadBitBuffer::Create(cap); for (size_t at = 0; at < src.size();) { size_t n = std::min<size_t>(src.size() - at, 1 + at % 7); (void)b->PushBytes(absl::MakeConstSpan(src).subspan(at, n)); at += n; } rb = std::move(b); }
        std::string err;
        for (int round = 0; round < 2 && err.empty(); ++round) {
          uint32_t v = 0; if (!rb->ReadUnsignedLiteral(shift, v).ok() || v != (1u << shift) - 1) { if ((int)src.size() * 8 >= shift) err = "leading bits"; break; }
          std::string got = "junk"; auto s = rb->ReadString(got); const size_t have = ((int64_t)src.size() * 8 - shift) / 8; size_t nul = len; if (cut == 1) { nul = 999; /* zero padding bits are not a terminator unless a whole byte */ }
          const bool ok = len < 128 && cut == 0; c.Transitions(3);
          if (s.ok() != ok) { err = absl::StrCat("ReadString of ", len, " characters at bit ", shift, ": ", StatusName(s), have ? "" : " (empty)"); break; }
          if (!ok) break;
          if (got != text) { err = absl::StrCat("ReadString of ", len, " characters gives ", got.size()); break; }
          for (size_t at = 0, n = round; at < tail.size() && err.empty(); at += n, n = n * 2 + 1) { n = std::min(n, tail.size() - at); std::vector<uint8_t> o(n, 0xcc); auto q = rb->ReadUint8Span(absl::MakeSpan(o)); if (!q.ok() || !std::equal(o.begin(), o.end(), tail.begin() + at)) err = absl::StrCat("ReadUint8Span of ", n, " at byte ", at, " behind a string of ", len); if (!n) n = 0; }
          if (err.empty() && rb->NumBytesAvailable() != 0) err = "bytes left over"; std::vector<uint8_t> more(1); if (err.empty() && rb->ReadUint8Span(absl::MakeSpan(more)).ok()) err = "reads past the end";
          if (err.empty() && !rb->Seek(0).ok()) err = "seek to the start";
        }
        c.Validated(); if (!err.empty()) { c.Fail("long", err); break; }
      }
      c.Outcome(len * 8 + kind);
    }
    const int depth = c.thorough ? 5 : 4;
    for (auto& g : cfgs) {
      const auto& ops = Ops(g.k); const int N = ops.size();
      const int dep = (g.k == kFile) ? depth - 1 : depth;  // file buffers cost a system call per step
      // A case is a first pair of operations; inside it, all continuations.
      for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) {
        if (!c.NextIsMine()) { c.Skip(); continue; }
        std::string base = absl::StrCat("kind=", (int)g.k, " cap=", g.cap, " data=", g.d, " fill=", g.fill, " ops=", ops[a].name, ops[a].a, ",", ops[b].name, ops[b].a, " depth=", dep);
        if (!c.Mine(base)) continue;
        std::vector<int> seq = {a, b}; seq.resize(dep, 0);
        while (true) {
          Exec x; x.data = &Data(g.d);
          if (g.k == kMem) { x.m.bytes.assign(x.data->begin(), x.data->begin() + 6); x.rb = MemoryBasedReadBitBuffer::CreateFromSpan(x.m.bytes); }
          else if (g.k == kFile) { x.m.bytes.assign(x.data->begin(), x.data->begin() + 6); x.rb = FileBasedReadBitBuffer::CreateFromFilePath(g.cap, dir + "/d" + std::to_string(g.d)); }
          else { auto s = StreamBasedReadBitBuffer::Create(g.cap); x.stream = s.get(); x.rb = std::move(s);
                 for (int i = 0; i < g.fill; ++i) { (void)x.stream->PushBytes({&(*x.data)[x.next_push++], 1}); }
                 x.m.bytes.assign(x.data->begin(), x.data->begin() + g.fill); }
          int i = 0;
          for (; i < dep; ++i) if (!x.Step(ops[seq[i]])) break;
          c.Transitions(i); c.Validated();
          uint64_t h = vh::Fnv(&x.m.pos, 8, x.m.unseekable); h = vh::Fnv(x.m.bytes.data(), x.m.bytes.size(), h); c.State(h);
          if (!x.err.empty()) { std::string t; for (int j = 0; j <= i && j < dep; ++j) t += absl::StrCat(" ", ops[seq[j]].name, "(", ops[seq[j]].a, ")"); c.Fail("reader-model", x.err + " after" + t); }
          c.Outcome(vh::Fnv(&x.m.pos, 8, x.m.bytes.size()));
          int k = dep - 1; while (k >= 2 && ++seq[k] == N) seq[k--] = 0;
          if (k < 2) break;
        }
      }
    }
  });
}
