// Checks one OBU against the reference grammar: parse, field comparison, rewrite,
// truncations and unknown trailing bytes.
#pragma once
#include "dump.h"
#include "vh.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
namespace obuc {
using namespace iamf_tools;
using gram::Bytes;
using vh::Ctx;
template <class T> auto Plain() { return [](const ObuHeader& h, int64_t p, ReadBitBuffer& rb) -> absl::StatusOr<std::unique_ptr<T>> { auto r = T::CreateFromBuffer(h, p, rb); if (!r.ok()) return r.status(); return std::make_unique<T>(*std::move(r)); }; }
template <class T, class Make> void CheckObu(Ctx& ctx, gram::G& g, Make make, const gram::Framed& fr, bool greedy_tail, size_t submix_end, bool many_cuts) {
  auto bad = [&](const std::string& key, const std::string& d) { ctx.Fail(key, d + "\nobu: " + vh::Hex(fr.in) + "\nmodel: " + g.d.substr(0, 1500)); };
  auto parse = [&](const Bytes& obu, std::string& hd, int64_t& psize, std::unique_ptr<T>& o, size_t cut_payload, bool cut_buffer) -> absl::Status {
    Bytes b = obu; int64_t p = 0; ObuHeader h;
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b));
    auto s = h.ReadAndValidate(*rb, p); if (!s.ok()) return s;
    hd = dump::Header(h); psize = p;
    if (cut_payload) { p -= cut_payload; if (cut_buffer) { const int64_t at = rb->Tell(); b.resize(b.size() - cut_payload); rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b)); (void)rb->Seek(at); } }
    const int64_t start = rb->Tell();
    absl::StatusOr<std::unique_ptr<T>> r = make(h, p, *rb); if (!r.ok()) return r.status();
    if (rb->Tell() != start + 8 * p) return absl::InternalError("cursor is not at the end of the OBU");
    o = *std::move(r); return absl::OkStatus();
  };
  std::string hd; int64_t ps = -1; std::unique_ptr<T> o;
  auto st = parse(fr.in, hd, ps, o, 0, false);
  const bool want = g.ok && fr.ok;
  ctx.Outcome(vh::Fnv(st.ok() ? "ok" + g.d : "no" + std::string(st.message().substr(0, 40))));
  ctx.State(vh::Fnv(fr.in.data(), fr.in.size())); ctx.Transitions(1);
  if (g.unk) { if (st.ok()) { WriteBitBuffer wb(64); (void)o->ValidateAndWriteObu(wb); o->PrintObu(); } return; }
  if (st.ok() != want) return bad(want ? "valid-obu-rejected" : "invalid-obu-accepted", st.ToString());
  if (st.code() == absl::StatusCode::kInternal) return bad("cursor", st.ToString());
  ctx.Validated();
  ctx.Count(want ? "valid" : "invalid");
  if (!want) return;
  if (hd != fr.d) return bad("header-fields", hd + " vs " + fr.d);
  const auto got = dump::Dump(*o);
  if (g.d.find("?") == std::string::npos && got != g.d) {
    size_t i = 0; while (i < got.size() && i < g.d.size() && got[i] == g.d[i]) ++i;
    return bad("fields", "at ..." + got.substr(i > 40 ? i - 40 : 0, 90) + "... want ..." + g.d.substr(i > 40 ? i - 40 : 0, 90));
  }
  o->PrintObu();
  WriteBitBuffer wb(64); auto ws = o->ValidateAndWriteObu(wb);
  if (g.rw) {
    if (!ws.ok()) return bad("rewrite-refused", ws.ToString());
    if (wb.bit_buffer() != fr.out) return bad("rewrite-differs", vh::Hex(wb.bit_buffer()) + "\nwant " + vh::Hex(fr.out));
  }
  if (greedy_tail) return;
  // Every declared size shorter than the content must be refused, with and without
  // further bytes following in the buffer.
  const size_t n = g.in.b.size();
  std::vector<size_t> cuts; if (many_cuts) for (size_t k = 1; k <= n; ++k) cuts.push_back(k); else cuts = {1, n};
  for (size_t k : cuts) for (bool cut_buffer : {true, false}) {
    if (n > 600 && k > 40 && k < n - 40 && k % 13) continue;
    std::unique_ptr<T> o2; std::string h2; int64_t p2;
    auto s2 = parse(fr.in, h2, p2, o2, k, cut_buffer);
    bool legal = submix_end && n - k == submix_end && !o->header_.GetOptionalFieldsFlag();
    ctx.Transitions(1);
    if (s2.ok() != legal) return bad("truncated-obu", "cut " + std::to_string(k) + (cut_buffer ? " (buffer too) " : " ") + s2.ToString());
  }
  // Unknown trailing bytes are kept and written back.
  const bool tail_ok = !submix_end || submix_end != n;
  if (tail_ok && many_cuts) for (int extra : {1, 130}) {
    Bytes pin = g.in.b, pout = g.out.b; for (int i = 0; i < extra; ++i) { pin.push_back(0x80 + i); pout.push_back(0x80 + i); }
    Chooser c0(0); auto f2 = gram::Frame(c0, fr.in[0] >> 3, pin, pout, fr.in[0] & 4, fr.in[0] & 2, false);
    std::unique_ptr<T> o2; std::string h2; int64_t p2; auto s2 = parse(f2.in, h2, p2, o2, 0, false);
    if (!s2.ok()) return bad("trailing-bytes-refused", s2.ToString());
    if (g.d.find("?") == std::string::npos && dump::Dump(*o2) != g.d) return bad("trailing-bytes-change-fields", "");
    WriteBitBuffer w2(64); auto s3 = o2->ValidateAndWriteObu(w2);
    if (g.rw && (!s3.ok() || w2.bit_buffer() != f2.out)) return bad("trailing-bytes-lost", s3.ToString() + vh::Hex(w2.bit_buffer()));
  }
}

}  // namespace obuc
