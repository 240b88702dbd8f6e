// Descriptor OBUs against the reference grammar: every resolution of the grammar's
// choice points with a bounded number of deviations from the default OBU, plus an
// exhaustive table of OBU headers.
#include "vh_main.h"
#include "obu_check.h"
using namespace iamf_tools;
using namespace obuc;
using gram::Bytes;
using vh::Ctx;

namespace {
struct Kind { const char* name; int type; bool flag; int devq, devt; };
const Kind kKinds[] = {{"seq", gram::kSequenceHeader, false, 3, 6}, {"codec", gram::kCodecConfig, false, 3, 4}, {"element", gram::kAudioElement, false, 3, 4}, {"mix", gram::kMixPresentation, false, 2, 3}, {"mixopt", gram::kMixPresentation, true, 2, 3}};

void Grammar(Ctx& ctx) {
  for (auto& k : kKinds) {
    Chooser c(ctx.thorough ? k.devt : k.devq);
    do {
      gram::G g(c); size_t end = 0;
      switch (k.type) {
        case gram::kSequenceHeader: gram::IaSequenceHeader(g); break;
        case gram::kCodecConfig: gram::CodecConfig(g); break;
        case gram::kAudioElement: gram::AudioElement(g); break;
        default: gram::MixPresentation(g, k.flag, &end); break;
      }
      auto fr = gram::Frame(c, k.type, g.in.b, g.out.b, false, k.flag);
      // The header flag decides whether the mix presentation has optional fields.
      if (k.type == gram::kMixPresentation && ((fr.in[0] >> 1 & 1) != (k.flag ? 1 : 0))) g.unk = true;
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
      if (!ctx.Mine(std::string(k.name) + ":" + c.Name())) continue;
      const bool many = c.dev <= 1;
      switch (k.type) {
        case gram::kSequenceHeader: CheckObu<IASequenceHeaderObu>(ctx, g, Plain<IASequenceHeaderObu>(), fr, false, 0, many); break;
        case gram::kCodecConfig: CheckObu<CodecConfigObu>(ctx, g, Plain<CodecConfigObu>(), fr, false, 0, many); break;
        case gram::kAudioElement: CheckObu<AudioElementObu>(ctx, g, Plain<AudioElementObu>(), fr, false, 0, many); break;
        default: CheckObu<MixPresentationObu>(ctx, g, Plain<MixPresentationObu>(), fr, false, end, many); break;
      }
    } while (c.Next() && !ctx.stop);
  }
}

// Every first byte x declared size x ULEB width x trimming x extension size.
void Headers(Ctx& ctx) {
  const std::vector<uint64_t> sizes = {0, 1, 2, 3, 5, 9, 127, 128, 300, 16383, 16384, 2097152 - 8, 2097152 - 5, 2097152 - 4, 2097152 - 3, 2097152 - 2, 2097152, 0x7fffffff, 0xfffffff0ull, 0xffffffffull, 0x100000000ull};
  const std::vector<uint64_t> exts = {0, 1, 2, 5, 126, 2097000, 0x7fffffff, 0xfffffff0ull, 0xfffffffaull, 0xfffffffbull, 0xfffffffdull, 0xffffffffull};
  for (int first = 0; first < 256; ++first) for (uint64_t size : sizes) for (int pad : {0, 1, 3}) {
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    if (!ctx.Mine("header:" + std::to_string(first) + "/" + std::to_string(size) + "/" + std::to_string(pad))) continue;
    const int type = first >> 3; const bool red = first & 4, fl = first & 2, ext = first & 1;
    const bool frame = type >= 5 && type <= 23, trims = frame && fl;
    for (uint64_t ts : trims ? std::vector<uint64_t>{0, 200, 0xffffffffull, 0x100000000ull} : std::vector<uint64_t>{0})
    for (uint64_t es : ext ? exts : std::vector<uint64_t>{0}) {
      gram::Bits b; b.put(8, first); b.leb(size, pad); const size_t lebsize = b.b.size() - 1;
      size_t mark = b.b.size(); if (trims) { b.leb(7); b.leb(ts); } if (ext) b.leb(es); const size_t opt = b.b.size() - mark;
      const size_t head = b.b.size();
      while (b.b.size() < head + 400) b.b.push_back(0x55);
      bool want = lebsize <= 8 && size <= 0xffffffffull && 1 + lebsize + size <= 2097152;
      want &= ts <= 0xffffffffull;
      const int64_t payload = (int64_t)size - (int64_t)opt - (int64_t)(ext ? es : 0); want &= payload >= 0;
      if (ext && es > b.b.size() - head) want = false;  // not in the buffer
      want &= !(red && (frame || type == 3 || type == 4)) && !(fl && !frame && type != 4 && type != 2);
      auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b.b));
      if (1 + lebsize + size <= 0xffffffffull) {  // the peek agrees with the header
        auto pk = ObuHeader::PeekObuTypeAndTotalObuSize(*rb);
        if (!pk.ok()) ctx.Fail("peek-refused", pk.status().ToString() + vh::Hex(b.b, 30));
        else if (pk->obu_type != type || (uint64_t)pk->total_obu_size != 1 + lebsize + size || rb->Tell() != 0) ctx.Fail("peek-wrong", vh::Hex(b.b, 30));
      }
      ObuHeader h; int64_t p = -7; auto s = h.ReadAndValidate(*rb, p); ctx.Transitions(1);
      ctx.Outcome(vh::Fnv((s.ok() ? "ok" : std::string(s.message().substr(0, 30))) + std::to_string(type)));
      if (s.ok() != want) { ctx.Fail(want ? "valid-header-rejected" : "invalid-header-accepted", s.ToString() + " ts=" + std::to_string(ts) + " es=" + std::to_string(es) + " " + vh::Hex(b.b, 30)); continue; }
      ctx.Validated();
      if (!want) continue;
      if (p != payload || (int)h.obu_type != type || h.obu_redundant_copy != red || h.type_specific_flag != fl || h.num_samples_to_trim_at_end != (trims ? 7 : 0) || h.num_samples_to_trim_at_start != ts ||
          h.GetExtensionHeaderFlag() != ext || h.GetExtensionHeaderSize() != es || rb->Tell() != (int64_t)(head + es) * 8) ctx.Fail("header-values", vh::Hex(b.b, 30));
      if (h.GetIsKeyFrame() != (type == 4 && !fl)) ctx.Fail("key-frame-flag", vh::Hex(b.b, 30));
      WriteBitBuffer wb(8); auto ws = h.ValidateAndWrite(payload, wb);
      gram::Bits w; w.put(8, first); w.leb(size); w.b.insert(w.b.end(), b.b.begin() + 1 + lebsize, b.b.begin() + head + es);
      if (!ws.ok() || wb.bit_buffer() != w.b) ctx.Fail("header-rewrite", ws.ToString() + vh::Hex(wb.bit_buffer(), 40) + " want " + vh::Hex(w.b, 40));
    }
  }
}
void Body(Ctx& ctx) { Headers(ctx); Grammar(ctx); }
}  // namespace
int main(int argc, char** argv) {
  vh::Spec s; s.id = "C03";
  s.rule = "Part 1: every first header byte (256) x 21 declared sizes x 3 ULEB widths x 4 trims x 12 extension sizes. Part 2: the reference grammar of IA sequence header, codec config, audio element and mix presentation OBUs, every resolution of its choice points with at most d deviations from the default (quick: seq 3, codec 3, element 3, mix 2; thorough 6/4/4/3); each is parsed, compared field by field, rewritten and compared byte by byte; default and single-deviation OBUs also at every truncation and with trailing bytes.";
  s.assumptions = {"field values come from a finite alphabet per field (boundary values)"};
  s.min_cases = 20000; s.min_outcomes = 500;
  return vh::Run(argc, argv, s, Body);
}
