// C19: samples in and out of WAV files and number formats: exhaustive conversions,
// every shape of file, every sequence of writer operations, every fault of the file
// system, and the command-line decoder over every block size.
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <filesystem>
#include <fstream>
#include <limits>
#include <sstream>
#include "vh_main.h"
#include "wavhdr.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
#include "fault_io.h"
#include "iamf/cli/sample_processing_utils.h"
#include "iamf/cli/wav_reader.h"
#include "iamf/cli/wav_writer.h"
#include "iamf/common/utils/numeric_utils.h"
#define main DecoderMain
#include "iamf/cli/decoder_main.cc"
#undef main
using vh::Ctx; using gram::Bytes; namespace fs = std::filesystem; namespace it = iamf_tools;
namespace {
std::string N(double v) { std::ostringstream s; s.precision(20); s << v; return s.str(); }
void Le(Bytes& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back(v >> (8 * i)); }
std::string Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
std::string Str(const Bytes& b) { return std::string(b.begin(), b.end()); }
std::string Dir() { static std::string d = fs::canonical(vh::ScratchDir()).string(); return d; }
int Fds() { int n = 0; for (auto& e : fs::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
// --- number formats -----------------------------------------------------------------
// The int32 sample of a normalised value: scaled by 2^31, clipped, at most one step off.
bool SampleOk(double v, int32_t got) {
  const long double x = (long double)v * 2147483648.0L;
  if (x >= 2147483647.0L) return got == 2147483647; if (x <= -2147483648.0L) return got == std::numeric_limits<int32_t>::min();
  return x == std::floor(x) ? (long double)got == x : std::fabs((long double)got - x) < 1;
}
template <class T, class U> void FloatSpace(bool thorough, const std::function<void(T)>& f) {
  constexpr int mb = sizeof(T) == 4 ? 23 : 52, eb = sizeof(T) == 4 ? 8 : 11;
  std::vector<U> man = {0, 1, 2, 3, ((U)1 << mb) - 1, ((U)1 << mb) - 2}; for (int i = 0; i < mb; ++i) { man.push_back((U)1 << i); man.push_back(((U)1 << mb) - ((U)1 << i)); } for (U i = 0; i < (thorough ? 4096u : 256u); ++i) man.push_back(i << (mb - (thorough ? 12 : 8)));
  for (U s = 0; s < 2; ++s) for (U e = 0; e < ((U)1 << eb); ++e) for (U m : man) { U b = s << (mb + eb) | e << mb | m; T v; memcpy(&v, &b, sizeof v); f(v); }
}
void ToInt(Ctx& ctx, double v, absl::Status st, int32_t got) {
  ctx.Transitions(1);
  if (std::isnan(v) || std::isinf(v)) { if (st.ok()) ctx.Fail("nan", "accepted " + N(v)); return; }
  if (!st.ok()) return ctx.Fail("refused", N(v) + " is refused"); if (!SampleOk(v, got)) ctx.Fail("sample", N(v) + " becomes " + std::to_string(got));
}
void Int32s(Ctx& ctx, uint32_t from, uint64_t n, uint32_t step) {
  uint32_t u = from; for (uint64_t i = 0; i < n; ++i, u += step) {
    const int32_t v = (int32_t)u; const double d = it::Int32ToNormalizedFloatingPoint<double>(v); int32_t b = v ^ 1;
    if (d != v / 2147483648.0 || !it::NormalizedFloatingPointToInt32(d, b).ok() || b != v) { ctx.Fail("int32", std::to_string(v) + " becomes " + N(d) + " and back " + std::to_string(b)); break; }
    const float f = it::Int32ToNormalizedFloatingPoint<float>(v); if (std::fabs((double)f - d) > std::ldexp(1.0, -24) || f > 1 || f < -1) { ctx.Fail("int32-float", std::to_string(v) + " becomes " + N(f)); break; }
  }
  ctx.Transitions(n);
}
void Numbers(Ctx& ctx) {
  if (ctx.Mine("num:q78")) {
    std::set<float> seen; for (int i = -32768; i < 32768; ++i) {
      const float f = it::Q7_8ToFloat(i); int16_t r = i + 1; ctx.Transitions(2); if (f != i / 256.0f) ctx.Fail("q78", std::to_string(i) + " is " + N(f)); seen.insert(f);
      if (!it::FloatToQ7_8(f, r).ok() || r != i) ctx.Fail("q78", N(f) + " becomes " + std::to_string(r));
      // Between two steps: one of the two.
      for (float q : {0.25f, 0.5f, 0.75f}) { float g = (i + q) / 256.0f; auto st = it::FloatToQ7_8(g, r); if (i < 32767 ? !st.ok() || (r != i && r != i + 1) : st.ok()) ctx.Fail("q78", N(g) + " becomes " + std::to_string(r)); }
    }
    FloatSpace<float, uint32_t>(ctx.thorough, [&](float v) { int16_t r = 0; const bool ok = it::FloatToQ7_8(v, r).ok(), in = v >= -128 && v <= 128 - 1 / 256.0f; if (ok != in) ctx.Fail("q78-range", N(v)); else if (ok && std::fabs(r / 256.0 - v) >= 1 / 256.0) ctx.Fail("q78", N(v) + " becomes " + std::to_string(r)); ctx.Transitions(1); });
    ctx.Outcome(1); ctx.State(seen.size());
  }
  if (ctx.Mine("num:q08")) {
    for (int i = 0; i < 256; ++i) { const float f = it::Q0_8ToFloat(i); uint8_t r = i + 1; if (f != i / 256.0f || !it::FloatToQ0_8(f, r).ok() || r != i) ctx.Fail("q08", std::to_string(i) + " is " + N(f) + " and back " + std::to_string(r)); for (float q : {0.25f, 0.5f, 0.75f}) { float g = (i + q) / 256.0f; auto st = it::FloatToQ0_8(g, r); if (!st.ok() || (r != i && r != (i < 255 ? i + 1 : i))) ctx.Fail("q08", N(g)); } ctx.Transitions(5); }
    FloatSpace<float, uint32_t>(ctx.thorough, [&](float v) { uint8_t r = 0; const bool ok = it::FloatToQ0_8(v, r).ok(), in = v >= 0 && v < 1; if (ok != in) ctx.Fail("q08-range", N(v)); else if (ok && std::fabs(r / 256.0 - v) >= 1 / 256.0) ctx.Fail("q08", N(v)); ctx.Transitions(1); });
    ctx.Outcome(2);
  }
  for (int b = 0; b < 5; ++b) if (ctx.Mine("num:bytes:" + std::to_string(b))) {
    // Every value of 1 and 2 bytes; 3 and 4 bytes with every pair of bytes free.
    auto check = [&](std::vector<uint8_t> v) {
      int32_t l = 77, g = 77; auto a = it::LittleEndianBytesToInt32(v, l); std::vector<uint8_t> w(v.rbegin(), v.rend()); auto c = it::BigEndianBytesToInt32(w, g); ctx.Transitions(2);
      uint32_t want = 0; for (size_t i = 0; i < v.size(); ++i) want |= (uint32_t)v[i] << (32 - 8 * v.size() + 8 * i);
      if (!a.ok() || !c.ok() || l != (int32_t)want || g != (int32_t)want) return ctx.Fail("bytes", vh::Hex(v) + " becomes " + std::to_string(l) + " / " + std::to_string(g));
      uint8_t o[8] = {1, 2, 3, 4, 5, 6, 7, 8}, p[8] = {1, 2, 3, 4, 5, 6, 7, 8}; size_t at = 1, at2 = 2; const int n = v.size();
      if (!it::WritePcmSample(want, 8 * n, false, o, at).ok() || at != 1u + n || memcmp(o + 1, v.data(), n) || o[1 + n] != 2 + n) return ctx.Fail("pcm", "little endian " + std::to_string(want));
      if (!it::WritePcmSample(want, 8 * n, true, p, at2).ok() || at2 != 2u + n || memcmp(p + 2, w.data(), n) || p[2 + n] != 3 + n) return ctx.Fail("pcm", "big endian " + std::to_string(want));
    };
    if (b == 0) { int32_t o = 5; if (it::LittleEndianBytesToInt32({}, o).ok() || it::BigEndianBytesToInt32({}, o).ok() || o != 5) ctx.Fail("bytes", "no bytes accepted"); std::vector<uint8_t> five(5); if (it::LittleEndianBytesToInt32(five, o).ok() || it::BigEndianBytesToInt32(five, o).ok()) ctx.Fail("bytes", "five bytes accepted"); uint8_t x[8]; size_t at = 0; for (int s = 0; s < 256; ++s) if ((s % 8 || s > 32) && (it::WritePcmSample(1, s, false, x, at).ok() || at)) ctx.Fail("pcm", "sample size " + std::to_string(s)); }
    if (b == 1) for (int i = 0; i < 256; ++i) check({(uint8_t)i});
    if (b == 2) for (int i = 0; i < 65536; ++i) check({(uint8_t)i, (uint8_t)(i >> 8)});
    if (b >= 3) for (int x = 0; x < b; ++x) for (int y = x + 1; y < b; ++y) for (int rest : {0x00, 0xff, 0x5a}) for (int i = 0; i < 65536; i += ctx.thorough ? 1 : 5) { std::vector<uint8_t> v(b, rest); v[x] = i; v[y] = i >> 8; check(v); }
    ctx.Outcome(3 + b);
  }
  if (ctx.Mine("num:float")) { FloatSpace<float, uint32_t>(ctx.thorough, [&](float v) { int32_t r = 7; auto s = it::NormalizedFloatingPointToInt32(v, r); ToInt(ctx, v, s, r); }); ctx.Outcome(10); }
  if (ctx.Mine("num:double")) { FloatSpace<double, uint64_t>(false, [&](double v) { int32_t r = 7; auto s = it::NormalizedFloatingPointToInt32(v, r); ToInt(ctx, v, s, r); }); ctx.Outcome(11); }
  if (ctx.Mine("num:clip")) { FloatSpace<double, uint64_t>(false, [&](double v) { int32_t r = 7; const bool ok = it::ClipDoubleToInt32(v, r).ok(); ctx.Transitions(1); if (std::isnan(v)) { if (ok) ctx.Fail("clip", "NaN accepted"); return; } const double w = std::clamp(v, -2147483648.0, 2147483647.0); if (!ok || std::fabs(r - w) >= 1 || (w == std::floor(w) && r != w)) ctx.Fail("clip", N(v) + " becomes " + std::to_string(r)); }); ctx.Outcome(12); }
  if (ctx.Mine("num:add")) { std::vector<uint32_t> e; for (int i = 0; i < 32; ++i) for (int d = -2; d <= 2; ++d) { e.push_back((1u << i) + d); e.push_back(0u - (1u << i) + d); } for (auto x : e) for (auto y : e) { uint32_t r = 9; const bool ok = it::AddUint32CheckOverflow(x, y, r).ok(), fit = (uint64_t)x + y <= 0xffffffffu; ctx.Transitions(1); if (ok != fit || (ok && r != x + y)) ctx.Fail("add", std::to_string(x) + "+" + std::to_string(y)); } ctx.Outcome(13); }
  if (ctx.thorough) { for (uint32_t i = 0; i < 1024; ++i) { if (ctx.Mine("num:int32:" + std::to_string(i))) Int32s(ctx, i << 22, 1u << 22, 1); } }
  else { if (ctx.Mine("num:int32:high")) for (uint32_t lo : {0u, 1u, 2u, 0x7fffu, 0x8000u, 0xffffu}) Int32s(ctx, lo, 65536, 65536); if (ctx.Mine("num:int32:low")) for (uint32_t hi : {0u, 1u, 0x3fffu, 0x7fffu, 0x8000u, 0xbfffu, 0xffffu}) Int32s(ctx, hi << 16, 65536, 1); ctx.Outcome(14); }
}
// --- reading ------------------------------------------------------------------------
struct File { int bits = 16; bool flt = false; int nch = 1, ticks = 0, shape = 0; };
std::vector<uint32_t> Values(const File& f) {  // raw samples, extremes first
  if (f.flt) { std::vector<uint32_t> v; for (float x : {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -0.25f, 2.0f, -2.0f, 1e30f, -1e30f, 1e-30f, 0.99999994f, -0.99999994f, 1.0000001f, -1.0000001f, 4.6566129e-10f, -4.6566129e-10f, 3.1e-10f, INFINITY, -INFINITY, NAN, -NAN, 0.1f, -0.7f}) { uint32_t b; memcpy(&b, &x, 4); v.push_back(b); } v.push_back(0x7f800001); v.push_back(0xffbfffff); v.push_back(1); v.push_back(0x807fffff); return v; }
  const uint32_t m = f.bits == 32 ? 0xffffffffu : (1u << f.bits) - 1, h = 1u << (f.bits - 1); return {0, 1, m, h, h - 1, h + 1, 2, m - 1, 0x12345678u & m, 0xfedcba98u & m, 0x55aa & m, 255, 256, 0x8000 & m, 0x7f80 & m};
}
double Want(const File& f, uint32_t raw, bool& exact) {
  exact = true; if (!f.flt) return (double)(int32_t)(raw << (32 - f.bits));
  float x; memcpy(&x, &raw, 4); if (std::isnan(x)) return 0; const double y = (double)x * 2147483648.0; if (y >= 2147483647.0) return 2147483647.0; if (y <= -2147483648.0) return -2147483648.0; exact = y == std::floor(y); return y;
}
uint32_t Raw(const File& f, const std::vector<uint32_t>& v, int t, int c) { return v[(t * f.nch + c * 7 + f.shape) % v.size()]; }
Bytes Make(const File& f) {
  Bytes d, o; auto v = Values(f); const int bps = f.bits / 8; for (int t = 0; t < f.ticks; ++t) for (int c = 0; c < f.nch; ++c) Le(d, Raw(f, v, t, c), bps);
  auto tag = [&](const char* x) { o.insert(o.end(), x, x + 4); };
  tag("RIFF"); Le(o, 36 + d.size(), 4); tag("WAVE"); if (f.shape & 1) { tag("junk"); Le(o, 3, 4); Le(o, 0x11223344, 4); }
  const int ext = f.shape & 2; tag("fmt "); Le(o, ext ? 40 : 16, 4); Le(o, ext ? 0xfffe : f.flt ? 3 : 1, 2); Le(o, f.nch, 2); Le(o, 44100, 4); Le(o, 44100 * f.nch * bps, 4); Le(o, f.nch * bps, 2); Le(o, f.bits, 2);
  if (ext) { Le(o, 22, 2); Le(o, f.bits, 2); Le(o, 0, 4); Le(o, f.flt ? 3 : 1, 2); for (int i = 0; i < 14; ++i) o.push_back(i); }
  tag("data"); Le(o, d.size(), 4); o.insert(o.end(), d.begin(), d.end()); return o;
}
void Read(Ctx& ctx, const File& f, int n, int cut, int move_at) {
  const std::string p = Dir() + "/r.wav"; Bytes b = Make(f); const size_t bps = f.bits / 8, head = b.size() - f.ticks * f.nch * bps; if ((size_t)cut > b.size() || ((f.shape & 4) && cut)) return; b.resize(b.size() - cut); if (f.shape & 4) for (int i = 0; i < 5; ++i) b.push_back(0x77);
  { std::ofstream o(p, std::ios::binary); o.write((char*)b.data(), b.size()); }
  const int fds = Fds();
  { auto r0 = it::WavReader::CreateFromFile(p, n);
    if (b.size() < head) { if (r0.ok()) ctx.Fail("header", "a cut header is accepted"); ctx.Count("cut-header"); }
    else {
      if (!r0.ok()) return ctx.Fail("header", std::string(r0.status().message()));
      std::optional<it::WavReader> r(std::move(*r0)), r2;
      if (r->num_channels() != f.nch || r->sample_rate_hz() != 44100 || r->bit_depth() != f.bits || r->remaining_samples() != f.nch * f.ticks) return ctx.Fail("info", "channels " + std::to_string(r->num_channels()) + " bits " + std::to_string(r->bit_depth()) + " remaining " + std::to_string(r->remaining_samples()));
      auto v = Values(f); const int have = (int)((b.size() - head - ((f.shape & 4) ? 5 : 0)) / bps / f.nch);
      int t = 0; for (int k = 0; k < f.ticks + 3; ++k) {
        if (k == move_at) { r2.emplace(std::move(*r)); r.reset(); }
        auto& q = r2 ? *r2 : *r; const int want = std::min(n, have - t); const size_t got = q.ReadFrame(); ctx.Transitions(1); ctx.Validated();
        if ((int)got != want * f.nch) return ctx.Fail("count", "frame " + std::to_string(k) + ": " + std::to_string(got) + " samples, want " + std::to_string(want * f.nch));
        for (int c = 0; c < f.nch; ++c) for (int i = 0; i < want; ++i) { bool ex; const double w = Want(f, Raw(f, v, t + i, c), ex); const double g = q.buffers_[c][i]; if (ex ? g != w : std::fabs(g - w) >= 1) return ctx.Fail("sample", "tick " + std::to_string(t + i) + " channel " + std::to_string(c) + ": " + N(g) + " want " + N(w)); }
        t += want; const int left = q.remaining_samples(); if (!cut && left != (f.ticks - t) * f.nch) return ctx.Fail("remaining", std::to_string(left)); if (want == 0 && left) return ctx.Fail("remaining", "at the end: " + std::to_string(left));
        ctx.Outcome(got * 64 + left);
      }
    } }
  if (Fds() != fds) ctx.Fail("leak", "file descriptors: " + std::to_string(Fds()) + ", were " + std::to_string(fds));
}
void Reading(Ctx& ctx) {
  static const std::vector<int> chs = {1, 2, 3, 6}, ns = {1, 2, 3, 5, 8};
  for (int fmt = 0; fmt < 4; ++fmt) for (int nch : chs) for (int shape = 0; shape < 8; ++shape) for (int n : ns) {
    if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
    File f; f.flt = fmt == 3; f.bits = fmt == 3 ? 32 : 16 + 8 * fmt; f.nch = nch; f.shape = shape;
    if (!ctx.Mine("read:" + std::to_string(fmt) + "," + std::to_string(nch) + "," + std::to_string(shape) + "," + std::to_string(n))) continue;
    for (int ticks : {0, 1, 2, 3, 4, 5, 7, 8, 9, 30}) { f.ticks = ticks; Read(ctx, f, n, 0, -1); Read(ctx, f, n, 0, 1); const int bytes = ticks * nch * f.bits / 8; if (ticks <= (ctx.thorough ? 9 : 3)) for (int cut = 1; cut <= bytes + 48; ++cut) Read(ctx, f, n, cut, -1); if (ctx.failed_in_case) break; }
  }
  if (ctx.Mine("read:none")) { auto a = it::WavReader::CreateFromFile(Dir() + "/nothing.wav", 4); if (a.ok()) ctx.Fail("open", "no file"); { std::ofstream(Dir() + "/r.wav") << Str(Make({})); } auto b = it::WavReader::CreateFromFile(Dir() + "/r.wav", 0); if (b.ok()) ctx.Fail("open", "frames of no samples"); }
}
// --- writing ------------------------------------------------------------------------
struct WCfg { int nch, bits, n; bool header; };
using wavhdr::Header;
// The sample at a position of the whole file, as an int32 with zero low bits.
int32_t At(size_t t, int c, int bits) { static const uint32_t v[] = {0x80000000u, 0x7fffffffu, 0, 0xffffffffu, 0x00010000u, 0x12345678u, 0xfedcba98u, 0x7f800000u, 0x00008000u, 0xc0000000u}; uint32_t x = v[(t * 3 + c) % 10] + (uint32_t)(t * 0x01010000u) * (t > 9); return (int32_t)(bits == 32 ? x : x & ~((1u << (32 - bits)) - 1)); }
enum Op { kP0, kP1, kPn, kPbig, kPch, kPragged, kPnan, kPinf, kPclip, kB0, kB1, kBn, kBodd, kBbig, kFlush, kAbort, kNumOps };
const char* kOp[] = {"push0", "push1", "pushN", "pushN+1", "push-channels", "push-ragged", "push-nan", "push-inf", "push-clip", "bytes0", "bytes1", "bytesN", "bytes-odd", "bytesN+1", "flush", "abort"};
void WriteSeq(Ctx& ctx, const WCfg& c, const std::vector<int>& ops) {
  const std::string p = Dir() + "/w.wav"; fs::remove(p); const int fds = Fds(); std::string data; size_t ticks = 0; bool flushed = false, aborted = false;
  auto fail = [&](size_t i, const std::string& k, const std::string& m) { std::string s; for (size_t j = 0; j <= i && j < ops.size(); ++j) s += std::string(" ") + kOp[ops[j]]; ctx.Fail(k, "after" + s + ": " + m); };
  {
    auto w = it::WavWriter::Create(p, c.nch, 48000, c.bits, c.n, c.header); if (!w) return ctx.Fail("create", "refused"); if (w->bit_depth() != c.bits) ctx.Fail("create", "bit depth");
    for (size_t i = 0; i < ops.size(); ++i) {
      const int op = ops[i]; absl::Status st; bool want = true; size_t n = 0; std::string add; ctx.Transitions(1);
      auto raw = [&](size_t k) { Bytes b; for (size_t t = 0; t < k; ++t) for (int ch = 0; ch < c.nch; ++ch) Le(b, (uint32_t)At(ticks + t, ch, c.bits) >> (32 - c.bits), c.bits / 8); return b; };
      if (op <= kPclip) {
        n = op == kP0 ? 0 : op == kPn ? c.n : op == kPbig ? c.n + 1 : op == kP1 ? 1 : c.n; std::vector<std::vector<double>> v(c.nch + (op == kPch)); for (size_t ch = 0; ch < v.size(); ++ch) for (size_t t = 0; t < n; ++t) v[ch].push_back(At(ticks + t, ch, c.bits) / 2147483648.0);
        want = op == kP0 || op == kP1 || op == kPn || op == kPclip; add = Str(raw(n));
        if (op == kPragged) { if (c.nch == 1) { v.clear(); } else v.back().pop_back(); }
        if (op == kPnan) v.back().back() = NAN; if (op == kPinf) v[0][0] = -INFINITY;
        if (op == kPclip) { for (auto& ch : v) for (size_t t = 0; t < n; ++t) ch[t] = t % 2 ? -1.5 : 1.0 + 1e-9 * t; Bytes b; for (size_t t = 0; t < n; ++t) for (int ch = 0; ch < c.nch; ++ch) Le(b, (t % 2 ? 0x80000000u : 0x7fffffffu) >> (32 - c.bits), c.bits / 8); add = Str(b); }
        std::vector<absl::Span<const double>> sp(v.begin(), v.end()); st = w->PushFrame(absl::MakeConstSpan(sp)); if (flushed || aborted) want = false;
      } else if (op <= kBbig) {
        n = op == kB0 ? 0 : op == kB1 ? 1 : op == kBbig ? c.n + 1 : c.n; auto b = raw(n); add = Str(b); if (op == kBodd) { b.pop_back(); want = false; } if (op == kBbig) want = false; if (flushed || aborted) want = false;
        st = w->WritePcmSamples(b);
      } else if (op == kFlush) { st = w->Flush(); want = !flushed; flushed = true; }
      else { w->Abort(); aborted = true; }
      if (op == kFlush && aborted) {}  // either is fine
      else if (st.ok() != want) return fail(i, want ? "refused" : "accepted", std::string(st.message()));
      if (op < kFlush && want && st.ok()) { data += add; ticks += n; }
      if (aborted && fs::exists(p)) return fail(i, "abort", "the file is still there");
      if (flushed && !aborted && Slurp(p) != (c.header ? Header(c.nch, 48000, c.bits, ticks) : "") + data) return fail(i, "flushed-file", std::to_string(Slurp(p).size()) + " bytes");
      ctx.Outcome(op * 2 + st.ok()); ctx.Validated();
    }
  }
  const bool exists = fs::exists(p); if (exists == aborted) return fail(99, "abort", exists ? "the file is there" : "no file");
  if (exists) {
    const std::string got = Slurp(p), want = (c.header ? Header(c.nch, 48000, c.bits, ticks) : "") + data; ctx.State(vh::Fnv(got));
    if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d; return fail(99, "file", std::to_string(got.size()) + " bytes, want " + std::to_string(want.size()) + ", differs at " + std::to_string(d)); }
    // Reading it back gives the samples written.
    if (c.header) { auto r = it::WavReader::CreateFromFile(p, c.n); if (!r.ok()) return fail(99, "read-back", std::string(r.status().message())); size_t at = wavhdr::Size(c.bits), t = 0; while (size_t k = r->ReadFrame()) { for (size_t i = 0; i < k / c.nch; ++i, ++t) for (int ch = 0; ch < c.nch; ++ch) { uint32_t x = 0; for (int j = 0; j < c.bits / 8; ++j) x |= (uint32_t)(uint8_t)want[at++] << (32 - c.bits + 8 * j); if (r->buffers_[ch][i] != (int32_t)x) return fail(99, "read-back", "tick " + std::to_string(t)); } } if (t != ticks) fail(99, "read-back", std::to_string(t) + " ticks of " + std::to_string(ticks)); }
  }
  if (Fds() != fds) fail(99, "leak", "file descriptors");
}
void Writing(Ctx& ctx) {
  for (int nch : {1, 2, 3}) for (int bits : {16, 24, 32}) for (int n : {1, 3}) for (bool h : {true, false}) {
    const WCfg c{nch, bits, n, h}; const bool deep = nch == 2 && n == 3 && h; const int depth = ctx.thorough ? deep ? 5 : 4 : deep && bits == 24 ? 4 : deep || nch == 1 ? 3 : 2;
    std::vector<int> s; std::function<void()> rec = [&] {
      // One case per prefix of depth-2, so that it stays cheap to enumerate.
      if ((int)s.size() >= std::max(1, depth - 2)) {
        if (!ctx.NextIsMine()) { ctx.Skip(); return; }
        std::string name = "write:" + std::to_string(nch) + "," + std::to_string(bits) + "," + std::to_string(n) + (h ? "h" : "") + ":"; for (int o : s) name += std::string(kOp[o]) + ",";
        if (!ctx.Mine(name)) return;
        std::function<void()> all = [&] { WriteSeq(ctx, c, s); if ((int)s.size() < depth && !ctx.failed_in_case) for (int o = 0; o < kNumOps; ++o) { s.push_back(o); all(); s.pop_back(); } }; all(); return;
      }
      for (int o = 0; o < kNumOps; ++o) { s.push_back(o); rec(); s.pop_back(); }
    }; rec();
  }
  if (ctx.Mine("write:refused")) { const std::string p = Dir() + "/x.wav"; const int fds = Fds(); for (int bits : {0, 1, 8, 12, 15, 17, 20, 31, 33, 40, 48, 64, 96}) { auto w = it::WavWriter::Create(p, 2, 48000, bits, 4, true); if (w || fs::exists(p)) ctx.Fail("create", std::to_string(bits) + " bits"); } if (it::WavWriter::Create(Dir() + "/no/such/x.wav", 2, 48000, 16, 4)) ctx.Fail("create", "no folder"); if (Fds() != fds) ctx.Fail("leak", "descriptors"); }
}
// --- faults --------------------------------------------------------------------------
void Fault(Ctx& ctx, int size, bool by_bytes, bool header, const char* how, const std::function<void()>& arm, const std::function<bool()>& disarm) {
  const std::string p = Dir() + "/f.wav"; fs::remove(p); const int nch = 2, bits = 16, n = 700; std::string data; size_t ticks = 0; bool ok = true, created = false; const int fds = Fds(); std::string where;
  arm();
  { auto w = it::WavWriter::Create(p, nch, 48000, bits, n, header); created = w != nullptr;
    if (w) {
      while ((int)ticks < size) { const size_t k = std::min<size_t>(n, size - ticks); Bytes b; for (size_t t = 0; t < k; ++t) for (int c = 0; c < nch; ++c) Le(b, (uint32_t)At(ticks + t, c, bits) >> 16, 2); absl::Status st; if (by_bytes) st = w->WritePcmSamples(b); else { std::vector<std::vector<double>> v(nch); for (int c = 0; c < nch; ++c) for (size_t t = 0; t < k; ++t) v[c].push_back(At(ticks + t, c, bits) / 2147483648.0); std::vector<absl::Span<const double>> sp(v.begin(), v.end()); st = w->PushFrame(absl::MakeConstSpan(sp)); } data += Str(b); ticks += k; if (!st.ok()) { ok = false; where = "push"; break; } }
      auto st = w->Flush(); if (!st.ok()) { ok = false; where += "flush"; }
      ctx.Transitions(ticks / n + 3);
    } }
  const bool hit = disarm(); ctx.Validated(); ctx.Count(hit ? ok && created ? "fault-absorbed" : "fault-reported" : "fault-not-reached");
  if (Fds() != fds) ctx.Fail("leak", std::string(how) + ": " + std::to_string(Fds() - fds) + " open files left");
  if (created && ok) { auto got = Slurp(p); if (got != (header ? Header(nch, 48000, bits, ticks) : "") + data) ctx.Fail("silent-loss", std::string(how) + ": everything succeeded, the file has " + std::to_string(got.size()) + " of " + std::to_string(data.size() + 44 * header) + " bytes or a wrong header"); }
  ctx.Outcome(vh::Fnv(where + (created ? "c" : "n")));
}
void Faults(Ctx& ctx) {
  signal(SIGXFSZ, SIG_IGN); const char* fn[] = {"", "ENOSPC", "EIO", "short", "EINTR"}; const std::string p = Dir() + "/f.wav";
  for (int size : {0, 10, 1000, 1014, 3000}) for (int by = 0; by < 2; ++by) for (int h = 0; h < 2; ++h) {
    for (int f = fio::kNoSpace; f <= fio::kIntr; ++f) for (int k = 0; k < 16; ++k) { std::string name = "fault:" + std::to_string(size) + (by ? "b" : "p") + (h ? "h" : "") + ":" + fn[f] + ":" + std::to_string(k); if (ctx.Mine(name)) Fault(ctx, size, by, h, name.c_str(), [&] { fio::Arm(p, k, (fio::Fault)f); }, [&] { bool x = fio::S().hit; fio::Disarm(); return x; }); }
    const long total = size * 4 + 44 * h;
    for (long k = 0; k < total + 2; k += total < 200 || ctx.thorough ? 1 : k < 64 || k + 64 > total || k % 4096 < 3 || k % 4096 > 4092 ? 1 : std::max(1L, std::min({k % 4096 < 4090 ? 4093 - k % 4096 : 1, total - 64 - k, 331L}))) { std::string name = "full:" + std::to_string(size) + (by ? "b" : "p") + (h ? "h" : "") + ":" + std::to_string(k); if (ctx.Mine(name)) { struct rlimit o; getrlimit(RLIMIT_FSIZE, &o); Fault(ctx, size, by, h, name.c_str(), [&] { struct rlimit l{(rlim_t)k, o.rlim_max}; setrlimit(RLIMIT_FSIZE, &l); }, [&] { setrlimit(RLIMIT_FSIZE, &o); return k < total; }); } }
  }
}
// --- the command-line decoder ----------------------------------------------------------
struct Cli { int code = -1; std::string file; bool exists = false; };
Cli Decode(const std::vector<std::string>& args, const std::string& out, const std::function<void()>& before) {
  Cli r; fflush(nullptr); const pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGALRM}) signal(s, SIG_DFL); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); alarm(50);
    std::vector<std::string> a = args; std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr); if (before) before();
    const int rc = DecoderMain((int)a.size(), v.data()); fio::Disarm(); _exit(rc);
  }
  int st = 0; waitpid(pid, &st, 0); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.exists = fs::exists(out); if (r.exists) r.file = Slurp(out); return r;
}
struct Strm { std::string name; enc::Cfg c; Bytes bytes; bool bad = false; };
const std::vector<Strm>& Streams() {
  static std::vector<Strm> v; if (!v.empty()) return v;
  auto base = [](uint32_t n, std::vector<st::Kind> ks, uint64_t samples) { enc::Cfg c; c.s.primary = 1; c.s.n = n; uint32_t sid = 0; std::vector<uint32_t> all; for (auto k : ks) { c.s.elems.push_back({(uint32_t)(300 + c.s.elems.size()), k, sid, {}}); sid += st::Info(k).sub.size(); all.push_back(c.s.elems.back().id); } c.s.mixes = {st::Simple(42, all), st::Simple(7, {300})}; c.s.mixes[1].out = {920, -256}; c.samples = samples; return c; };
  { auto c = base(8, {st::kStereo}, 24); v.push_back({"stereo", c}); }
  { auto c = base(8, {st::kMono, st::kStereo}, 20); c.s.bits = 24; c.trim_start = 3; c.trim_end = 4; v.push_back({"trim", c}); }
  { auto c = base(1024, {st::k51}, 4096); v.push_back({"large", c}); }
  { auto c = base(8, {st::kStereo}, 0); v.push_back({"empty", c}); }
  for (auto& x : v) { enc::Plan(x.c); auto o = enc::Encode(x.c); if (o.ok) { x.bytes = o.desc; for (auto& u : o.units) x.bytes.insert(x.bytes.end(), u.begin(), u.end()); } }
  { Strm b = v[0]; b.name = "cut"; b.bytes.resize(b.bytes.size() - 3); v.push_back(b); }
  { Strm b = v[0]; b.name = "broken"; b.bytes[0] = 0; b.bad = true; v.push_back(b); }
  return v;
}
const std::vector<std::pair<int, std::string>> kLayouts = {{0, "2.0"}, {1, "5.1"}, {2, "5.1.2"}, {3, "5.1.4"}, {4, "5+4+1"}, {5, "3+7+0"}, {6, "9.1.4"}, {7, "22.0"}, {8, "7.1"}, {9, "7.1.4"}, {10, "7.1.2"}, {11, "3.1.2"}, {12, "1.0"}, {13, "9.1.6"}, {100, "Binaural"}};
void Commands(Ctx& ctx) {
  static const std::vector<std::string> names = {"stereo", "trim", "large", "empty", "cut", "broken"};
  auto judge = [&](const Strm& s, int layout, int type, int mix, const Cli& r, const std::string& what) {
    ctx.Transitions(1); ctx.Validated(); ctx.Outcome(r.code * 4 + r.exists); ctx.State(vh::Fnv(r.file));
    if (s.bad) { if (r.code == 0) ctx.Fail("cli", what + ": success on a stream that cannot be decoded"); return; }
    if (r.code == 0 && !r.exists && s.name == "empty") return;  // descriptors are only known complete once something follows
    if (r.code != 0 || !r.exists) return ctx.Fail("cli", what + ": exit code " + std::to_string(r.code));
    const auto& m = s.c.s.mixes[mix == 7]; const int bits = type == 1 ? 16 : type == 2 || r.file.size() < 44 ? 32 : (uint8_t)r.file[34];  // without a request either is fine
    if (bits != 16 && bits != 32) return ctx.Fail("cli-header", what + ": " + std::to_string(bits) + " bits"); st::Pcm want; const uint64_t nf = s.c.frames - (s.name == "cut"); for (size_t u = 0; u < nf; ++u) { auto q = st::Render(s.c.s, m, layout, u); want.insert(want.end(), q.begin(), q.end()); }
    const int nch = st::OutCh(layout); auto h = Header(nch, 48000, bits, want.size()); if (r.file.substr(0, h.size()) != h) return ctx.Fail("cli-header", what + ": " + vh::Hex(r.file.data(), std::min(h.size(), r.file.size())) + " want " + vh::Hex(h.data(), h.size()));
    auto e = dec::Compare(want, Bytes(r.file.begin() + h.size(), r.file.end()), layout, bits == 16, false, 4096); if (!e.empty()) ctx.Fail("cli-samples", what + ": " + e);
  };
  auto file = [&](const Strm& s) { const std::string p = Dir() + "/in.iamf"; std::ofstream o(p, std::ios::binary); o.write((char*)s.bytes.data(), s.bytes.size()); return p; };
  const std::string out = Dir() + "/out.wav";
  auto run = [&](const Strm& s, int block, int layout, int type, int mix, const std::function<void()>& before = {}) {
    fs::remove(out); std::vector<std::string> a = {"decoder", "--input_filename=" + file(s), "--output_filename=" + out}; if (block) a.push_back("--block_size=" + std::to_string(block)); if (layout >= 0) a.push_back("--output_layout=" + std::find_if(kLayouts.begin(), kLayouts.end(), [&](auto& x) { return x.first == layout; })->second); if (type) a.push_back(std::string("--output_sample_type=") + (type == 1 ? "sle16" : "sle32")); if (mix) a.push_back("--mix_id=" + std::to_string(mix));
    return Decode(a, out, before);
  };
  for (auto& name : names) {
    auto get = [&]() -> const Strm& { return *std::find_if(Streams().begin(), Streams().end(), [&](auto& x) { return x.name == name; }); };
    const int most = name == "large" ? 16 : ctx.thorough ? 400 : 70;
    for (int b = 0; b <= most; ++b) if (ctx.Mine("cli:" + name + ":block" + std::to_string(b))) { auto& s = get(); if (s.bytes.empty()) { ctx.Fail("cli", "no stream"); continue; } const int len = s.bytes.size(); const int block = name == "large" ? std::vector<int>{0, 1, 7, 64, 100, 1000, 4096, len - 1, len, len + 1, len / 2, len / 3, 12292, 100000, 2, 3, 333}[b] : b <= 60 ? b : b <= 64 ? len + b - 62 : len / (b - 62); if (b && block <= 0) continue; judge(s, 0, 0, 42, run(s, block, -1, 0, 0), "block size " + std::to_string(block)); }
    for (auto& [l, ln] : kLayouts) for (int type = 0; type < 3; ++type) for (int mix : {0, 42, 7, 9999}) { if (name == "large" && (type || mix)) continue; if (!ctx.Mine("cli:" + name + ":" + ln + "," + std::to_string(type) + "," + std::to_string(mix))) continue; auto& s = get(); judge(s, l, type, mix == 7 ? 7 : 42, run(s, 64, l, type, mix), "layout " + ln + " type " + std::to_string(type) + " mix " + std::to_string(mix)); }
    // A full disk: never a success with an incomplete file.
    const int lim = name == "large" ? 60 : 140; for (int k = 0; k < lim; ++k) if (ctx.Mine("cli:" + name + ":full" + std::to_string(k))) { auto& s = get(); if (s.bad) continue; auto clean = run(s, 64, -1, 0, 0); const long limit = name == "large" ? (long)clean.file.size() * k / (lim - 1) : k; auto r = run(s, 64, -1, 0, 0, [&] { signal(SIGXFSZ, SIG_IGN); struct rlimit l{(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &l); }); ctx.Validated(); ctx.Outcome(5000 + r.code); if (r.code == 0 && r.file != clean.file) ctx.Fail("cli-silent-loss", "with room for " + std::to_string(limit) + " bytes: exit code 0, " + std::to_string(r.file.size()) + " of " + std::to_string(clean.file.size()) + " bytes"); }
  }
}
void Body(Ctx& ctx) { Numbers(ctx); Reading(ctx); Writing(ctx); Faults(ctx); Commands(ctx); }
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C19"; sp.min_cases = 1500; sp.min_outcomes = 30; sp.case_timeout_s = 120;
  sp.rule = "number formats: every Q7.8 and Q0.8 value, every 1- and 2-byte sample, every sign x exponent x structured mantissa of float and double, int32 samples (thorough: all 2^32); reading: formats x channels x header shapes x frame sizes x lengths x truncation points, with every extreme sample; writing: all operation sequences over 16 operations (16/24/32 bit, 1-3 channels, with and without header) up to depth 2-4 (thorough 4-5); every write/seek fault and every file-size limit; the command-line decoder over block sizes, layouts, sample types, mix ids, full disks";
  sp.assumptions = {"audio_to_tactile's WAV header and sample parsing replaced by a stand-in with the same contract"};
  return vh::Run(argc, argv, sp, Body);
}
