// Drives the public decoder API over a byte stream in a given chunking.
#pragma once
#include "stream.h"
#include "iamf/api/decoder/iamf_decoder.h"
#include "iamf/include/iamf_tools/iamf_tools_api_types.h"

namespace dec {
using gram::Bytes;
namespace api = iamf_tools::api;
struct Result {
  bool ok = true; std::string err; bool desc_done = false, mix_ok = false;
  std::vector<Bytes> tus; uint32_t mix = 0, rate = 0, frame = 0; int layout = -1, ch = 0;
  bool operator==(const Result& o) const { return ok == o.ok && desc_done == o.desc_done && tus == o.tus && mix == o.mix && layout == o.layout && rate == o.rate && frame == o.frame && ch == o.ch; }
  uint64_t Hash() const { uint64_t h = vh::Fnv(ok ? "ok" : "err"); for (auto& t : tus) { h = vh::Fnv(t.data(), t.size(), h); h = vh::Fnv("|", 1, h); } return h ^ (mix * 1000003ull + layout * 7919 + ch); }
  std::string Str() const { std::string s = (ok ? "ok" : "err:" + err) + " mix=" + std::to_string(mix) + " layout=" + std::to_string(layout) + " ch=" + std::to_string(ch) + " tus=["; for (auto& t : tus) s += std::to_string(t.size()) + ","; return s + "]"; }
};
// What to do between Decode() calls.
inline size_t g_buffer = 1 << 16;
enum Drain { kDrainEach, kOneEach, kDrainAtEnd, kUntilZero, kSmallFirst, kNumDrain };
inline int Layout(api::OutputLayout l) { return l == api::OutputLayout::kIAMF_Binaural ? 100 : (int)l; }
inline api::OutputLayout ApiLayout(int l) { return l == 100 ? api::OutputLayout::kIAMF_Binaural : (api::OutputLayout)l; }
struct Session {
  std::unique_ptr<api::IamfDecoder> d; Result r; Bytes buf; size_t need_small = 0;
  bool Bad(const api::IamfStatus& s, const char* what) { if (s.ok()) return false; if (r.ok) { r.ok = false; r.err = std::string(what) + ": " + s.error_message; } return true; }
  void Info() {
    if (!d->IsDescriptorProcessingComplete() || r.desc_done) return;
    r.desc_done = true; api::SelectedMix m; r.mix_ok = d->GetOutputMix(m).ok();
    if (r.mix_ok) { r.mix = m.mix_presentation_id; r.layout = Layout(m.output_layout); }
    d->GetNumberOfOutputChannels(r.ch); d->GetSampleRate(r.rate); d->GetFrameSize(r.frame);
  }
  // One GetOutputTemporalUnit call; returns false on error.
  bool Get(bool small_first = false) {
    Info();
    if (small_first && d->IsTemporalUnitAvailable()) {
      // A buffer that cannot hold the unit: refused, and nothing is lost.
      size_t w = 123; uint8_t one[1];
      auto s = d->GetOutputTemporalUnit(one, 0, w);
      if (s.ok() && w == 0) { r.tus.emplace_back(); if (small_zero_ok) return true; }
      if (s.ok() && w != 0) { r.ok = false; r.err = "wrote past the buffer"; return false; }
      if (s.ok()) return true;
      if (w != 0) { r.ok = false; r.err = "failed but wrote"; return false; }
    }
    size_t w = 77; const bool avail = d->IsTemporalUnitAvailable();
    auto s = d->GetOutputTemporalUnit(buf.data(), buf.size(), w);
    if (avail && (s.ok() || w)) r.tus.emplace_back(buf.begin(), buf.begin() + w);
    else if (!avail && w) { r.ok = false; r.err = "bytes although no unit was available"; return false; }
    return !Bad(s, "get");
  }
  bool small_zero_ok = true;
  bool DrainAll(bool small = false) { for (int i = 0; d->IsTemporalUnitAvailable(); ++i) { if (i > 10000) { r.ok = false; r.err = "endless"; return false; } if (!Get(small)) return false; } return true; }
  bool Feed(const Bytes& b, size_t from, size_t to, Drain p) {
    Bytes chunk(b.begin() + from, b.begin() + to);
    if (Bad(d->Decode(chunk.data(), chunk.size()), "decode")) return false;
    Info();
    if (p == kDrainEach) return DrainAll();
    if (p == kSmallFirst) return DrainAll(true);
    if (p == kOneEach && d->IsTemporalUnitAvailable()) return Get();
    if (p == kUntilZero) for (int i = 0; i < 10000; ++i) { size_t w = 0; const bool av = d->IsTemporalUnitAvailable(); auto s = d->GetOutputTemporalUnit(buf.data(), buf.size(), w); if (av && (s.ok() || w)) r.tus.emplace_back(buf.begin(), buf.begin() + w); if (Bad(s, "get")) return false; if (!w) break; }
    return true;
  }
  Result& Finish(Drain p) { if (r.ok && !Bad(d->SignalEndOfDecoding(), "signal")) { Info(); DrainAll(p == kSmallFirst); } return r; }
};
// Standalone mode: `cuts` are the chunk ends (ascending, within [0, b.size()]).
inline Result Standalone(const Bytes& b, const api::IamfDecoder::Settings& set, const std::vector<size_t>& cuts, Drain p) {
  Session s; s.buf.resize(g_buffer); if (s.Bad(api::IamfDecoder::Create(set, s.d), "create")) return s.r;
  size_t at = 0; for (size_t c : cuts) { if (!s.Feed(b, at, c, p)) return s.r; at = c; }
  if (at < b.size() && !s.Feed(b, at, b.size(), p)) return s.r;
  return s.Finish(p);
}
inline Result Container(const Bytes& desc, const std::vector<Bytes>& units, const api::IamfDecoder::Settings& set, Drain p) {
  Session s; s.buf.resize(g_buffer); if (s.Bad(api::IamfDecoder::CreateFromDescriptors(set, desc.data(), desc.size(), s.d), "create")) return s.r;
  s.Info();
  for (auto& u : units) if (!s.Feed(u, 0, u.size(), p)) return s.r;
  return s.Finish(p);
}
inline std::vector<int> AndroidOrder(int layout) {  // output position -> IAMF position
  int n = st::OutCh(layout); std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
  switch (layout) {
    case 8: case 9: case 10: std::swap(v[4], v[6]); std::swap(v[5], v[7]); break;
    case 5: v = {1, 2, 0, 10, 7, 8, 5, 6, 9, 3, 4, 11}; break;
    case 6: v = {0, 1, 2, 3, 6, 7, 12, 13, 4, 5, 8, 9, 10, 11}; break;
    case 7: v = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 15, 12, 14, 13, 16, 20, 17, 18, 19, 22, 21, 23, 9}; break;
  }
  return v;
}
// Compares decoded PCM with the reference. `tol` in int32 steps.
inline std::string Compare(const st::Pcm& want, const Bytes& got, int layout, bool is16, bool android, double tol) {
  const size_t nch = st::OutCh(layout), bs = is16 ? 2 : 4;
  if (got.size() != want.size() * nch * bs) return "size " + std::to_string(got.size()) + " want " + std::to_string(want.size() * nch * bs);
  auto order = android ? AndroidOrder(layout) : std::vector<int>(); size_t at = 0;
  for (size_t t = 0; t < want.size(); ++t) for (size_t c = 0; c < nch; ++c, at += bs) {
    double w = (double)st::ToInt32(want[t][android ? order[c] : c]); double g; double tl = tol;
    if (is16) { g = (int16_t)(got[at] | got[at + 1] << 8); w = std::floor(w / 65536.0); tl = tol > 0 ? 1 : 0; }
    else g = (int32_t)((uint32_t)got[at] | got[at + 1] << 8 | got[at + 2] << 16 | (uint32_t)got[at + 3] << 24);
    if (std::fabs(g - w) > tl) return "tick " + std::to_string(t) + " channel " + std::to_string(c) + ": " + std::to_string(g) + " want " + std::to_string(w);
  }
  return "";
}
}  // namespace dec
