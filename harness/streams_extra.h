// Streams with features stream.h does not model: scalable, expanded and
// ambisonics elements.
#pragma once
#include "stream.h"
#include "scal.h"
namespace st {
struct Extra { std::string name; Bytes desc; std::vector<Bytes> units; };
inline std::vector<Extra> ExtraStreams() {
  std::vector<Extra> v;
  auto put = [&](const std::string& n, const sc::Stream& s) { Extra x; x.name = n; x.desc = sc::Descriptors(s); for (size_t i = 0; i < s.tus.size(); ++i) x.units.push_back(sc::TuBytes(s, i)); v.push_back(x); };
  auto ladder = [](std::vector<int> l) { sc::Elem e; for (int i : l) e.layers.push_back({i}); e.demix = 70; return e; };
  sc::Stream s; s.mix.es = {0}; s.mix.layouts = {0}; s.n = 2; s.tus.assign(2, {});
  { auto e = ladder({1, 2, 5}); e.recon = 71; e.layers[1].recon = e.layers[2].recon = true; e.layers[0].og_present = true; e.layers[0].og_flags = 48; e.layers[0].og = -256; s.elems = {e};
    for (auto& u : s.tus) { u.mode[70] = 1; auto& r = u.recon[71]; r.resize(3); r[1] = {{0, 255}, {9, 7}}; r[2] = {{3, 255}}; } put("scalable", s); }
  { sc::Elem e; e.exp = 7; s.elems = {e}; s.tus.assign(1, {}); put("expanded", s); }
  { sc::Elem e; e.order = 1; e.subs = 3; e.coupled = 1; e.matrix.assign(16, 100); s.elems = {e}; put("projection", s); }
  { sc::Elem e; e.order = 1; e.subs = 3; e.mapping = {0, 255, 1, 2}; s.elems = {e}; put("ambisonics", s); }
  { s.elems = {ladder({8, 3}), ladder({1, 7})}; s.elems[1].id = 301; s.elems[1].sid = 40; s.mix.es = {0, 1}; s.tus.assign(2, {}); for (auto& u : s.tus) u.mode[70] = 2; put("two-scalable", s); }
  return v;
}
}  // namespace st
