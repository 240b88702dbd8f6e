// C11: the file-generating encoder under every single fault of the file system
// and every crash point: all or nothing, and always a prefix of the sequence.
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "vh_main.h"
#include "choose.h"
#include "dec.h"
#include "enc.h"
#include "fault_io.h"
using vh::Ctx; using namespace enc; namespace fs = std::filesystem;
namespace {
struct Named { std::string name; Cfg c; };
std::vector<Named> Configs() {
  std::vector<Named> v;
  auto base = [](uint32_t n, std::vector<st::Kind> ks) { Cfg c; c.s.primary = 1; c.s.n = n; uint32_t sid = 0; std::vector<uint32_t> all; for (auto k : ks) { c.s.elems.push_back({(uint32_t)(300 + c.s.elems.size()), k, sid, {}}); sid += st::Info(k).sub.size(); all.push_back(c.s.elems.back().id); } c.s.mixes = {st::Simple(42, all)}; return c; };
  { auto c = base(8, {st::kStereo}); c.samples = 24; v.push_back({"stereo", c}); }
  { auto c = base(8, {st::kStereo}); c.samples = 0; v.push_back({"nothing", c}); }
  { auto c = base(8, {st::kMono, st::kStereo}); c.samples = 13; c.trim_start = 3; c.trim_end = 3; v.push_back({"trim", c}); }
  { auto c = base(4096, {st::kStereo}); c.samples = 8192; v.push_back({"large-units", c}); }
  { auto c = base(2000, {st::k714}); c.s.bits = 24; c.samples = 4000; c.arbs = {{3, -1, 26, Bytes(9000, 7)}, {9, 2000, 27, Bytes(70000, 9)}}; v.push_back({"large-arbitrary", c}); }
  { auto c = base(900, {st::kMono}); c.samples = 9000; v.push_back({"medium-units", c}); }
  for (auto& x : v) Plan(x.c); return v;
}
std::string Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
std::string Str(const Bytes& b) { return std::string(b.begin(), b.end()); }
struct Golden { std::string pre, fin, units; std::vector<size_t> ends; long ops = 0; std::vector<std::pair<long, std::string>> snaps; bool ok = false; };
// The streamed output is the reference: C08 and C09 decide that it is right.
Golden Reference(Ctx& ctx, const Cfg& c) {
  Golden g; auto o = Encode(c); if (!o.ok) { ctx.Fail("stream", o.where + ": " + o.err); return g; }
  g.pre = Str(o.desc0); g.fin = Str(o.desc); for (auto& u : o.units) { g.units += Str(u); g.ends.push_back(g.units.size()); }
  Bytes want = ExpectedDescriptors(c, nullptr); if (want.size() != g.pre.size()) ctx.Fail("stream", "descriptor size");
  g.ok = true; return g;
}
long CountOps(const Cfg& c, const std::string& path) { fio::Arm(path, -1, fio::kNone); Encode(c, path); long n = fio::S().n; fio::Disarm(); return n; }
// Runs the encoder; classifies what is left.
void Judge(Ctx& ctx, const Out& o, const Golden& g, const std::string& path, const char* what) {
  const bool exists = fs::exists(path); ctx.Validated();
  if (o.ok) {
    auto f = Slurp(path);
    if (!exists || f != g.fin + g.units) ctx.Fail("silent-loss", std::string(what) + ": every call succeeded, but the file has " + std::to_string(f.size()) + " of " + std::to_string(g.fin.size() + g.units.size()) + " bytes" + (f.size() == g.fin.size() + g.units.size() ? " (other content)" : ""));
  } else if (exists) ctx.Fail("partial-file", std::string(what) + ": " + o.where + " failed (" + o.err + ") and " + std::to_string(Slurp(path).size()) + " bytes stay in the file");
  ctx.Outcome(vh::Fnv(o.where + (o.ok ? "ok" : "err"))); ctx.Count(o.ok ? "complete" : "failed-and-removed"); ctx.Transitions(o.calls + 1);
}
void Crash(Ctx& ctx, const Cfg& c, const Golden& g, const std::string& path) {
  std::vector<std::string> snaps; fio::Arm(path, -1, fio::kNone); fio::S().observe = [&](long) { snaps.push_back(Slurp(path)); };
  auto o = Encode(c, path); fio::Disarm(); if (!o.ok) return ctx.Fail("clean-run", o.where + ": " + o.err);
  snaps.push_back(Slurp(path)); if (snaps.back() != g.fin + g.units) ctx.Fail("clean-file", "got " + std::to_string(snaps.back().size()) + " bytes, want " + std::to_string(g.fin.size() + g.units.size()) + " or other content");
  const std::string pre = g.pre + g.units; std::set<std::string> seen;
  for (size_t i = 0; i < snaps.size(); ++i) {
    auto& s = snaps[i]; if (!seen.insert(s).second) continue; ctx.State(vh::Fnv(s)); ctx.Validated();
    size_t diff = 0; while (diff < s.size() && diff < pre.size() && s[diff] == pre[diff]) ++diff;
    bool ok = diff == s.size() && s.size() <= pre.size();
    if (!ok && s.size() == pre.size()) { for (size_t j = 0; j <= g.fin.size() && !ok; ++j) ok = s == g.fin.substr(0, j) + pre.substr(j); }
    if (!ok) { ctx.Fail("crash-content", "before write " + std::to_string(i) + ": " + std::to_string(s.size()) + " bytes, not a prefix of the sequence from byte " + std::to_string(diff)); continue; }
    // What a reader gets from it: every unit that is wholly there.
    if (s.size() < g.fin.size()) continue;
    size_t units = 0; while (units < g.ends.size() && g.fin.size() + g.ends[units] <= s.size()) ++units;
    dec::api::IamfDecoder::Settings set; set.requested_mix.mix_presentation_id = 42; set.requested_mix.output_layout = dec::ApiLayout(0);
    auto r = dec::Standalone(Bytes(s.begin(), s.end()), set, {}, dec::kDrainAtEnd);
    if (!r.ok && units) { ctx.Fail("crash-decode", "after " + std::to_string(i) + " writes: " + r.err); continue; }
    size_t got = 0, want = 0; for (auto& t : r.tus) got += t.size(); for (size_t k = 0; k < units; ++k) want += st::Render(c.s, c.s.mixes[0], 0, k).size() * 2 * 4;
    if (got < want) ctx.Fail("crash-decode", "after " + std::to_string(i) + " writes: " + std::to_string(units) + " units are there, decoded " + std::to_string(got) + " of " + std::to_string(want) + " bytes");
  }
}
void Body(Ctx& ctx) {
  signal(SIGXFSZ, SIG_IGN);
  for (auto& [name, c] : Configs()) {
    const std::string path = fs::canonical(vh::ScratchDir()).string() + "/o.iamf"; bool have = false; Golden g; long n = 0;
    auto need = [&] { if (!have) { have = true; g = Reference(ctx, c); n = CountOps(c, path); } fs::remove(path); return g.ok; };
    if (ctx.Mine("crash:" + name) && need()) Crash(ctx, c, g, path);
    // Every faulty operation. The count is fixed per configuration, so that every
    // worker enumerates the same cases; operations past the end change nothing.
    const long limit = ctx.thorough ? 400 : 60;
    const char* fn[] = {"", "ENOSPC", "EIO", "short", "EINTR"};
    for (int f = fio::kNoSpace; f <= fio::kIntr; ++f) for (long k = 0; k < limit; ++k) {
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
      std::string cn = std::string("fault:") + name + ":" + fn[f] + ":" + std::to_string(k); if (!ctx.Mine(cn) || !need()) continue;
      if (k >= n) { ctx.Count("past-the-last-operation"); continue; }
      fio::Arm(path, k, (fio::Fault)f); auto o = Encode(c, path); bool hit = fio::S().hit; fio::Disarm();
      if (!hit) ctx.Count("fault-not-reached"); else ctx.Count(std::string("fault-") + fn[f]);
      if (f == fio::kIntr && !o.ok) ctx.Count("interrupted-failed");
      Judge(ctx, o, g, path, cn.c_str());
    }
    // Every length at which the file system is full.
    const bool small = name == "stereo" || name == "nothing" || name == "trim"; const size_t total = small ? 400 : ctx.thorough ? (name == "medium-units" ? 21000 : 120000) : 160;
    for (size_t k = 0; k < total; ++k) {
      if (!ctx.NextIsMine()) { ctx.Skip(); continue; }
      std::string cn = "limit:" + name + ":" + std::to_string(k); if (!ctx.Mine(cn) || !need()) continue;
      const size_t size = g.fin.size() + g.units.size(); size_t lim = total != 160 ? k : k < 120 ? size * k / 119 : k < 140 ? size - (k - 119) : k == 140 ? size : g.fin.size() + k - 150;
      if (lim > size) { ctx.Count("past-the-end"); continue; }
      struct rlimit old, cur; getrlimit(RLIMIT_FSIZE, &old); cur = old; cur.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &cur);
      auto o = Encode(c, path); setrlimit(RLIMIT_FSIZE, &old);
      if (lim < size && o.ok && Slurp(path).size() == size) ctx.Count("limit-not-effective"); if (lim == size && !o.ok) ctx.Fail("needless-error", o.where + ": " + o.err);
      Judge(ctx, o, g, path, cn.c_str());
    }
    // Paths that cannot be opened: an error, and nothing there is touched.
    for (int k = 0; k < 6; ++k) {
      std::string cn = "path:" + name + ":" + std::to_string(k); if (!ctx.Mine(cn)) continue;
      const std::string d = fs::canonical(vh::ScratchDir()).string() + "/p"; fs::remove_all(d); fs::create_directory(d); std::string p = d + "/x";
      if (k == 0) fs::create_directory(p); if (k == 1) { fs::create_directory(p); std::ofstream(p + "/y") << "keep"; } if (k == 2) p = d + "/none/x"; if (k == 3) fs::create_symlink(p, p); if (k == 4) { fs::create_directory(d + "/z"); fs::create_symlink(d + "/z", p); } if (k == 5) { std::ofstream(p) << "a file"; p += "/x"; }
      std::vector<std::string> before, after; auto list = [&](auto& v) { for (auto& e : fs::recursive_directory_iterator(d)) v.push_back(e.path().string() + (fs::is_symlink(e.symlink_status()) ? "@" : fs::is_directory(e.symlink_status()) ? "/" : ":" + Slurp(e.path().string()))); std::sort(v.begin(), v.end()); };
      list(before); auto o = Encode(c, p); list(after); ctx.Validated(); ctx.Outcome(vh::Fnv("path" + o.where));
      if (o.ok) ctx.Fail("open-failure-unreported", cn); if (before != after) ctx.Fail("path-touched", cn + ": the output path could not be opened, and what was there was changed or removed");
    }
    // A path that already holds a file: replaced as a whole.
    if (ctx.Mine("over:" + name) && need()) { std::ofstream(path) << std::string(400000, 'x'); auto o = Encode(c, path); Judge(ctx, o, g, path, "over"); if (!o.ok) ctx.Fail("clean-run", o.where + ": " + o.err); }
    // Calls for no file at all.
    if (ctx.Mine("nofile:" + name) && need()) { auto o = Encode(c); if (!o.ok) ctx.Fail("clean-run", o.err); }
  }
}
}  // namespace
int main(int argc, char** argv) {
  vh::Spec sp; sp.id = "C11"; sp.min_cases = 500; sp.min_outcomes = 4; sp.case_timeout_s = 60;
  sp.rule = "six encoders writing a file (no, small, medium and large temporal units, large arbitrary OBUs, trimming); for each: every write or seek system call failing with ENOSPC, EIO or EINTR or writing only half; every file size limit in bytes (quick, large files: 120 equidistant ones, the last 20 bytes and the end of the descriptors); the file content before every system call (crash points), checked against the sequence and decoded; six kinds of path that cannot be opened";
  sp.assumptions = {"a crash loses nothing that was handed to write(2) (process crash, not power loss)", "the streamed encoder output is the reference for the content (decided by C08, C09)"};
  return vh::Run(argc, argv, sp, Body);
}
