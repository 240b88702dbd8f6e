#pragma once
#include "vh.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace vh {
namespace {
struct Shared { volatile uint64_t beat; volatile uint64_t len; char name[1 << 16]; };
Shared* g_shared = nullptr;
// Shared by all workers: when the first violation (that is not a known finding) was seen.
struct Global { volatile int64_t first_fail_ms; };
Global* g_global = nullptr;
int64_t NowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
constexpr int64_t kGraceMs = 60000;  // exploration goes on this long after a violation
struct Known { std::string key, match, text; bool seen = false; };
std::vector<Known> g_known;
bool IsKnown(const std::string& key, const std::string& name, bool mark = false) {
  for (auto& k : g_known) if (k.key == key && (k.match == "*" || name.find(k.match) != std::string::npos)) { if (mark) k.seen = true; return true; }
  return false;
}
void NoteViolation() { if (g_global && !g_global->first_fail_ms) g_global->first_fail_ms = NowMs(); }
std::string g_scratch;
const std::set<std::string>* g_skip = nullptr;

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
std::string OneLine(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
void Put(std::ofstream& f, const std::string& s) { uint64_t n = s.size(); f.write((char*)&n, 8); f.write(s.data(), n); }
std::string Get(std::ifstream& f) { uint64_t n = 0; f.read((char*)&n, 8); std::string s(n, 0); f.read(s.data(), n); return s; }
void PutN(std::ofstream& f, uint64_t n) { f.write((char*)&n, 8); }
uint64_t GetN(std::ifstream& f) { uint64_t n = 0; f.read((char*)&n, 8); return n; }

void Save(const Ctx& c, const std::string& path) {
  std::ofstream f(path, std::ios::binary);
  PutN(f, c.index); PutN(f, c.cases); PutN(f, c.transitions); PutN(f, c.validated);
  PutN(f, c.states.size()); for (auto h : c.states) PutN(f, h);
  PutN(f, c.outcomes.size()); for (auto h : c.outcomes) PutN(f, h);
  PutN(f, c.counts.size()); for (auto& [k, v] : c.counts) { Put(f, k); PutN(f, v); }
  PutN(f, c.samples.size()); for (auto& s : c.samples) Put(f, s);
  PutN(f, c.failures.size()); for (auto& x : c.failures) { Put(f, x.key); Put(f, x.name); Put(f, x.detail); }
}
void Load(Ctx& c, const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  c.index = std::max<uint64_t>(c.index, GetN(f)); c.cases += GetN(f); c.transitions += GetN(f); c.validated += GetN(f);
  for (uint64_t n = GetN(f); n--;) c.states.insert(GetN(f));
  for (uint64_t n = GetN(f); n--;) c.outcomes.insert(GetN(f));
  for (uint64_t n = GetN(f); n--;) { auto k = Get(f); auto v = GetN(f); if (k.rfind("max ", 0) == 0) c.counts[k] = std::max(c.counts[k], v); else c.counts[k] += v; }
  for (uint64_t n = GetN(f); n--;) c.samples.push_back(Get(f));
  for (uint64_t n = GetN(f); n--;) { Ctx::Failure x; x.key = Get(f); x.name = Get(f); x.detail = Get(f); c.failures.push_back(x); }
}
struct Worker { pid_t pid = 0; Shared* sh = nullptr; std::string dir; uint64_t beat = 0; std::chrono::steady_clock::time_point t; };

// Starts one worker process running `body`.
Worker Start(const std::function<void(Ctx&)>& body, bool thorough, int w, int n, const std::string& replay, const std::string& root,
             const std::set<std::string>& skip_cases) {
  Worker k;
  k.dir = root + "/w" + std::to_string(w);
  std::filesystem::create_directories(k.dir + "/scratch");
  k.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  k.t = std::chrono::steady_clock::now();
  fflush(stdout); fflush(stderr);
  k.pid = fork();
  if (k.pid == 0) {
    int e = open((k.dir + "/stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int o = open("/dev/null", O_WRONLY);
    dup2(o, 1); dup2(e, 2);
    g_shared = k.sh; g_scratch = k.dir + "/scratch";
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    Ctx* c = new Ctx; c->thorough = thorough; c->worker = w; c->workers = n; c->replay = replay;
    c->samples.reserve(8);
    g_skip = &skip_cases;
    body(*c);
    Save(*c, k.dir + "/result");
    _exit(0);
  }
  return k;
}
}  // namespace

bool Ctx::NextIsMine() {
  if (stop) return false;
  if (!replay.empty()) return true;
  if (g_global && g_global->first_fail_ms && NowMs() - g_global->first_fail_ms > kGraceMs) { stop = true; return false; }
  return (int)(index % workers) == worker;
}
bool Ctx::Mine(const std::string& name) {
  const bool mine = NextIsMine() && (replay.empty() || replay == name) && !(g_skip && g_skip->count(name));
  ++index;
  if (!mine) return false;
  ++cases; failed_in_case = false; cur = name;
  const int64_t now = NowMs(); if (started_ms) { auto& m = counts["max case ms"]; m = std::max<uint64_t>(m, now - started_ms); } started_ms = now;
  const size_t n = std::min(name.size(), sizeof(g_shared->name) - 1);
  memcpy(g_shared->name, name.data(), n); g_shared->len = n; g_shared->beat = g_shared->beat + 1;
  if (samples.size() < 2) samples.push_back(name.substr(0, 600));
  return true;
}
void Ctx::State(uint64_t h) { if (states.size() < 8000000) states.insert(h); }
void Ctx::Outcome(uint64_t h) { if (outcomes.size() < 4000000) outcomes.insert(h); }
void Ctx::Sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s.substr(0, 600)); }
void Ctx::Fail(const std::string& key, const std::string& detail) {
  failed_in_case = true;
  if (replay.empty() && !IsKnown(key, cur)) NoteViolation();
  if (fail_keys[key]++ >= 3) return;  // a few examples per class suffice
  failures.push_back({key, cur, detail});
}
std::string Hex(const void* p, size_t n, size_t max) {
  static const char* d = "0123456789abcdef"; std::string o; const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n && i < max; ++i) { o += d[b[i] >> 4]; o += d[b[i] & 15]; }
  if (n > max) o += "..(" + std::to_string(n) + " bytes)";
  return o;
}
std::string ScratchDir() { return g_scratch; }

int Run(int argc, char** argv, const Spec& spec, const std::function<void(Ctx&)>& body) {
  auto t0 = std::chrono::steady_clock::now();
  const char* tier_env = getenv("VERIF_TIER");
  std::string tier = tier_env ? tier_env : "quick", replay, V = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") tier = "thorough";
    if (a == "--quick") tier = "quick";
    if (a == "--replay" && i + 1 < argc) {
      std::ifstream f(argv[++i]); std::string line;
      while (std::getline(f, line)) if (line.rfind("case: ", 0) == 0) replay = line.substr(6);
    }
  }
  if (tier != "thorough") tier = "quick";
  const bool thorough = tier == "thorough";
  const char* seed_env = getenv("VERIF_SEED");
  const long seed = seed_env ? atol(seed_env) : 1;
  std::string root = "/tmp/vh." + spec.id + "." + std::to_string(getpid());
  std::filesystem::create_directories(root);
  int n = replay.empty() ? 8 : 1;
  std::set<std::string> skip;
  std::vector<Ctx::Failure> crashes;
  Ctx total;
  auto tail = [&](const std::string& p) { std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); auto s = ss.str(); return s.size() > 6000 ? s.substr(0, 3000) + "\n...\n" + s.substr(s.size() - 3000) : s; };
  // Known findings: lines "finding: property=<id> key=<key> match=<substring of the case> :: <text>".
  auto& known = g_known;
  { std::ifstream f(V + "/known_findings.txt"); std::string line;
    while (std::getline(f, line)) {
      std::string pre = "finding: property=" + spec.id + " key=";
      if (line.rfind(pre, 0) != 0) continue;
      Known k; size_t a = pre.size(), b = line.find(" match=", a), e = line.find(" :: ", b);
      if (b == std::string::npos || e == std::string::npos) continue;
      k.key = line.substr(a, b - a); k.match = line.substr(b + 7, e - b - 7); k.text = line.substr(e + 4);
      known.push_back(k);
    } }
  g_global = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_global->first_fail_ms = 0;
  // Runs a worker to the end; restarts it past a crashing case.
  auto supervise = [&](std::vector<Worker>& ws, bool thorough_, const std::string& rep, std::vector<Ctx::Failure>& cr, Ctx& acc, double timeout) {
    std::map<pid_t, int> live; for (size_t i = 0; i < ws.size(); ++i) live[ws[i].pid] = i;
    int restarts = 0;
    while (!live.empty()) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p == 0) {
        usleep(5000);
        auto now = std::chrono::steady_clock::now();
        for (auto& [pid, i] : live) {
          auto& w = ws[i];
          if (w.sh->beat != w.beat) { w.beat = w.sh->beat; w.t = now; }
          else if (w.beat && std::chrono::duration<double>(now - w.t).count() > timeout) kill(pid, SIGKILL);
        }
        continue;
      }
      if (p < 0) break;
      auto it = live.find(p); if (it == live.end()) continue;
      int i = it->second; live.erase(it); auto& w = ws[i];
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && std::filesystem::exists(w.dir + "/result")) { Load(acc, w.dir + "/result"); continue; }
      std::string name(w.sh->name, w.sh->len);
      bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
      std::string how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
      if (hang) how = "no progress for the case time limit (hang)";
      if (w.sh->beat == 0) { cr.push_back({"driver", "", "worker died before its first case: " + how + "\n" + tail(w.dir + "/stderr")}); continue; }
      cr.push_back({hang ? "hang" : "crash", name, how + "\n" + tail(w.dir + "/stderr")});
      if (rep.empty() && !IsKnown(cr.back().key, name)) NoteViolation();
      const bool late = g_global->first_fail_ms && NowMs() - g_global->first_fail_ms > kGraceMs;
      if (rep.empty() && !late && restarts++ < 24) {
        skip.insert(name);
        Worker nw = Start(body, thorough_, i, ws.size(), rep, root, skip); ws[i] = nw; live[nw.pid] = i;
      }
    }
  };
  std::vector<Worker> ws;
  for (int w = 0; w < n; ++w) ws.push_back(Start(body, thorough, w, n, replay, root, skip));
  supervise(ws, thorough, replay, crashes, total, spec.case_timeout_s);
  auto failures = total.failures;
  failures.insert(failures.end(), crashes.begin(), crashes.end());

  int rc = 0; int unlisted = 0; bool driver_error = false; std::string notes;
  for (auto& x : failures) {
    if (x.key == "driver") { fprintf(stderr, "driver error: %s\n", x.detail.c_str()); driver_error = true; continue; }
    if (IsKnown(x.key, x.name, true)) continue;
    if (x.key == "hang" && rc) continue;  // one report is enough; a replay of a hang takes long
    if (unlisted >= 3) { ++unlisted; continue; }
    // Replay alone, in a fresh process, before reporting.
    bool reproduced = true;
    if (replay.empty()) {
      std::vector<Ctx::Failure> cr2; Ctx acc2;
      std::set<std::string> none; 
      auto keep = skip; skip.clear();
      std::vector<Worker> one{Start(body, thorough, 0, 1, x.name, root + "/r", none)};
      supervise(one, thorough, x.name, cr2, acc2, spec.case_timeout_s * 3);
      skip = keep;
      reproduced = false;
      for (auto& y : acc2.failures) if (y.key == x.key) reproduced = true;
      for (auto& y : cr2) if (y.key == x.key) reproduced = true;
      if (!cr2.empty() && x.key != "hang") reproduced = true;
    }
    if (!reproduced) { notes += "unreproduced: " + x.key + " " + x.name + "\n"; fprintf(stderr, "not reproduced in isolation: %s: %s\n", x.key.c_str(), x.name.substr(0, 300).c_str()); continue; }
    ++unlisted;
    std::filesystem::create_directories(V + "/replays");
    std::string rp = V + "/replays/" + spec.id + "-" + std::to_string(unlisted) + ".txt";
    std::ofstream f(rp);
    f << "property: " << spec.id << "\nkey: " << x.key << "\ncase: " << x.name << "\n# replay with: VERIF_TIER=" << tier << " " << (argc ? argv[0] : "") << " --replay " << rp << "\n" << x.detail << "\n";
    printf("VIOLATION property=%s replay=%s\n", spec.id.c_str(), rp.c_str());
    printf("  key=%s case=%s\n  %s\n", x.key.c_str(), x.name.substr(0, 400).c_str(), OneLine(x.detail.substr(0, 900)).c_str());
    rc = 1;
  }
  for (auto& k : known) if (k.seen) printf("KNOWN-FINDING: property=%s %s\n", spec.id.c_str(), k.text.c_str());
  if (!replay.empty()) {
    std::filesystem::remove_all(root);
    printf("replayed %llu case(s): %s\n", (unsigned long long)total.cases, rc ? "VIOLATED" : "ok");
    return rc;
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::stringstream js;
  js << "{\n \"property\": \"" << spec.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << spec.level << "\",\n \"coverage\": {\n";
  if (spec.level == "model_checking") {
    js << "  \"states\": " << total.states.size() << ",\n  \"transitions\": " << total.transitions << ",\n  \"traces_validated_against_impl\": " << total.validated << ",\n";
  }
  js << "  \"evaluations\": " << total.cases << ",\n  \"distinct_nontrivial\": " << total.outcomes.size() << ",\n  \"rule\": \"" << JsonEscape(spec.rule) << "\",\n  \"exhaustive\": " << (spec.exhaustive ? "true" : "false") << ",\n  \"counts\": {";
  bool first = true; for (auto& [k, v] : total.counts) { js << (first ? "" : ", ") << "\"" << JsonEscape(k) << "\": " << v; first = false; }
  js << "},\n  \"samples\": ["; first = true;
  for (size_t i = 0; i < total.samples.size() && i < 6; ++i) { js << (first ? "" : ", ") << "\"" << JsonEscape(total.samples[i]) << "\""; first = false; }
  js << "]\n },\n \"assumptions\": ["; first = true;
  for (auto& a : spec.assumptions) { js << (first ? "" : ", ") << "\"" << JsonEscape(a) << "\""; first = false; }
  if (!notes.empty()) js << (first ? "" : ", ") << "\"" << JsonEscape(notes) << "\"";
  js << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << unlisted << "\n}\n";
  std::filesystem::create_directories(V + "/evidence");
  { std::ofstream f(V + "/evidence/" + spec.id + ".json"); f << js.str(); }
  std::filesystem::remove_all(root);
  printf("%s [%s]: cases=%llu states=%zu transitions=%llu validated=%llu outcomes=%zu wall=%.1fs", spec.id.c_str(), tier.c_str(), (unsigned long long)total.cases,
         total.states.size(), (unsigned long long)total.transitions, (unsigned long long)total.validated, total.outcomes.size(), wall);
  for (auto& [k, v] : total.counts) printf(" %s=%llu", k.c_str(), (unsigned long long)v);
  printf("\n");
  if (rc == 0 && driver_error) return 3;
  if (rc == 0 && (total.cases < spec.min_cases || total.outcomes.size() < spec.min_outcomes)) { fprintf(stderr, "vacuous exploration\n"); return 4; }
  return rc;
}
}  // namespace vh
