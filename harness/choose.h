// Depth-first enumeration of every resolution of a program's choice points.
//
// `c(n)` returns a value in [0, n). 0 is the default answer; any other answer is
// one deviation. `Next()` moves to the next path; together the paths are all
// answer sequences with at most `max_dev` deviations.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <string>
#include <vector>

struct Chooser {
  int max_dev;
  explicit Chooser(int max_dev_) : max_dev(max_dev_) {}
  struct Pt { int answer, n; };
  std::vector<Pt> path;
  size_t pos = 0;
  int dev = 0;
  uint64_t points = 0;
  int operator()(int n) {
    ++points;
    if (pos == path.size()) path.push_back({0, n});
    Pt& p = path[pos++];
    p.n = n;
    if (p.answer) ++dev;
    return p.answer;
  }
  template <class T> T alt(std::initializer_list<T> v) { return v.begin()[(*this)((int)v.size())]; }
  template <class T> T alt(const std::vector<T>& v) { return v[(*this)((int)v.size())]; }
  bool flag() { return (*this)(2) != 0; }
  void Rewind() { pos = 0; dev = 0; }
  bool Next() {
    path.resize(pos);
    while (!path.empty()) {
      int used = 0;
      for (size_t i = 0; i + 1 < path.size(); ++i) used += path[i].answer != 0;
      Pt& p = path.back();
      if (p.answer + 1 < p.n && used + 1 <= max_dev) { ++p.answer; Rewind(); return true; }
      path.pop_back();
    }
    Rewind();
    return false;
  }
  // Deviations only, e.g. "12=3,40=1".
  std::string Name() const {
    std::string s;
    for (size_t i = 0; i < pos; ++i) if (path[i].answer) s += (s.empty() ? "" : ",") + std::to_string(i) + "=" + std::to_string(path[i].answer);
    return s.empty() ? "default" : s;
  }
};
