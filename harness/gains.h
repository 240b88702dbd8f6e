// Recorded rendering gains (not read from the code under test).
#pragma once
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace gains {
using Matrix = std::vector<std::vector<double>>;
inline const Matrix* Find(const std::string& in, const std::string& out) {
  static const auto* t = [] {
    auto* m = new std::map<std::pair<std::string, std::string>, Matrix>;
    std::istringstream s(
#include "gains_golden.inc"
    );
    std::string i, o; int r, c, n;
    while (s >> i >> o >> r >> c >> n) { Matrix g(r, std::vector<double>(c, 0.0)); for (int k = 0; k < n; ++k) { int a, b; double v; s >> a >> b >> v; g[a][b] = v; } (*m)[{i, o}] = g; if (!m->count({i, i})) { Matrix id(r, std::vector<double>(r, 0.0)); for (int k = 0; k < r; ++k) id[k][k] = 1; if (i[0] != 'A') (*m)[{i, i}] = id; } }
    return m;
  }();
  auto it = t->find({in, out}); return it == t->end() ? nullptr : &it->second;
}
}  // namespace gains
