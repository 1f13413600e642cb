// Helpers shared by the protocol harnesses: worlds, CSV files, reference joins.
#pragma once
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "mc.h"
#include "yacl/link/link.h"
#include "yacl/link/test_util.h"

namespace lib {
using Rows = std::vector<std::vector<std::string>>;
inline std::vector<std::shared_ptr<yacl::link::Context>> World(size_t n, const std::string& id = "root", uint64_t timeout_ms = 30000) {
  auto w = std::make_shared<::shim::link::World>();
  yacl::link::ContextDesc d;
  d.id = id; d.recv_timeout_ms = timeout_ms;
  for (size_t i = 0; i < n; ++i) d.parties.emplace_back("party" + std::to_string(i), "h" + std::to_string(i));
  std::vector<std::shared_ptr<yacl::link::Context>> v;
  for (size_t i = 0; i < n; ++i) v.push_back(std::make_shared<yacl::link::Context>(d, i, w));
  return v;
}
inline std::string Quote(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"') o += '"'; o += c; } return o + "\""; }
inline bool NeedQuote(const std::string& s) { return s.find_first_of(",\"\n\r") != std::string::npos; }
inline void WriteFile(const std::string& p, const std::string& c) { std::ofstream o(p, std::ios::binary); o << c; }
inline std::string ReadFile(const std::string& p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline void WriteCsv(const std::string& p, const std::vector<std::string>& h, const Rows& r, int quote = 0) {
  std::string s;
  auto line = [&](const std::vector<std::string>& v) { for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += quote == 2 || (quote == 1 && NeedQuote(v[i])) ? Quote(v[i]) : v[i]; } s += '\n'; };
  line(h);
  for (auto& x : r) line(x);
  WriteFile(p, s);
}
// strict RFC-4180 reader
inline Rows ParseCsv(const std::string& s) {
  Rows rows; std::vector<std::string> row; std::string f; bool q = false, any = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (q) { if (c == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; ++i; } else q = false; } else f += c; continue; }
    if (c == '"') { q = true; any = true; }
    else if (c == ',') { row.push_back(f); f.clear(); any = true; }
    else if (c == '\n') { row.push_back(f); f.clear(); rows.push_back(row); row.clear(); any = false; }
    else if (c == '\r') {}
    else { f += c; any = true; }
  }
  if (any || !f.empty() || !row.empty()) { row.push_back(f); rows.push_back(row); }
  return rows;
}
inline std::string Str(const Rows& r) { return fmt::format("{}", r); }
template <class T> std::string S(const T& v) { return fmt::format("{}", v); }
inline void Hermetic() { setenv("TMPDIR", mc::ScratchDir().c_str(), 1); }
inline uint64_t H(const std::string& s) { return std::hash<std::string>()(s); }
// all multisets: multiplicities 0..m for each of k keys
inline std::vector<std::vector<int>> Mults(int k, int m) {
  std::vector<std::vector<int>> out{{}};
  for (int i = 0; i < k; ++i) { std::vector<std::vector<int>> n; for (auto& v : out) for (int j = 0; j <= m; ++j) { auto w = v; w.push_back(j); n.push_back(w); } out = n; }
  return out;
}
inline std::vector<std::string> Sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
}  // namespace lib
