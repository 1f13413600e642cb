// Stand-in for microsoft/apsi's public types: items, labels, a sender database
// that stores its content in the clear, an OPRF key, JSON parameters.
#pragma once
#include <openssl/sha.h>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <array>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include "nlohmann/json.hpp"
#define APSI_LOG_DEBUG(m) do { std::ostringstream _o; _o << m; } while (0)
#define APSI_LOG_INFO(m) APSI_LOG_DEBUG(m)
#define APSI_LOG_WARNING(m) APSI_LOG_DEBUG(m)
#define APSI_LOG_ERROR(m) APSI_LOG_DEBUG(m)
namespace apsi {
struct Item {
  std::array<unsigned char, 16> v{};
  Item() = default;
  Item(const std::string& s) { unsigned char d[32]; SHA256((const unsigned char*)s.data(), s.size(), d); std::memcpy(v.data(), d, 16); }
  std::string to_string() const { return std::string((const char*)v.data(), 16); }
  bool operator==(const Item& o) const { return v == o.v; }
  bool operator<(const Item& o) const { return v < o.v; }
};
using Label = std::vector<unsigned char>;
struct PSIParams {
  std::string js;
  static PSIParams Load(const std::string& s) {
    (void)nlohmann::json::parse(s); PSIParams p; p.js = s; return p;
  }
  std::string to_string() const { return js; }
  double log2_fpp() const { return -40; }
};
namespace util {}
namespace receiver {
struct LabelData {
  std::optional<Label> l;
  explicit operator bool() const { return l && !l->empty(); }
  std::string to_string() const { return std::string(l->begin(), l->end()); }
  void set(Label x) { l = std::move(x); }
};
struct MatchRecord { bool found = false; LabelData label; explicit operator bool() const { return found; } };
}  // namespace receiver
namespace oprf {
inline constexpr size_t oprf_key_size = 32;
struct OPRFKey {
  std::array<char, oprf_key_size> k{};
  void save(std::ostream& o) const { o.write(k.data(), k.size()); }
  void load(std::istream& i) { i.read(k.data(), k.size()); }
};
}  // namespace oprf
namespace sender {
struct SenderDB {
  PSIParams p; size_t lb = 0, nonce = 0; bool comp = false, stripped = false;
  std::map<std::string, Label> data; oprf::OPRFKey key;
  SenderDB(PSIParams pp, size_t l, size_t n, bool c) : p(std::move(pp)), lb(l), nonce(n), comp(c) { key.k.fill('k'); }
  void set_data(const std::vector<Item>& d) { data.clear(); for (auto& i : d) data[i.to_string()] = {}; }
  void set_data(const std::vector<std::pair<Item, Label>>& d) {
    data.clear();
    for (auto& [i, l] : d) { if (l.size() > lb) throw std::invalid_argument("label too long"); Label x = l; x.resize(lb, 0); data[i.to_string()] = x; }
  }
  size_t get_item_count() const { return data.size(); }
  double get_packing_rate() const { return 1; }
  bool is_stripped() const { return stripped; }
  oprf::OPRFKey strip() { stripped = true; return key; }
  oprf::OPRFKey get_oprf_key() const { return key; }
  static void w(std::ostream& o, uint64_t x) { o.write((char*)&x, 8); }
  static uint64_t r(std::istream& i) { uint64_t x = 0; i.read((char*)&x, 8); return x; }
  static constexpr uint64_t kMagic = 0x5a4d4244'41505349ull;
  size_t save(std::ostream& o) const {
    std::ostringstream b;
    w(b, lb); w(b, nonce); w(b, comp); w(b, p.js.size()); b.write(p.js.data(), p.js.size()); w(b, data.size());
    for (auto& [k, l] : data) { b.write(k.data(), 16); w(b, l.size()); b.write((const char*)l.data(), l.size()); }
    auto s = b.str(); w(o, kMagic); w(o, s.size()); o.write(s.data(), s.size()); return s.size() + 16;
  }
  static std::pair<SenderDB, size_t> Load(std::istream& i) {
    if (r(i) != kMagic) throw std::runtime_error("bad magic");
    size_t n = r(i); if (n > (1u << 26)) throw std::runtime_error("bad size");
    std::string s(n, 0); i.read(s.data(), n);
    std::istringstream b(s); b.exceptions(std::ios::badbit | std::ios::failbit);
    SenderDB d(PSIParams{}, 0, 0, false);
    d.lb = r(b); d.nonce = r(b); d.comp = r(b); size_t jl = r(b); d.p.js.resize(jl); b.read(d.p.js.data(), jl);
    size_t c = r(b);
    while (c--) { std::string k(16, 0); b.read(k.data(), 16); Label l(r(b)); b.read((char*)l.data(), l.size()); d.data[k] = l; }
    d.stripped = true; return {d, n + 16};
  }
  SenderDB(const SenderDB&) = default; SenderDB(SenderDB&&) = default;
};
}  // namespace sender
}  // namespace apsi
namespace std { template <> struct hash<apsi::Item> { size_t operator()(const apsi::Item& i) const { return std::hash<std::string>()(i.to_string()); } }; }
