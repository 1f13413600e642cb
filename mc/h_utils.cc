// Leaf utilities: cuckoo index, DP noise parameters, collectives, bucketing,
// batch providers, index store, serialisation.
#include <cmath>
#include "psilib.h"
#include "absl/strings/escaping.h"
#include "psi/legacy/dp_psi/dp_psi_utils.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/bucket.h"
#include "psi/utils/communication.h"
#include "psi/utils/cuckoo_index.h"
#include "psi/utils/hash_bucket_cache.h"
#include "psi/utils/index_store.h"
#include "psi/utils/serialize.h"
#include "psi/utils/sync.h"
#include "psi/utils/table_utils.h"
using namespace psi;
using lib::S;
using Strs = std::vector<std::string>;
// ---------------------------------------------------------------- cuckoo
static uint128_t Code(const std::vector<int>& h) {   // block i decides hash i modulo powers of two and small numbers
  uint128_t c = 0;
  for (size_t i = 0; i < h.size(); ++i) c |= (uint128_t)(uint16_t)h[i] << (16 * i);
  return c;
}
static void CuckooCheck(const CuckooIndex::Options& o, const std::vector<uint128_t>& codes, const std::vector<size_t>& batches) {
  auto d = [&] { std::string s = fmt::format("{} inputs in {} bins, stash {}, {} hashes, batches {}: codes", codes.size(), o.NumBins(), o.num_stash, o.num_hash, batches); for (auto c : codes) s += fmt::format(" {:x}", (uint64_t)c); return s; };
  CuckooIndex ci(o);
  bool threw = false; size_t off = 0;
  try { for (auto b : batches) { ci.Insert(absl::MakeSpan(codes).subspan(off, b)); off += b; } } catch (std::exception&) { threw = true; }
  auto hash = [&](uint128_t c, int i) { uint64_t r; memcpy(&r, (const uint8_t*)&c + 2 * i, 8); return r % o.NumBins(); };
  if (threw) {   // giving up is legitimate only if the eviction walk can fail: some items contend for too few bins
    // with an unlimited stash the same input is never refused
    if (o.num_stash >= codes.size()) mc::Fail("refused", "an input was refused although the stash has room: " + d());
    return;
  }
  std::vector<int> seen(codes.size(), 0);
  if (ci.bins().size() != o.NumBins() || ci.stash().size() != o.num_stash || ci.hashes().size() != codes.size()) mc::Fail("sizes", d());
  for (size_t b = 0; b < ci.bins().size(); ++b) {
    auto& x = ci.bins()[b]; if (x.IsEmpty()) continue;
    if (x.InputIdx() >= codes.size()) mc::Fail("index", fmt::format("bin {} holds input {}: {}", b, x.InputIdx(), d()));
    ++seen[x.InputIdx()];
    if (x.HashIdx() >= o.num_hash || hash(codes[x.InputIdx()], x.HashIdx()) != b) mc::Fail("bin", fmt::format("bin {} holds input {} by hash {}: {}", b, x.InputIdx(), x.HashIdx(), d()));
    uint64_t mn = 0; while (hash(codes[x.InputIdx()], mn) != b) ++mn;
    if (ci.MinCollidingHashIdx(b) != mn) mc::Fail("min-hash", fmt::format("bin {}: smallest colliding hash {} expected {}: {}", b, ci.MinCollidingHashIdx(b), mn, d()));
  }
  for (auto& x : ci.stash()) if (!x.IsEmpty()) { if (x.InputIdx() >= codes.size()) mc::Fail("stash-index", d()); ++seen[x.InputIdx()]; }
  for (size_t i = 0; i < codes.size(); ++i) if (seen[i] != 1) mc::Fail("once", fmt::format("input {} is stored {} times: {}", i, seen[i], d()));
  if (codes.size() == o.num_input) { try { ci.SanityCheck(); } catch (std::exception& e) { mc::Fail("sanity", e.what() + d()); } }
}
static void CuckooEnum(int n, int hashes, int vals, double scale, uint64_t stash, uint64_t part, uint64_t parts) {
  CuckooIndex::Options o{(uint64_t)n, stash, (uint64_t)hashes, scale};
  uint64_t per = 1; for (int i = 0; i < hashes; ++i) per *= vals;
  uint64_t total = 1; for (int i = 0; i < n; ++i) total *= per;
  for (uint64_t x = part; x < total; x += parts) {
    uint64_t y = x; std::vector<uint128_t> c;
    for (int i = 0; i < n; ++i) { uint64_t z = y % per; y /= per; std::vector<int> h; for (int k = 0; k < hashes; ++k) { h.push_back(z % vals); z /= vals; } c.push_back(Code(h)); }
    CuckooCheck(o, c, {(size_t)n});
    if (x % 7 == 0) { std::vector<size_t> one(n, 1); CuckooCheck(o, c, one); }
    mc::Count(1); mc::Nontrivial(x * 131 + n + 7 * hashes + 1000003 * stash);
  }
  mc::Sample(fmt::format("{} inputs, {} hashes in {} bins, stash {}: {} placements / {}", n, hashes, o.NumBins(), stash, total, parts));
}
static void CuckooBig(uint64_t n, uint64_t stash, double scale, uint64_t seed) {
  CuckooIndex::Options o = scale > 0 ? CuckooIndex::Options{n, stash, 3, scale} : CuckooIndex::SelectParams(n, 0, 3);
  std::vector<uint128_t> c; uint64_t s = seed * 0x9E3779B97F4A7C15ull;
  for (uint64_t i = 0; i < n; ++i) { auto r = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }; uint64_t a = r(), b = r(); c.push_back(((uint128_t)a << 64) | b); }
  std::vector<size_t> b; for (uint64_t left = n, k = 1 + seed % 5; left;) { uint64_t t = std::min(left, k); b.push_back(t); left -= t; k = k * 2 + 1; }
  CuckooIndex ci(o); bool threw = false; (void)ci; (void)threw;
  CuckooCheck(o, c, b);
  if (scale <= 0) {   // the selected parameters leave room for every input
    CuckooIndex q(o); try { q.Insert(c); } catch (std::exception& e) { mc::Fail("params", fmt::format("selected parameters for {} inputs refuse: {}", n, e.what())); }
  }
  mc::Count(n); mc::Nontrivial(n * 31 + seed);
}
// ---------------------------------------------------------------- DP
static double PhiD(double t) { return 0.5 * std::erfc(-t / std::sqrt(2.0)); }
static void DpGauss(double eps) {
  using namespace psi::dp_psi;
  for (double delta : {1e-12, 1e-9, 1e-7, 1e-6, 5e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.05, 0.1, 0.3, 0.5, 0.9}) for (double gs : {0.01, 1.0, 2.0, 100.0}) {
    double s = CalibrateAnalyticGaussianMechanism(eps, delta, gs);
    double d0 = PhiD(gs / (2 * s) - eps * s / gs) - std::exp(eps) * PhiD(-gs / (2 * s) - eps * s / gs);
    // privacy loss of Gaussian noise with that deviation, by the definition of the mechanism
    double thr = PhiD(0) - std::exp(eps) * PhiD(-std::sqrt(2 * eps));
    double tol = std::abs(delta - thr) < 1.1e-5 ? 1.2e-5 : 1e-10;
    if (!(s > 0) || std::abs(d0 - delta) > tol) mc::Fail("gauss", fmt::format("epsilon {} delta {} sensitivity {}: sigma {} has delta {}", eps, delta, gs, s, d0));
    double s2 = CalibrateAnalyticGaussianMechanism(eps, delta, 2 * gs);
    if (std::abs(s2 - 2 * s) > 1e-9 * s) mc::Fail("scale", fmt::format("epsilon {} delta {}: sigma({}) = {} but sigma({}) = {}", eps, delta, gs, s, 2 * gs, s2));
    mc::Count(1); mc::Nontrivial(lib::H(fmt::format("{} {} {}", eps, delta, gs)));
  }
  mc::Sample(fmt::format("epsilon {}, 14 deltas, 4 sensitivities", eps));
}
static void DpEps(size_t n) {
  using namespace psi::dp_psi;
  double dl = 1.0 / (10.0 * n);
  auto e1 = [&](double e2) { double p = std::exp(e2) / (1 + std::exp(e2)); double dev = std::sqrt(2.0 * n * p * std::log(2 / dl)); return std::sqrt(32 * std::log(4 / dl) / (n * p - dev)) * (1 - dev / n); };
  for (double e2 : {2.5, 2.75, 3.0, 3.3, 3.6, 3.9, 4.0}) {
    double g = ComputeEpsilon1(n, e2), r = e1(e2);
    if (std::abs(g - r) > 1e-9 * r) mc::Fail("epsilon1", fmt::format("n {} epsilon2 {}: {} expected {}", n, e2, g, r));
    if (std::abs(ComputePSubKeep(e2) - std::exp(e2) / (1 + std::exp(e2))) > 1e-14) mc::Fail("keep", S(e2));
  }
  double lo = e1(2.5) + 2.5, hi = e1(4) + 4;
  for (double eps : {3.0, 3.5, 4.0}) {
    if (!(lo < eps - 0.01 && hi > eps + 0.001)) continue;   // no solution in the search range
    double e2 = ComputeEpsilon2(n, eps);
    if (!(e2 >= 2.5 && e2 <= 4) || std::abs(e1(e2) + e2 - eps) > 1e-9) mc::Fail("epsilon2", fmt::format("n {} budget {}: split {} + {}", n, eps, e1(e2), e2));
    mc::Count(1); mc::Nontrivial(n * 10 + eps * 2);
  }
}
// ---------------------------------------------------------------- collectives
static std::vector<std::string> Par(size_t n, const std::function<void(size_t, std::shared_ptr<yacl::link::Context>)>& f, const std::string& id = "root") {
  auto w = lib::World(n, id); std::vector<std::function<void()>> ps;
  for (size_t i = 0; i < n; ++i) ps.push_back([=] { f(i, w[i]); });
  return mc::RunParties(ps);
}
static void NoErr(const std::vector<std::string>& e, const std::string& d) { for (size_t i = 0; i < e.size(); ++i) if (!e[i].empty()) mc::Fail("error", fmt::format("party {}: {} ({})", i, e[i], d)); }
static void Sizes(const std::vector<size_t>& sz, size_t bs) {
  size_t n = sz.size(); std::vector<std::vector<size_t>> got(n); std::vector<std::vector<bool>> fl(n); std::vector<size_t> nb(n);
  NoErr(Par(n, [&](size_t i, auto c) { got[i] = AllGatherItemsSize(c, sz[i]); fl[i] = AllGatherFlag(c, sz[i] & 1); nb[i] = NegotiateBucketNum(c, sz[i], bs, 0); }), S(sz));
  size_t mn = *std::min_element(sz.begin(), sz.end()), mx = *std::max_element(sz.begin(), sz.end()), e = mn ? (mx + bs - 1) / bs : 0;
  for (size_t i = 0; i < n; ++i) {
    if (got[i] != sz) mc::Fail("sizes", fmt::format("party {} sees {} of {}", i, got[i], sz));
    for (size_t k = 0; k < n; ++k) if (fl[i][k] != bool(sz[k] & 1)) mc::Fail("flags", fmt::format("party {} sees {} of {}", i, fl[i], sz));
    if (nb[i] != e) mc::Fail("buckets", fmt::format("party {}: {} buckets of {} for {} (expected {})", i, nb[i], bs, sz, e));
  }
  mc::Count(n); mc::Out("ok"); mc::Nontrivial(lib::H(S(sz) + S(bs))); mc::Sample(fmt::format("item counts {} bucket size {} -> {} buckets", sz, bs, e));
}
static void Bcast(size_t n, uint32_t holders, int items, int dup) {
  std::vector<Strs> r(n); std::vector<std::unordered_map<uint64_t, uint32_t>> d(n); Strs want; std::unordered_map<uint64_t, uint32_t> wd;
  for (int k = 0; k < items; ++k) { want.push_back(k == 1 ? std::string("x\0,\"\n", 5) : "item" + S(k)); if ((dup >> k) & 1) wd[k] = k + 1; }
  for (size_t i = 0; i < n; ++i) if (holders >> i & 1) { r[i] = want; d[i] = wd; }
  auto ds = fmt::format("{} parties, holders {:b}, {} items, duplicates {:b}", n, holders, items, dup);
  auto e = Par(n, [&](size_t i, auto c) { BroadcastResult(c, &r[i], &d[i]); });
  if (__builtin_popcount(holders) > 1 && items) {
    for (size_t i = 0; i < n; ++i) if (e[i].empty()) mc::Fail("two-holders", fmt::format("party {} accepts two result holders: {}", i, ds));
  } else {
    NoErr(e, ds);
    for (size_t i = 0; i < n; ++i) { if (!holders) { if (!r[i].empty() || !d[i].empty()) mc::Fail("spurious", ds); continue; } if (r[i] != want) mc::Fail("result", fmt::format("party {} got {}: {}", i, r[i].size(), ds)); if (d[i] != wd) mc::Fail("dups", fmt::format("party {} got {} duplicates: {}", i, d[i].size(), ds)); }
  }
  mc::Out("ok"); mc::Nontrivial(lib::H(ds)); mc::Sample(ds);
}
static void P2P(size_t n, int order) {
  // every pair exchanges over its own link, in whatever order each party visits its peers
  std::vector<std::map<size_t, std::string>> got(n);
  NoErr(Par(n, [&](size_t i, auto c) {
    std::vector<size_t> peers; for (size_t k = 0; k < n; ++k) if (k != i) peers.push_back(k);
    for (int k = 0; k < (order >> (2 * i) & 3); ++k) std::next_permutation(peers.begin(), peers.end());
    std::map<size_t, std::shared_ptr<yacl::link::Context>> l;
    for (auto k : peers) { l[k] = CreateP2PLinkCtx("t", c, k); if (l[k]->WorldSize() != 2) mc::Fail("world", S(l[k]->WorldSize())); if (l[k]->PartyIdByRank(l[k]->NextRank()) != c->PartyIdByRank(k)) mc::Fail("peer", fmt::format("link of {} to {} has peer {}", i, k, l[k]->PartyIdByRank(l[k]->NextRank()))); }
    for (auto k : peers) l[k]->SendAsync(l[k]->NextRank(), yacl::ByteContainerView(fmt::format("{}>{}", i, k)), "m");
    std::reverse(peers.begin(), peers.end());
    for (auto k : peers) { auto b = l[k]->Recv(l[k]->NextRank(), "m"); got[i][k] = std::string((const char*)b.data(), b.size()); }
  }), S(order));
  for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) if (i != k && got[i][k] != fmt::format("{}>{}", k, i)) mc::Fail("mixed", fmt::format("{} received '{}' from {}", i, got[i][k], k));
  mc::Out("ok"); mc::Nontrivial(n * 10000 + order); mc::Sample(fmt::format("{} parties visiting order {:x}", n, order));
}
static void Wait(size_t n, int slow, int thrower) {
  // SyncWait returns at every party only after the function of every party ended
  std::atomic<int> ended{0}; std::vector<int> at(n, -1), res(n, -1);
  auto e = Par(n, [&](size_t i, auto c) {
    auto f = [&, i](int x) { for (int k = 0; k < ((slow >> (2 * i)) & 3) * 4; ++k) std::this_thread::sleep_for(std::chrono::seconds(2)); if ((int)i == thrower) throw std::runtime_error("boom"); ++ended; return x + 100; };
    res[i] = SyncWait(c, f, (int)i); at[i] = ended;
  });
  auto d = fmt::format("{} parties, slowness {:x}, failing party {}", n, slow, thrower);
  for (size_t i = 0; i < n; ++i) {
    if (thrower < 0) { if (!e[i].empty()) mc::Fail("error", e[i] + " " + d); if (res[i] != (int)i + 100) mc::Fail("value", fmt::format("{} {}", res[i], d)); if (at[i] != (int)n) mc::Fail("early", fmt::format("party {} returned when {} of {} had finished: {}", i, at[i], n, d)); }
    else if ((int)i == thrower && e[i].find("boom") == std::string::npos) mc::Fail("lost", fmt::format("the failure of party {} is reported as '{}': {}", i, e[i], d));
    else if ((int)i != thrower && e[i].empty()) mc::Fail("unaware", fmt::format("party {} returned normally: {}", i, d));
  }
  mc::Out("ok"); mc::Nontrivial(lib::H(d)); mc::Sample(d);
}
// ---------------------------------------------------------------- bucketing
static void Bucket(int a, int b, bool bc, int rot = 0) {   // bit k: key k present; extra duplicates derived from the key; the sender stores its keys from the rot-th on (backwards if odd)
  auto dir = mc::ScratchDir(); const char* K[] = {"k0", "k,1", "k\"2", "", "k4"};
  std::vector<std::map<uint64_t, uint64_t>> out(2); std::vector<int> opt(2, -1); int m[2] = {a, b};
  std::vector<std::map<std::string, std::pair<uint64_t, uint32_t>>> own(2);
  auto e = Par(2, [&](size_t i, auto c) {
    HashBucketCache hc(dir, 1, true); uint64_t idx = 0;
    for (int q = 0; q < 5; ++q) if (int k = i ? (rot & 1 ? 9 - q + rot / 2 : q + rot / 2) % 5 : q; m[i] >> k & 1) { uint32_t dc = (k + (int)i) % 3; hc.WriteItem(K[k], dc); own[i][absl::Base64Escape(K[k])] = {idx++, dc}; }
    hc.Flush();
    auto r = PrepareBucketData(v2::PROTOCOL_KKRT, 0, c, &hc); opt[i] = r.has_value();
    if (!r) return;
    CalcBucketItemSecHash(*r);
    for (auto& x : *r) for (auto& y : *r) if ((x.sec_hash == y.sec_hash) != (x.base64_data == y.base64_data)) mc::Fail("sec-hash", x.base64_data + y.base64_data);
    std::string f = dir + "/idx" + S(i);
    IndexWriter w(f, 16, true);
    if (i == 0) {   // receiver: the protocol hands it the matching items and the peer's extra counts
      std::vector<HashBucketCache::BucketItem> res; std::vector<uint32_t> peer;
      for (auto& x : *r) for (int k = 0; k < 5; ++k) if (absl::Base64Escape(K[k]) == x.base64_data && (b >> k & 1)) { res.push_back(x); peer.push_back((k + 1) % 3); }
      HandleBucketResultByReceiver(bc, c, res, peer, &w);
    } else HandleBucketResultBySender(bc, c, *r, &w);
    w.Close();
    FileIndexReader rd(f); while (auto v = rd.GetNextWithPeerCnt()) { if (out[i].count(v->first)) mc::Fail("twice", S(v->first)); out[i][v->first] = v->second; }
  });
  auto d = fmt::format("receiver keys {:05b}, sender keys {:05b} in order {}, broadcast {}", a, b, rot, bc);
  NoErr(e, d);
  bool want = a && b;
  for (int i = 0; i < 2; ++i) {
    if (opt[i] != want) mc::Fail("skip", fmt::format("party {} {} the bucket: {}", i, opt[i] ? "runs" : "skips", d));
    std::map<uint64_t, uint64_t> x;
    if (want && (i == 0 || bc)) for (auto& [k, v] : own[i]) if (own[1 - i].count(k)) x[v.first] = own[1 - i][k].second;
    if (out[i] != x) mc::Fail("indices", fmt::format("party {} stores {} expected {}: {}", i, out[i], x, d));
  }
  mc::Out("ok"); mc::Nontrivial(lib::H(d)); mc::Sample(d);
}
static void Hbc(int n, int buckets) {   // every item is in exactly one bucket, equal items share a bucket, order and counts survive
  auto dir = mc::ScratchDir() + "/hbc"; Strs it; for (int i = 0; i < n; ++i) it.push_back(i % 7 == 6 ? std::string(i % 5, '\0') + "\n," + S(i) : "id" + S(i * i));
  HashBucketCache a(dir, buckets, true), b(dir, buckets, true);
  for (int i = 0; i < n; ++i) a.WriteItem(it[i], i % 4);
  a.Flush();
  for (int i = n - 1; i >= 0; --i) b.WriteItem(it[i]);
  b.Flush();
  if (a.ItemCount() != (uint64_t)n || a.BucketNum() != (uint32_t)buckets) mc::Fail("count", S(n));
  std::set<uint64_t> seen;
  for (int k = 0; k < buckets; ++k) {
    auto x = a.LoadBucketItems(k), y = b.LoadBucketItems(k); std::set<std::string> sx, sy;
    for (auto& v : x) { sx.insert(v.base64_data); if (!seen.insert(v.index).second || v.index >= (uint64_t)n) mc::Fail("index", S(v.index)); std::string raw; absl::Base64Unescape(v.base64_data, &raw); if (raw != it[v.index] || v.extra_dup_cnt != v.index % 4) mc::Fail("item", fmt::format("item {} comes back as '{}' x {}", v.index, raw, v.extra_dup_cnt)); }
    for (auto& v : y) sy.insert(v.base64_data);
    if (sx != sy) mc::Fail("placement", fmt::format("bucket {} depends on the insertion order", k));
    for (size_t q = 1; q < x.size(); ++q) if (x[q].index <= x[q - 1].index) mc::Fail("order", S(k));
  }
  if (seen.size() != (size_t)n) mc::Fail("lost", fmt::format("{} of {} items", seen.size(), n));
  mc::Count(n); mc::Nontrivial(n * 100 + buckets); mc::Sample(fmt::format("{} items in {} buckets", n, buckets));
}
static void HbcProv(int n, size_t batch, int buckets) {
  auto dir = mc::ScratchDir() + "/hbc"; Strs it; lib::Rows rows; for (int i = 0; i < n; ++i) { it.push_back("v" + S(i)); rows.push_back({"z" + S(i), it.back()}); }
  lib::WriteCsv(mc::ScratchDir() + "/in.csv", {"o", "id"}, rows);
  for (int kind = 0; kind < 2; ++kind) {
    auto c = kind ? CreateCacheFromCsv(mc::ScratchDir() + "/in.csv", {"id"}, dir, buckets, batch) : CreateCacheFromProvider(std::make_shared<MemoryBatchProvider>(it, batch), dir, buckets);
    if (c->ItemCount() != (uint64_t)n) mc::Fail("count", fmt::format("{} of {}", c->ItemCount(), n));
    std::map<uint64_t, std::string> got; for (int k = 0; k < buckets; ++k) for (auto& v : c->LoadBucketItems(k)) { std::string raw; absl::Base64Unescape(v.base64_data, &raw); got[v.index] = raw; }
    for (int i = 0; i < n; ++i) if (!got.count(i) || got[i] != it[i]) mc::Fail("item", fmt::format("item {} of {} (batch {}, {} buckets)", i, n, batch, buckets));
  }
  mc::Count(n); mc::Nontrivial(n * 10000 + batch * 100 + buckets);
}
// ---------------------------------------------------------------- batch providers
static Strs Items(int n) { Strs v; for (int i = 0; i < n; ++i) v.push_back("i" + S(i)); return v; }
static void Providers(int n, size_t batch) {
  auto d = fmt::format("{} rows, batch size {}", n, batch); auto it = Items(n); Strs lab; for (int i = 0; i < n; ++i) lab.push_back("l" + S(i));
  auto drain = [&](auto&& next, const char* w) { size_t k = 0; Strs all; for (;;) { Strs b = next(); if (b.size() > batch) mc::Fail("too-big", fmt::format("{}: batch of {}: {}", w, b.size(), d)); if (b.empty()) break; if (b.size() < batch && all.size() + b.size() < (size_t)n) mc::Fail("short", fmt::format("{}: batch {} has {} items: {}", w, k, b.size(), d)); for (auto& x : b) all.push_back(x); ++k; } return all; };
  { MemoryBatchProvider p(it, batch, lab); if (drain([&] { return p.ReadNextBatch(); }, "memory") != it) mc::Fail("memory", d); if (!p.ReadNextBatch().empty()) mc::Fail("after-end", d); }
  if (n) { MemoryBatchProvider p(it, batch, lab); Strs ls; if (drain([&] { auto [a, b] = p.ReadNextLabeledBatch(); if (a.size() != b.size()) mc::Fail("labels", d); for (auto& x : b) ls.push_back(x); return a; }, "labeled") != it || ls != lab) mc::Fail("labels", d); }
  if (n) for (int seed = 0; seed < 3; ++seed) {
    MemoryBatchProvider p(it, batch, lab, true); std::set<size_t> seen; size_t pos = 0;
    for (;;) { auto b = p.ReadNextShuffledBatch(); if (b.batch_items.empty()) break; for (size_t k = 0; k < b.batch_items.size(); ++k) { if (b.batch_indices[k] != pos++ || !seen.insert(b.shuffled_indices[k]).second || it.at(b.shuffled_indices[k]) != b.batch_items[k] || p.shuffled_indices()[pos - 1] != b.shuffled_indices[k]) mc::Fail("shuffled", d); } }
    if (seen.size() != (size_t)n) mc::Fail("shuffled-lost", d);
  }
  auto f = mc::ScratchDir() + "/p.csv"; lib::Rows rows; Strs want, wl; for (int i = 0; i < n; ++i) { rows.push_back({"a" + S(i), i % 3 == 1 ? "x,\"y" + S(i) : "b" + S(i % 2), "c" + S(i)}); want.push_back(rows.back()[2] + "," + rows.back()[0]); wl.push_back(rows.back()[1] + "," + rows.back()[0]); }
  lib::WriteCsv(f, {"A", "B", "C"}, rows, 1);
  { ArrowCsvBatchProvider p(f, {"C", "A"}, batch); if (drain([&] { return p.ReadNextBatch(); }, "csv") != want) mc::Fail("csv", d); if (!p.ReadNextBatch().empty() || !p.ReadNextBatch().empty()) mc::Fail("csv-after-end", d); }
  { ArrowCsvBatchProvider p(f, {"C", "A"}, batch, {"B"}); Strs ls, w2; for (auto& r : rows) w2.push_back(r[1]); if (drain([&] { auto [a, b] = p.ReadNextLabeledBatch(); if (a.size() != b.size()) mc::Fail("csv-labels", d); for (auto& x : b) ls.push_back(x); return a; }, "csv labeled") != want || ls != w2) mc::Fail("csv-labels", d); }
  // shuffled reader over readers with their own batch size: bijection, indices aligned, duplicate counts attached
  struct Dup : IBasicBatchProvider { Strs it; size_t b, pos = 0; Dup(Strs i, size_t b) : it(std::move(i)), b(b) {} size_t batch_size() const override { return b; } Strs ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
    std::pair<Strs, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override { Strs o; std::unordered_map<uint32_t, uint32_t> m; for (; o.size() < b && pos < it.size(); ++pos) { if (pos % 3) m[o.size()] = pos % 3; o.push_back(it[pos]); } return {o, m}; } };
  for (size_t src : {(size_t)1, (size_t)2, (size_t)3, batch, 2 * batch, batch + 1}) {
    SimpleShuffledBatchProvider p(std::make_shared<Dup>(it, src), batch); std::set<size_t> seen; size_t pos = 0;
    for (;;) {
      auto b = p.ReadNextShuffledBatch(); size_t m = b.batch_items.size(); if (b.batch_indices.size() != m || b.shuffled_indices.size() != m || b.dup_cnts.size() != m || m > batch) mc::Fail("shuffle-shape", fmt::format("source batch {}: {}", src, d));
      if (!m) break;
      for (size_t k = 0; k < m; ++k) { size_t s = b.shuffled_indices[k]; if (b.batch_indices[k] != pos++) mc::Fail("shuffle-index", fmt::format("source batch {}: {}", src, d)); if (s >= it.size() || !seen.insert(s).second || it[s] != b.batch_items[k]) mc::Fail("shuffle-item", fmt::format("source batch {}: item '{}' reported at row {}: {}", src, b.batch_items[k], s, d)); if (b.dup_cnts[k] != s % 3) mc::Fail("shuffle-dup", fmt::format("source batch {}: row {} has {} extra copies: {}", src, s, b.dup_cnts[k], d)); }
    }
    if (seen.size() != (size_t)n) mc::Fail("shuffle-lost", fmt::format("source batch {}: {} of {} rows: {}", src, seen.size(), n, d));
  }
  mc::Count(n * 12); mc::Out("ok"); mc::Nontrivial(n * 1000 + batch); mc::Sample(d);
}
// ---------------------------------------------------------------- key tables
static void KeyTab(std::vector<int> mult, int order, size_t batch, bool two) {
  auto dir = mc::ScratchDir(); static int run = 0; auto pre = dir + "/t" + S(run++); lib::Rows rows; int u = 0; Strs K{"b", "a", "c10", "c9"};
  for (size_t k = 0; k < mult.size(); ++k) for (int j = 0; j < mult[k]; ++j) rows.push_back({S(u++), K[k], two ? "q" + S(j % 2) : "q"});
  for (int k = 0; k < order; ++k) std::next_permutation(rows.begin(), rows.end());
  lib::WriteCsv(pre + ".csv", {"n", "id", "t"}, rows);
  Strs keys = two ? Strs{"t", "id"} : Strs{"id"}; auto d = fmt::format("multiplicities {} order {} batch {} keys {}", mult, order, batch, keys);
  std::map<std::string, int> cnt; for (auto& r : rows) ++cnt[two ? r[2] + "," + r[1] : r[1]];
  auto t = Table::MakeFromCsv(pre + ".csv"); auto st = SortedTable::Make(t, pre + ".s", keys); auto ki = KeyInfo::Make(st, pre + ".k");
  auto sorted = lib::ParseCsv(lib::ReadFile(pre + ".s")); auto orig = rows; Strs h = sorted.at(0); sorted.erase(sorted.begin());
  if (h != Strs{"n", "id", "t"}) mc::Fail("header", d);
  auto key = [&](auto& r) { return two ? r[2] + "," + r[1] : r[1]; };
  { auto a = sorted, b = orig; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) mc::Fail("sort-rows", d); for (size_t i = 1; i < sorted.size(); ++i) { if (key(sorted[i]) < key(sorted[i - 1])) mc::Fail("sort-order", d); if (key(sorted[i]) == key(sorted[i - 1])) { auto p = [&](auto& r) { return std::find(orig.begin(), orig.end(), r) - orig.begin(); }; if (p(sorted[i]) < p(sorted[i - 1])) mc::Fail("sort-stable", d); } } }
  uint64_t dupk = 0; for (auto& [k, c] : cnt) dupk += c > 1;
  if (ki->OriginCnt() != rows.size() || ki->KeyCnt() != cnt.size() || ki->DupKeyCnt() != dupk) mc::Fail("key-counts", fmt::format("{} rows, {} keys, {} duplicated (expected {} {} {}): {}", ki->OriginCnt(), ki->KeyCnt(), ki->DupKeyCnt(), rows.size(), cnt.size(), dupk, d));
  auto p = ki->GetKeysProviderWithDupCnt(batch); std::map<std::string, int> got;
  for (;;) { auto [b, dc] = p->ReadNextBatchWithDupCnt(); if (b.empty()) break; if (b.size() > batch) mc::Fail("batch", d); for (size_t i = 0; i < b.size(); ++i) { if (got.count(b[i])) mc::Fail("key-twice", b[i] + d); got[b[i]] = 1 + (dc.count(i) ? dc[i] : 0); } }
  if (got != cnt) mc::Fail("keys", fmt::format("{} expected {}: {}", got, cnt, d));
  mc::Count(rows.size()); mc::Out("ok"); mc::Nontrivial(lib::H(d)); mc::Sample(d);
}
// groups of equal keys around the borders of the batches in which a sorted table is read and written
static void KeyTabBorder(uint64_t border, uint32_t cuts) {
  auto pre = mc::ScratchDir() + "/b"; std::vector<uint32_t> start, dup; const int W = 8; uint64_t n = 2 * border + 3;
  std::string csv = "id,n\n"; std::vector<std::string> want; char b[40]; uint32_t g = 0;
  for (uint64_t i = 0; i < n; ++i) {   // a new group begins at row i unless i lies near a border and its bit is clear
    bool cut = i == 0; if (i) { int64_t o = (int64_t)i - (int64_t)border, o2 = (int64_t)i - 2 * (int64_t)border; int64_t q = std::llabs(o) <= W / 2 ? o : std::llabs(o2) <= W / 2 ? o2 : 99; cut = q == 99 || (cuts >> (q + W / 2) & 1); }
    if (cut) { g = (uint32_t)i; snprintf(b, 40, "k%08u", g); want.push_back(b); start.push_back(g); dup.push_back(0); } else ++dup.back();
    snprintf(b, 40, "k%08u,%lu\n", g, (unsigned long)i); csv += b;
  }
  { std::ofstream o(pre + ".csv"); o << csv; }
  auto d = fmt::format("{} rows, border {}, groups {:09b}", n, border, cuts);
  auto st = SortedTable::Make(Table::MakeFromCsv(pre + ".csv"), pre + ".s", {"id"}); auto ki = KeyInfo::Make(st, pre + ".k");
  uint64_t dk = 0; for (auto x : dup) dk += x > 0;
  if (ki->OriginCnt() != n || ki->KeyCnt() != want.size() || ki->DupKeyCnt() != dk) mc::Fail("key-counts", fmt::format("{} rows, {} keys, {} duplicated, expected {} {} {}: {}", ki->OriginCnt(), ki->KeyCnt(), ki->DupKeyCnt(), n, want.size(), dk, d));
  std::shared_ptr<KeysInfoProvider> p = ki->GetBatchProvider(4093); std::vector<std::string> k; std::vector<uint32_t> s, c;
  for (;;) { auto x = p->ReadBatchWithInfo(); if (x.keys.empty()) break; k.insert(k.end(), x.keys.begin(), x.keys.end()); s.insert(s.end(), x.start_indexes.begin(), x.start_indexes.end()); c.insert(c.end(), x.dup_cnts.begin(), x.dup_cnts.end()); }
  if (k != want) mc::Fail("keys", fmt::format("{} keys, expected {}: {}", k.size(), want.size(), d));
  if (s != start) mc::Fail("start-rows", d);
  if (c != dup) mc::Fail("duplicates", d);
  mc::Count(n); mc::Out("ok"); mc::Nontrivial(lib::H(d)); mc::Sample(d);
}
// ---------------------------------------------------------------- index store
static void Index(int batches, size_t cache, bool trunc, int pre) {
  auto f = mc::ScratchDir() + "/index.csv"; static int run = 0; f += S(run++); std::vector<std::pair<uint64_t, uint64_t>> want; auto d = fmt::format("batches {:x}, cache {}, truncate {}, {} old rows", batches, cache, trunc, pre);
  if (pre) { IndexWriter w(f, 4, true); for (int i = 0; i < pre; ++i) { w.WriteCache(1000 + i, i); if (!trunc) want.push_back({1000 + i, i}); } w.Commit(); w.Close(); }
  { IndexWriter w(f, cache, trunc); uint64_t total = 0;
    for (int b = batches; b; b >>= 2) { int m = b & 3; std::vector<uint64_t> ix, cn; for (int k = 0; k < m; ++k) { ix.push_back(k == 2 ? ~0ull >> 1 : total * 3 + k); cn.push_back(k == 1 ? 0 : total); }
      if (m == 1) { if (w.WriteCache(ix) != total + 1) mc::Fail("write-count", d); cn[0] = 0; } else w.WriteCache(ix, cn);
      total += m; for (int k = 0; k < m; ++k) want.push_back({ix[k], cn[k]});
      if (m != 2) { w.Commit(); if (w.cache_cnt()) mc::Fail("cache-count", d); FileIndexReader r(f); size_t n = 0; while (r.GetNext()) ++n; if (n != want.size()) mc::Fail("commit", fmt::format("{} of {} committed rows are readable: {}", n, want.size(), d)); } }
    if (w.write_cnt() != total) mc::Fail("write-count", d); }
  std::vector<std::pair<uint64_t, uint64_t>> got; FileIndexReader r(f);
  while (r.HasNext()) { if (!r.HasNext()) mc::Fail("has-next", d); got.push_back(*r.GetNextWithPeerCnt()); if (r.read_cnt() != got.size()) mc::Fail("read-count", d); }
  if (r.GetNext() || r.GetNextWithPeerCnt()) mc::Fail("past-end", d);
  if (got != want) mc::Fail("content", fmt::format("{} expected {}: {}", got, want, d));
  std::vector<uint32_t> mi, mcnt; for (size_t i = 0; i < want.size(); ++i) { mi.push_back((i * 7 + 3) % 31); mcnt.push_back(i); }
  MemoryIndexReader m(mi, mcnt); std::map<uint32_t, std::multiset<uint32_t>> mw; for (size_t i = 0; i < mi.size(); ++i) mw[mi[i]].insert(mcnt[i]); uint64_t last = 0; size_t n = 0;
  while (m.HasNext()) { auto v = *m.GetNextWithPeerCnt(); if (v.first < last || !mw[v.first].count(v.second)) mc::Fail("memory", d); mw[v.first].erase(mw[v.first].find(v.second)); last = v.first; ++n; }
  if (n != mi.size() || m.GetNext()) mc::Fail("memory-count", d);
  mc::Count(want.size()); mc::Nontrivial(lib::H(d)); mc::Sample(d);
}
// ---------------------------------------------------------------- serialisation
static void Serial() {
  uint64_t n = 0;
  std::vector<uint64_t> sz{0, 1, 127, 128, 255, 256, 16383, 16384, 1u << 31, (1ull << 32) - 1, 1ull << 32, ~0ull >> 1, ~0ull};
  for (auto v : sz) { if (utils::DeserializeSize(utils::SerializeSize(v)) != v) mc::Fail("size", S(v)); ++n; }
  for (uint32_t m = 0; m < (1u << 13); ++m) { std::vector<uint64_t> a; std::vector<uint32_t> b; for (int i = 0; i < 13; ++i) if (m >> i & 1) { a.push_back(sz[i]); b.push_back(sz[i]); } if (utils::DeserializeIndexes<uint64_t>(utils::SerializeIndexes(a)) != a || utils::DeserializeIndexes<uint32_t>(utils::SerializeIndexes(b)) != b) mc::Fail("indexes", S(a)); ++n; }
  Strs pool{"", "a", std::string(1, '\0'), std::string("x\0y", 3), "\xff\xfe", std::string(300, 'q'), "中"};
  for (uint32_t m = 0; m < (1u << 14); ++m) { Strs a; std::unordered_map<uint64_t, uint32_t> d; for (int i = 0; i < 7; ++i) { if (m >> i & 1) a.push_back(pool[i]); if (m >> (7 + i) & 1) d[i == 6 ? ~0ull : i * 100] = i == 5 ? ~0u : i; }
    Strs b; std::unordered_map<uint64_t, uint32_t> e; utils::DeserializeStrItems(utils::SerializeStrItems(a, d), &b, &e); if (a != b || d != e) mc::Fail("items", fmt::format("{}", m)); if (utils::DeserializeItemsCnt(utils::SerializeItemsCnt(d)) != d) mc::Fail("counts", S(m)); mc::Nontrivial(m); ++n; }
  for (uint64_t a = 1; a <= 2000; ++a) for (uint64_t b : {1ull, 2ull, 3ull, 255ull, 256ull, 257ull, 1ull << 20, (1ull << 20) + 1, 1ull << 32}) { uint64_t k = utils::GetCompareBytesLength(a, b); int la = 0, lb = 0; while ((1ull << la) < a) ++la; while ((1ull << lb) < b) ++lb; if (k != (uint64_t)(la + lb + 40 + 7) / 8) mc::Fail("compare-bytes", fmt::format("{} x {}: {}", a, b, k)); ++n; }
  mc::Count(n); mc::Sample(fmt::format("{} round trips", n));
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "utils");
  std::string what = getenv("UT_SET") ? getenv("UT_SET") : "all";
  auto on = [&](const char* x) { return what == "all" || what == x; };
  int T = s.Tier(0, 1); mc::Opts o; o.sched = false; o.cpu_s = 300; mc::Opts c; c.delays = 0; mc::Opts c1; c1.delays = s.Tier(1, 2);
  if (on("cuckoo")) {
    for (auto [n, h, v, sc, st] : std::vector<std::tuple<int, int, int, double, int>>{{2, 3, 4, 2.0, 0}, {2, 3, 2, 1.0, 2}, {2, 3, 2, 1.0, 1}, {3, 2, 4, 1.4, 3}, {3, 2, 4, 1.4, 0}, {3, 2, 3, 1.0, 1}, {3, 3, 4, 1.34, 3}, {3, 3, 3, 1.0, 2}, {4, 2, 4, 1.0, 4}, {4, 2, 4, 1.25, 1}, {4, 3, 2, 1.0, 2}, {5, 2, 3, 1.0, 5}})
      for (int p = 0; p < 8; ++p) s.Add(fmt::format("cuckoo:{}x{}v{}s{}st{}:{}", n, h, v, sc, st, p), o, [=] { CuckooEnum(n, h, v, sc, st, p, T ? 8 : n >= 4 ? 24 : 8); });
    for (int b = 0; b < 8; ++b) s.Add(fmt::format("cuckoo-sizes:{}", b), o, [=] { for (uint64_t n = 1 + b; n <= (T ? 3000 : 700); n += 8) for (uint64_t sd = 1; sd <= (T ? 5 : 2); ++sd) { CuckooBig(n, 0, 0, sd); CuckooBig(n, 8, 1.2, sd); CuckooBig(n, 2, 1.5, sd); } });
  }
  if (on("dp")) {
    for (double e : {0.01, 0.1, 0.5, 0.9, 1.0, 2.0, 3.0, 4.0, 8.0}) s.Add(fmt::format("gauss:{}", e), o, [=] { DpGauss(e); });
    for (int b = 0; b < 8; ++b) s.Add(fmt::format("split:{}", b), o, [=] { for (size_t n = 100 + b; n <= (T ? 20000 : 4000); n += 8) DpEps(n); for (size_t n : {100000 + b, 1000000 + b, 20000000 + b}) DpEps(n); mc::Sample("budget split, sizes = " + S(b) + " mod 8"); });
  }
  if (on("coll")) {
    for (size_t n = 2; n <= 3; ++n) { size_t top = n == 2 ? 6 : 3, tot = 1; for (size_t i = 0; i < n; ++i) tot *= top + 1; for (size_t x = 0; x < tot; ++x) { std::vector<size_t> z; for (size_t i = 0, y = x; i < n; ++i, y /= top + 1) z.push_back(y % (top + 1)); for (size_t bs : {1, 2, 3}) s.Add(fmt::format("sizes:{}:{}", fmt::join(z, "."), bs), c, [=] { Sizes(z, bs); }); } }
    s.Add("sizes:big", c, [] { Sizes({1ull << 40, 3}, 1 << 20); Sizes({1ull << 20, (1ull << 20) + 1}, 1 << 20); Sizes({7, 8, 9, 10}, 4); });
    for (size_t n = 2; n <= 4; ++n) for (uint32_t h = 0; h < (1u << n); ++h) for (int it = 0; it <= 3; ++it) for (int dup = 0; dup < (1 << it); ++dup) { if (__builtin_popcount(h) > 1 && (dup || it != 2)) continue; s.Add(fmt::format("bcast:{}:{:b}:{}:{}", n, h, it, dup), c1, [=] { Bcast(n, h, it, dup); }); }
    for (size_t n = 2; n <= 4; ++n) for (int ord = 0; ord < (1 << (2 * n)); ++ord) { if (n == 2 && ord) continue; if (!T && n == 4 && ord % 3) continue; s.Add(fmt::format("p2p:{}:{:x}", n, ord), c, [=] { P2P(n, ord); }); }
    mc::Opts ce = c1; ce.delays = s.Tier(1, 2);
    for (size_t n = 2; n <= 3; ++n) for (int sl = 0; sl < (1 << (2 * n)); ++sl) s.Add(fmt::format("syncwait:{}:{:x}", n, sl), n == 2 ? ce : c, [=] { Wait(n, sl, -1); });
    for (size_t n = 2; n <= 3; ++n) for (int sl : {0, 1, 4, 5}) for (int t = 0; t < (int)n; ++t) s.Add(fmt::format("syncwait-throw:{}:{:x}:{}", n, sl, t), c, [=] { Wait(n, sl, t); });
  }
  if (on("bucket")) {
    for (int a = 0; a < 32; ++a) for (int b = 0; b < 32; ++b) for (int bc = 0; bc < 2; ++bc) s.Add(fmt::format("bucket:{}:{}:{}", a, b, bc), c, [=] { Bucket(a, b, bc); });
    for (int a = 1; a < 32; ++a) for (int b = 1; b < 32; ++b) if (T || (b & a) == b) s.Add(fmt::format("bucket-order:{}:{}", a, b), c, [=] { for (int k = 1; k < 10; ++k) Bucket(a, b, true, k); });
    for (int k = 1; k <= 9; ++k) s.Add(fmt::format("hbc:{}", k), o, [=] { for (int n : {0, 1, 2, 3, 8, 20, 100}) Hbc(n, k); });
    for (int n = 0; n <= 12; ++n) s.Add(fmt::format("hbc-provider:{}", n), c, [=] { for (size_t b = 1; b <= 13; b += (b < 4 ? 1 : 3)) for (int k : {1, 3}) HbcProv(n, b, k); });
    s.Add("hash-equal", o, [] { std::vector<std::string> v{"", "a", "b", std::string(1, '\0'), "ab"}; for (auto& a : v) for (auto& b : v) for (auto& d : v) { auto B = [](const std::string& x) { return yacl::Buffer(x.data(), x.size()); }; if (HashListEqualTest({B(a)}) != true || HashListEqualTest({B(a), B(b)}) != (a == b) || HashListEqualTest({B(a), B(b), B(d)}) != (a == b && b == d)) mc::Fail("hash-equal", a + "|" + b + "|" + d); mc::Count(3); } });
  }
  if (on("batch")) {
    for (int n = 0; n <= (T ? 24 : 13); ++n) for (size_t b = 1; b <= (T ? 25 : 14); ++b) s.Add(fmt::format("providers:{}:{}", n, b), c, [=] { Providers(n, b); });
    { mc::Opts cs = c1; cs.delays = s.Tier(2, 3); for (int n : {3, 4}) s.Add(fmt::format("providers-sched:{}", n), cs, [=] { Providers(n, 2); }); }
  }
  if (on("keytab")) for (uint32_t q = 0; q < 512; q += T ? 1 : 3) s.Add(fmt::format("keytab-border:{}", q), c, [=] { KeyTabBorder(kBatchSize, q); });
  if (on("keytab")) for (auto& m : lib::Mults(T ? 4 : 3, 3)) for (int ord : {0, 1, 5, 17}) for (int two = 0; two < 2; ++two) { int t = 0; for (int x : m) t += x; if (!t) continue; s.Add(fmt::format("keytab:{}:{}:{}", fmt::join(m, ""), ord, two), c, [=] { for (size_t b : {1, 2, 3, 100}) KeyTab(m, ord, b, two); }); }
  if (on("index")) for (int pre : {0, 2}) for (int tr = 0; tr < 2; ++tr) for (size_t cache : {1, 2, 1024}) s.Add(fmt::format("index:{}:{}:{}", pre, tr, cache), o, [=] { for (int b = 0; b < (T ? 1024 : 256); ++b) Index(b, cache, tr, pre); });
  if (on("serial")) s.Add("serial", o, Serial);
  return s.Run();
}
