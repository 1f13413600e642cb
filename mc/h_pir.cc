// Private information retrieval engines (Spiral, SimplePIR, Piano, PPS) and the PIR database layout:
// every index of every bounded database, every short query history, both transports.
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <sstream>
#include "experiment/pir/piano/client.h"
#include "experiment/pir/piano/server.h"
#include "experiment/pir/pps/client.h"
#include "experiment/pir/pps/receiver.h"
#include "experiment/pir/pps/sender.h"
#include "experiment/pir/pps/server.h"
#include "experiment/pir/simplepir/client.h"
#include "experiment/pir/simplepir/network_util.h"
#include "experiment/pir/simplepir/server.h"
#include "psi/algorithm/pir_interface/pir_db.h"
#include "psi/algorithm/spiral/arith/ntt.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/spiral_server.h"
#include "psi/algorithm/spiral/util.h"
#include "psilib.h"
#include "yacl/utils/parallel.h"
static bool g_quick = true;
static uint64_t M64(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
using Bytes = std::vector<uint8_t>;
static std::string Hex(const Bytes& b) { std::string s; for (size_t i = 0; i < b.size() && i < 16; ++i) s += fmt::format("{:02x}", b[i]); return s + (b.size() > 16 ? ".." : ""); }
// byte `j` of entry `i`; kind 0 random, 1 all zero, 2 all ones, 3 one-hot row, 4 index
static Bytes Row(uint64_t i, size_t len, uint64_t kind, uint64_t seed) {
  Bytes b(len);
  for (size_t j = 0; j < len; ++j) b[j] = kind == 0 ? (uint8_t)M64(seed * 1315423911u + i * 65537 + j) : kind == 1 ? 0 : kind == 2 ? 0xff : kind == 3 ? (i % 3 == 0 ? 0xff : 0) : (uint8_t)(j < 4 ? (i >> (8 * (j % 4))) : j);
  return b;
}

// ---------------------------------------------------------------- database layout
static void Layout(size_t rows) {
  uint64_t n = 0;
  for (size_t len = 1; len <= (g_quick ? 24u : 48u); ++len) for (size_t part = 1; part <= len + 2; ++part) {
    std::vector<Bytes> db; for (size_t i = 0; i < rows; ++i) db.push_back(Row(i, len, 0, len));
    psi::pir::RawDatabase raw(db);
    auto subs = raw.Partition(part);
    size_t want = len <= part ? 1 : (len + part - 1) / part;
    if (subs.size() != want) { mc::Fail("parts", fmt::format("len {} part {}: {} parts", len, part, subs.size())); return; }
    for (size_t r = 0; r < rows; ++r) {
      std::vector<Bytes> pieces;
      for (auto& s : subs) { if (s.Rows() != rows) mc::Fail("rows", fmt::format("len {} part {} rows {}", len, part, s.Rows())); pieces.push_back(s.At(r)); }
      if (psi::pir::RawDatabase::Combine(pieces, len) != db[r]) { mc::Fail("roundtrip", fmt::format("rows {} len {} part {} row {}", rows, len, part, r)); return; }
      ++n;
    }
    mc::Nontrivial(len * 100 + part);
  }
  mc::Count(n); mc::Sample(fmt::format("{} rows, every row length and part length", rows));
}
static void Coeffs(size_t logt) {   // bytes -> plaintext coefficients -> bytes at every offset and size
  uint64_t n = 0; size_t L = g_quick ? 20 : 40;
  for (uint64_t kind : {0, 2, 3}) {
    Bytes b = Row(logt, L, kind, 7);
    for (size_t off = 0; off < L; ++off) for (size_t sz = 1; off + sz <= L; ++sz) {
      auto c = psi::spiral::util::ConvertBytesToCoeffs(logt, off, sz, b);
      for (auto v : c) if (logt < 64 && (v >> logt)) mc::Fail("range", fmt::format("logt {} off {} size {}: coefficient {}", logt, off, sz, v));
      auto back = psi::spiral::util::ConvertCoeffsToBytes(c, logt);
      if (back.size() < sz || !std::equal(b.begin() + off, b.begin() + off + sz, back.begin())) { mc::Fail("coeffs", fmt::format("logt {} off {} size {}: {} -> {}", logt, off, sz, Hex(Bytes(b.begin() + off, b.begin() + off + sz)), Hex(back))); return; }
      auto back2 = psi::spiral::util::ConvertCoeffsToBytes(absl::MakeSpan(c), logt);
      if (back2 != back) { mc::Fail("coeffs-span", fmt::format("logt {} off {} size {}", logt, off, sz)); return; }
      if (logt <= 8) {
        auto c8 = psi::spiral::util::ConvertBytesToU8Coeffs(logt, off, sz, b);
        if (c8.size() != c.size() || !std::equal(c.begin(), c.end(), c8.begin())) { mc::Fail("coeffs-u8", fmt::format("logt {} off {} size {}", logt, off, sz)); return; }
      }
      ++n; mc::Nontrivial(off * 100 + sz);
    }
  }
  mc::Count(n); mc::Sample(fmt::format("{}-bit coefficients", logt));
}

// ---------------------------------------------------------------- Spiral
using psi::spiral::DatabaseMetaInfo;
static psi::spiral::Params SpParams(int which) {
  switch (which) { case 1: return psi::spiral::util::GetTestParam(); case 2: return psi::spiral::util::GetLargerParam(); case 3: return psi::spiral::util::GetFastExpansionTestingParam(); default: return psi::spiral::util::GetDefaultParam(); }
}
struct SpCase { size_t rows, len; int par; int mode; std::vector<size_t> idx; uint64_t kind; };   // mode 0 objects, 1 wire, 2 wire strings + restored server, 3 partition without reorient, 4 par sched
static void Spiral(const SpCase& c) {
  DatabaseMetaInfo info(c.rows, c.len);
  std::vector<Bytes> db; for (size_t i = 0; i < c.rows; ++i) db.push_back(Row(i, c.len, c.kind, c.rows));
  auto p = SpParams(c.par);
  p.UpdateByDatabaseInfo(info);
  psi::spiral::SpiralClient client(psi::spiral::Params(p), info);
  psi::spiral::SpiralServer server0(psi::spiral::Params(p), info);
  auto* server = &server0; std::unique_ptr<psi::spiral::SpiralServer> loaded;
  psi::pir::RawDatabase raw(db);
  if (c.mode < 2) server0.GenerateFromRawDataAndReorient(raw);
  else {   // dumped and restored; built from rows or from a table whose size the server learns late
    if (c.mode == 2) server0.GenerateFromRawData(raw); else server0.GenerateFromSimpleHashTable(raw);
    std::string f = mc::ScratchDir() + "/db";
    { std::ofstream o(f, std::ios::binary); server0.Dump(o); }
    int fd = open(f.c_str(), O_RDONLY);
    { google::protobuf::io::FileInputStream in(fd); loaded = psi::spiral::SpiralServer::Load(in); }
    close(fd);
    server = loaded.get();
  }
  psi::spiral::PublicKeys pks; yacl::Buffer pb; std::string ps;
  if (c.mode == 0) pks = client.GenPublicKeys(); else if (c.mode == 1) pb = client.GeneratePksBuffer(); else ps = client.GeneratePksString();
  size_t qlen = 0, rlen = 0; std::string prevq;
  auto idx = c.idx; if (idx.empty()) for (size_t i = 0; i < c.rows; ++i) idx.push_back(i);
  for (size_t i : idx) {
    Bytes got;
    if (c.mode == 0) got = client.DecodeResponse(server->ProcessQuery(client.GenQuery(i), pks), i);
    else {
      std::string q, r;
      if (c.mode == 1) { auto b = client.GenerateIndexQuery(i); q.assign(b.data<char>(), b.size()); auto a = server->Response(b, pb); r.assign(a.data<char>(), a.size()); }
      else { q = client.GenerateIndexQueryStr(i); r = server->Response(q, ps); }
      got = client.DecodeIndexResponse(r, i);
      if (!qlen) { qlen = q.size(); rlen = r.size(); }
      // varint-coded seed: a few bytes of slack
      if (q.size() + qlen / 50 + 16 < qlen || q.size() > qlen + qlen / 50 + 16) { mc::Fail("query-length", fmt::format("{} rows of {} bytes: the query for row {} has {} bytes, the first had {}", c.rows, c.len, i, q.size(), qlen)); return; }
      if (r.size() + rlen / 50 + 16 < rlen || r.size() > rlen + rlen / 50 + 16) { mc::Fail("response-length", fmt::format("{} rows of {} bytes: the response for row {} has {} bytes, the first had {}", c.rows, c.len, i, r.size(), rlen)); return; }
      size_t same = 0; for (size_t k = 0; k < std::min(q.size(), prevq.size()); ++k) same += q[k] == prevq[k];
      if (same > q.size() / 4) { mc::Fail("query-fresh", fmt::format("{} rows of {} bytes: {} of {} bytes of two queries agree", c.rows, c.len, same, q.size())); return; }
      prevq = q;
    }
    mc::Count(1); mc::Nontrivial(i);
    if (got != db[i]) { mc::Fail("row", fmt::format("{} rows of {} bytes, params {}, mode {}: row {} came back as {} instead of {}", c.rows, c.len, c.par, c.mode, i, Hex(got), Hex(db[i]))); return; }
  }
  mc::Sample(fmt::format("{} rows of {} bytes, params {}, mode {}, {} indices", c.rows, c.len, c.par, c.mode, idx.size()));
}
static void SpiralParams(int par) {   // every database size up to the bound has usable parameters
  size_t bound = g_quick ? 300 : 5000; std::string bad;
  auto one = [&](size_t pts) {
    auto p = SpParams(par);
    try { p.UpdateByDatabaseInfo(DatabaseMetaInfo(pts, p.MaxByteLenOfPt())); psi::spiral::Params q(p); }
    catch (const std::exception& e) { bad += fmt::format(" {}(v1 {} v2 {} g {})", pts, p.DbDim1(), p.DbDim2(), p.G()); }
    mc::Count(1); mc::Nontrivial(pts);
  };
  for (size_t n = 1; n <= bound; ++n) one(n);
  if (!bad.empty()) mc::Fail("refused", fmt::format("params {}: databases of so many plaintexts are refused: {}", par, bad.substr(0, 600)));
  mc::Sample(fmt::format("params {}: every database of 1..{} plaintexts", par, bound));
}
static void SpiralRefuse(size_t rows) {
  DatabaseMetaInfo info(rows, 16);
  auto p = SpParams(0); p.UpdateByDatabaseInfo(info);
  psi::spiral::SpiralClient client(psi::spiral::Params(p), info);
  for (uint64_t bad : std::vector<uint64_t>{rows, rows + 1, rows * 2, ~0ull}) {
    bool threw = false; try { client.GenerateIndexQuery(bad); } catch (const std::exception&) { threw = true; }
    mc::Count(1); mc::Nontrivial(bad);
    if (!threw) mc::Fail("range", fmt::format("a query for row {} of {} was produced", bad, rows));
  }
  mc::Sample(fmt::format("{} rows", rows));
}

// ---------------------------------------------------------------- SimplePIR
struct SiCase { uint64_t q, p; size_t side, dim; int radius; double sigma; };
static void Simple(const SiCase& c) {
  using namespace pir::simple;
  size_t N = c.side * c.side; uint64_t n = 0;
  for (uint64_t kind = 0; kind < 3; ++kind) for (uint64_t seed = 0; seed < (g_quick ? 8u : 40u); ++seed) {
    shim::RngReset(seed * 10 + kind);
    SimplePirServer server(c.dim, c.q, N, c.p);
    std::vector<std::vector<uint64_t>> db(c.side, std::vector<uint64_t>(c.side));
    for (size_t i = 0; i < N; ++i) db[i / c.side][i % c.side] = kind == 0 ? M64(seed * 7919 + i) % c.p : kind == 1 ? c.p - 1 : i % c.p;
    server.SetDatabase(db);
    server.GenerateLweMatrix();
    SimplePirClient client(c.dim, c.q, N, c.p, c.radius, c.sigma);
    client.Setup(server.GetSeed(), server.GetHint());
    std::vector<size_t> order; for (size_t i = 0; i < N; ++i) order.push_back(i);
    for (size_t i = N; i-- > 0;) order.push_back(i);
    for (size_t i : order) {
      auto q = client.Query(i);
      if (q.size() != c.side) { mc::Fail("query-size", fmt::format("{} elements for a side of {}", q.size(), c.side)); return; }
      for (auto v : q) if (v >= c.q) { mc::Fail("query-range", fmt::format("query element {} >= q {}", v, c.q)); return; }
      auto a = server.Answer(q);
      uint64_t got = client.Recover(a), want = db[i / c.side][i % c.side];
      ++n; mc::Nontrivial(kind * 1000 + i);
      if (server.GetValue(i) != want) { mc::Fail("get", fmt::format("GetValue({})", i)); return; }
      if (got != want) { mc::Fail("value", fmt::format("q={} p={} {}x{} dim {}: element {} recovered as {} instead of {}", c.q, c.p, c.side, c.side, c.dim, i, got, want)); return; }
    }
  }
  // privacy: the row is never part of the query; the same query is never sent twice
  {
    shim::RngReset(99);
    SimplePirServer server(c.dim, c.q, N, c.p);
    server.SetDatabase(std::vector<std::vector<uint64_t>>(c.side, std::vector<uint64_t>(c.side, 1)));
    server.GenerateLweMatrix();
    for (size_t col = 0; col < c.side; ++col) {
      std::vector<uint64_t> first;
      for (size_t row = 0; row < c.side; ++row) {
        SimplePirClient client(c.dim, c.q, N, c.p, c.radius, c.sigma);
        client.Setup(server.GetSeed(), server.GetHint());
        shim::RngReset(5);
        auto q = client.Query(row * c.side + col), q2 = client.Query(row * c.side + col);
        if (row == 0) first = q;
        else if (q != first) { mc::Fail("row-in-query", fmt::format("q={} p={} {}x{}: queries for rows 0 and {} of column {} differ", c.q, c.p, c.side, c.side, row, col)); return; }
        size_t same = 0; for (size_t i = 0; i < q.size(); ++i) same += q[i] == q2[i];
        if (same) { mc::Fail("query-fresh", fmt::format("q={} p={} {}x{}: {} elements of two queries agree", c.q, c.p, c.side, c.side, same)); return; }
        ++n;
      }
    }
  }
  mc::Count(n); mc::Sample(fmt::format("q={} p={} {}x{} dim {}", c.q, c.p, c.side, c.side, c.dim));
}

// ---------------------------------------------------------------- Piano
struct Piano {
  std::vector<Bytes> db; std::unique_ptr<pir::piano::QueryServiceServer> server; std::unique_ptr<pir::piano::QueryServiceClient> client;
  uint64_t chunk, sets; size_t esz;
  Piano(uint64_t n, uint64_t threads, size_t es, uint64_t kind, uint64_t seed) : esz(es) {
    shim::RngReset(seed);
    Bytes flat; for (uint64_t i = 0; i < n; ++i) { db.push_back(Row(i, es, kind, seed)); flat.insert(flat.end(), db.back().begin(), db.back().end()); }
    server = std::make_unique<pir::piano::QueryServiceServer>(flat, n, es);
    client = std::make_unique<pir::piano::QueryServiceClient>(n, threads, es);
    std::tie(chunk, sets) = pir::piano::GenChunkParams(n);
    for (uint64_t i = 0; i < client->GetChunkNumber(); ++i) { auto b = server->GetDBChunk(i); client->PreprocessDBChunk(b); }
  }
  std::vector<uint64_t> last;
  bool Ask(uint64_t i, const std::string& what) {
    auto q = client->GenerateIndexQuery(i);
    last = pir::piano::DeserializeSetParityQuery(q);
    mc::Count(1);
    if (last.size() != sets) { mc::Fail("query-shape", fmt::format("{}: query for {} has {} indices, not one per chunk ({})", what, i, last.size(), sets)); return false; }
    for (size_t j = 0; j < last.size(); ++j) if (last[j] / chunk != j) { mc::Fail("query-shape", fmt::format("{}: query for {}: element {} is {}, outside chunk {}", what, i, j, last[j], j)); return false; }
    auto r = server->GenerateIndexReply(q);
    auto v = client->RecoverIndexReply(r);
    const auto& d = v.GetData();
    Bytes got(d.begin(), d.end());
    if (got != db[i]) { mc::Fail("value", fmt::format("{}: entry {} came back as {} instead of {}", what, i, Hex(got), Hex(db[i]))); return false; }
    return true;
  }
};
static void PianoSweep(uint64_t n, uint64_t threads, size_t es, uint64_t kind) {
  for (int ord = 0; ord < 4; ++ord) {
    Piano p(n, threads, es, kind, ord);
    std::string w = fmt::format("{} entries of {} bytes, {} threads, order {}", n, es, threads, ord);
    std::vector<uint64_t> q;
    if (ord == 0) for (uint64_t i = 0; i < n; ++i) q.push_back(i);
    if (ord == 1) for (uint64_t i = n; i-- > 0;) { q.push_back(i); q.push_back(i); }      // every entry twice in a row
    if (ord == 2) for (uint64_t r = 0; r < 2; ++r) for (uint64_t i = 0; i < n; ++i) q.push_back((i * 7 + r) % n);
    if (ord == 3) for (uint64_t i = 0; i < n; ++i) { q.push_back(i); q.push_back(0); q.push_back(n - 1 - i); }
    for (auto i : q) if (!p.Ask(i, w)) return;
    mc::Nontrivial(n * 10 + ord);
  }
  mc::Sample(fmt::format("{} entries of {} bytes, {} threads, 4 sweep orders", n, es, threads));
}
static void PianoSeqs(uint64_t n, uint64_t len) {   // every query sequence of this length
  uint64_t total = 1; for (uint64_t i = 0; i < len; ++i) total *= n;
  for (uint64_t s = 0; s < total; ++s) {
    Piano p(n, 1, 2, 0, s % 3);
    uint64_t x = s; std::string w = "sequence"; std::vector<uint64_t> q;
    for (uint64_t i = 0; i < len; ++i) { q.push_back(x % n); w += fmt::format(" {}", x % n); x /= n; }
    for (auto i : q) if (!p.Ask(i, w)) return;
    mc::Nontrivial(s);
  }
  mc::Sample(fmt::format("all {} sequences of {} queries over {} entries", total, len, n));
}
static void PianoPrivacy(uint64_t n) {
  // each real query replaces the wanted element by an independent one and uses a fresh set
  uint64_t hits = 0, asked = 0, samepairs = 0, pairs = 0;
  std::map<uint64_t, std::map<uint64_t, int>> masks;
  for (uint64_t seed = 0; seed < (n <= 64 ? 16u : 2u); ++seed) {
    Piano p(n, 1, 1, 0, seed);
    std::vector<std::vector<uint64_t>> qs;
    for (uint64_t i = 0; i < n; ++i) {
      if (!p.Ask(i, fmt::format("{} entries", n))) return;
      ++asked; if (p.last[i / p.chunk] == i) ++hits;
      qs.push_back(p.last);
    }
    // the element put in place of the wanted one is drawn anew for every question
    uint64_t again = 0, rounds = 0;
    for (uint64_t i = 1; i < n; ++i) if ((i - 1) / p.chunk == i / p.chunk) { ++rounds; again += qs[i][i / p.chunk] == qs[i - 1][i / p.chunk]; }
    if (again > rounds * 2 / p.chunk + 14) mc::Fail("replacement", fmt::format("{} entries: {} of {} consecutive questions for one chunk use the same replacement (chunk size {})", n, again, rounds, p.chunk));
    for (size_t a = 0; a < qs.size(); ++a) for (size_t b = a + 1; b < qs.size(); ++b) {
      size_t eq = 0; for (size_t k = 0; k < qs[a].size(); ++k) eq += qs[a][k] == qs[b][k];
      ++pairs; if (p.sets >= 7 && eq + 2 >= p.sets) ++samepairs;
    }
    // repeated queries are masked: a repeat never re-sends a set related to the wanted element
    uint64_t rep_hits = 0, rep = 0;
    for (uint64_t i = 0; i < n; ++i) { if (!p.Ask(i, "repeat")) return; ++rep; if (p.last[i / p.chunk] == i) ++rep_hits; if (p.last == qs[i] && p.sets >= 4) mc::Fail("repeat", fmt::format("{} entries: the repeated query for {} is identical to the first one", n, i)); }
    if (rep_hits > rep * 3 / p.chunk + 12) mc::Fail("repeat-leak", fmt::format("{} entries: {} of {} repeated queries contain the wanted entry (chunk size {})", n, rep_hits, rep, p.chunk));
    if (seed == 0) mc::Out(std::to_string(p.chunk));
    if (hits > asked * 3 / p.chunk + 12) { mc::Fail("leak", fmt::format("{} entries: {} of {} queries contain the wanted entry (chunk size {})", n, hits, asked, p.chunk)); return; }
    mc::Nontrivial(seed);
  }
  if (samepairs > 2) mc::Fail("reuse", fmt::format("{} entries: {} of {} pairs of queries use the same set", n, samepairs, pairs));
  mc::Sample(fmt::format("{} entries: {} queries, {} contain the wanted entry, {} related pairs", n, asked, hits, samepairs));
}

// ---------------------------------------------------------------- PPS
using yacl::dynamic_bitset;
static dynamic_bitset<> Bits(uint64_t n, uint64_t kind, uint64_t seed) {
  dynamic_bitset<> b; b.resize(n);
  for (uint64_t i = 0; i < n; ++i) b[i] = kind == 0 ? (M64(seed * 31 + i) & 1) : kind == 1 ? 1 : (i % 7 == 0);
  return b;
}
static constexpr uint32_t kLambda = 100000;
struct Wire { std::vector<std::shared_ptr<yacl::link::Context>> v = lib::World(2); };
static void PpsPunc(uint64_t n, uint64_t s) {
  // puncturing: the punctured key evaluates to the set minus exactly the punctured element, also after the wire
  pir::pps::PPS pps(n, s);
  for (uint64_t seed = 0; seed < 4; ++seed) {
    shim::RngReset(seed);
    auto k = pps.Gen(kLambda);
    auto map = pps.getMap();
    std::set<uint64_t> full; pps.Eval(k, full);
    std::unordered_set<uint64_t> full2; pps.Eval(k, full2);
    if (full.size() != s || full2.size() != s) { mc::Fail("size", fmt::format("n {} s {}: set of {}", n, s, full.size())); return; }
    for (auto& [x, pos] : map) {
      if (!full.count(x) || !full2.count(x) || x >= n) { mc::Fail("map", fmt::format("n {} s {}: {}", n, s, x)); return; }
      pir::pps::PIRPuncKey pk; pps.Punc(x, k, pk);
      pk.delta_ = x + 3;
      auto buf = pir::pps::SerializeOnlineMessage(pk);
      pir::pps::PIRPuncKey rk; pir::pps::DeserializeOnlineMessage(buf, rk);
      for (auto* q : {&pk, &rk}) {
        std::set<uint64_t> got; pps.Eval(*q, got);
        auto want = full; want.erase(x);
        mc::Count(1); mc::Nontrivial(x);
        if (got != want) { mc::Fail("punctured", fmt::format("n {} s {} element {}{}: {} elements, expected {}; contains it: {}", n, s, x, q == &rk ? " after the wire" : "", got.size(), want.size(), got.count(x))); return; }
      }
      if (rk.delta_ != pk.delta_ || rk.pos_ != pk.pos_) { mc::Fail("wire", "key fields changed"); return; }
    }
  }
  mc::Sample(fmt::format("universe {} set {}", n, s));
}
static void PpsSingle(uint64_t n, uint64_t s, uint64_t kind) {
  uint64_t ok = 0, abrt = 0;
  for (uint64_t seed = 0; seed < (g_quick ? 10u : 40u); ++seed) {
    shim::RngReset(seed);
    auto bits = Bits(n, kind, seed);
    pir::pps::PpsPirClient client(kLambda, n, s); pir::pps::PpsPirServer off(n, s), on(n, s);
    pir::pps::PIRKey sk, sk2; std::set<uint64_t> deltas, deltas2;
    client.Setup(sk, deltas);
    Wire w1, w2;
    dynamic_bitset<> h, h2;
    pir::pps::ClientSendToOfflineServer(sk, deltas, w1.v[0]);
    pir::pps::OfflineServerRecvFromClient(sk2, deltas2, w1.v[1]);
    if (sk2 != sk || deltas2 != deltas) { mc::Fail("wire", fmt::format("n {} s {}: offline message changed", n, s)); return; }
    off.Hint(sk2, deltas2, bits, h);
    pir::pps::OfflineServerSendToClient(h, w1.v[1]);
    pir::pps::ClientRecvFromOfflineServer(h2, w1.v[0]);
    for (uint64_t i = 0; i < n; ++i) {
      pir::pps::PIRPuncKey pk, rk; pir::pps::PIRQueryParam prm;
      client.Query(i, sk, deltas, prm, pk);
      pir::pps::ClientSendToOnlineServer(pk, w2.v[0]);
      pir::pps::OnlineServerRecvFromClient(rk, w2.v[1]);
      bool a = on.Answer(rk, bits), a2 = false, r = false;
      pir::pps::OnlineServerSendToClient(a, w2.v[1]);
      pir::pps::ClientRecvFromOnlineServer(a2, w2.v[0]);
      auto st = client.Reconstruct(prm, h2, a2, r);
      mc::Count(1);
      if (st == PIR_ABORT) { ++abrt; continue; }
      ++ok; mc::Nontrivial(i);
      if (r != bits[i]) { mc::Fail("bit", fmt::format("universe {} set {} seed {}: bit {} came back as {}", n, s, seed, i, r)); return; }
      // what the online server learns must not contain the wanted position
      pir::pps::PPS pps(n, s); std::set<uint64_t> seen; pps.Eval(rk, seen);
      for (auto v : seen) if ((v + rk.delta_) % n == i) { mc::Fail("leak", fmt::format("universe {} set {}: the set sent for bit {} contains it", n, s, i)); return; }
      if (seen.size() != s - 1) { mc::Fail("query-shape", fmt::format("universe {} set {}: {} elements", n, s, seen.size())); return; }
    }
  }
  if (ok * 5 < abrt) mc::Fail("aborts", fmt::format("universe {} set {}: only {} of {} queries answered", n, s, ok, ok + abrt));
  mc::Sample(fmt::format("universe {} set {} kind {}: {} answered, {} aborted", n, s, kind, ok, abrt));
}
static void PpsMulti(uint64_t n, uint64_t s, uint64_t kind, int ord) {
  uint64_t ok = 0, abrt = 0;
  for (uint64_t seed = 0; seed < (g_quick ? 10u : 40u); ++seed) {
    shim::RngReset(seed);
    auto bits = Bits(n, kind, seed);
    pir::pps::PpsPirClient client(kLambda, n, s); pir::pps::PpsPirServer off(n, s), on(n, s);
    std::vector<pir::pps::PIRKeyUnion> ck, ck2; std::vector<std::unordered_set<uint64_t>> v;
    client.Setup(ck, v);
    Wire w1, w2;
    pir::pps::ClientSendToOfflineServerM(ck, w1.v[0]);
    pir::pps::OfflineServerRecvFromClientM(ck2, w1.v[1]);
    dynamic_bitset<> h, h2;
    off.Hint(ck2, bits, h);
    pir::pps::OfflineServerSendToClient(h, w1.v[1]);
    pir::pps::ClientRecvFromOfflineServer(h2, w1.v[0]);
    for (uint64_t k = 0; k < 2 * n; ++k) {
      uint64_t i = ord == 0 ? k % n : ord == 1 ? (2 * n - 1 - k) % n : ord == 2 ? k / 2 : (k * 5 + k / n) % n;
      pir::pps::PIRPuncKey l, r, l2, r2; pir::pps::PIRQueryParam prm;
      client.Query(i, ck, v, prm, l, r);
      for (auto [a, b] : {std::pair{&l, &l2}, {&r, &r2}}) { pir::pps::ClientSendToOnlineServer(*a, w2.v[0]); pir::pps::OnlineServerRecvFromClient(*b, w2.v[1]); }
      bool al = false, ar = false, got = false;
      on.AnswerMulti(l2, r2, al, ar, bits);
      auto st = client.Reconstruct(prm, h2, al, ar, got);
      mc::Count(1);
      if (st == PIR_ABORT) { ++abrt; continue; }
      ++ok; mc::Nontrivial(i);
      if (got != bits[i]) { mc::Fail("bit", fmt::format("universe {} set {} seed {} order {} query {}: bit {} came back as {}", n, s, seed, ord, k, i, got)); return; }
      pir::pps::PPS pps(n, s);
      for (auto* q : {&l2, &r2}) { std::set<uint64_t> seen; pps.Eval(*q, seen); for (auto x : seen) if ((x + q->delta_) % n == i) { mc::Fail("leak", fmt::format("universe {} set {}: a set sent for bit {} contains it", n, s, i)); return; } if (seen.size() != s - 1) { mc::Fail("query-shape", fmt::format("universe {} set {}: {} elements", n, s, seen.size())); return; } }
    }
  }
  if (ok * 5 < abrt) mc::Fail("aborts", fmt::format("universe {} set {}: only {} of {} queries answered", n, s, ok, ok + abrt));
  mc::Sample(fmt::format("universe {} set {} order {}: {} answered, {} aborted", n, s, ord, ok, abrt));
}

int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "h_pir");
  g_quick = s.Quick();
  mc::Opts o; o.points = 0; o.cpu_s = 200;
  const char* set = getenv("PIR_SET");
  auto On = [&](const char* x) { return !set || !strcmp(set, x); };
  // layout
  if (On("spiral")) {
  for (size_t rows : {1, 2, 5}) s.Add(fmt::format("layout/rows{}", rows), o, [=] { Layout(rows); });
  for (size_t t = 1; t <= 16; ++t) s.Add(fmt::format("coeffs/{}", t), o, [=] { Coeffs(t); });
  }
  // SimplePIR
  if (On("simple")) {
  for (uint64_t q : {1ull << 32, (1ull << 31) + 11, 4294967291ull, 1ull << 28, 1000000007ull}) for (uint64_t p : {2ull, 991ull, 256ull, 7ull, 3ull, 65ull}) for (size_t side : {1, 2, 3, 5, 8, 12}) for (size_t dim : {1, 16, 130}) {
    if (q / p < 200 * p * side) continue;   // noise must fit: side * p * 4 sigma * ... << q / (2p)
    s.Add(fmt::format("simple/q{}/p{}/s{}/d{}", q, p, side, dim), o, [=] { Simple({q, p, side, dim, 4, 6.8}); });
  }
  for (size_t side : {6, 10, 16}) s.Add(fmt::format("simple/default{}", side), o, [=] { Simple({1ull << 32, 991, side, 1024, 4, 6.8}); });
  for (int radius : {1, 2, 6}) for (double sigma : {1.0, 3.2, 8.0}) s.Add(fmt::format("simple/noise{}-{}", radius, (int)sigma), o, [=] { Simple({1000000007, 31, 4, 20, radius, sigma}); });
  }
  if (On("piano")) {
  for (uint64_t n = 1; n <= (g_quick ? 126u : 300u); ++n) s.Add(fmt::format("piano/n{}", n), o, [=] { PianoSweep(n, 1 + n % 3, n % 2 ? 3 : 8, n % 5 == 0 ? 3 : 0); });
  for (uint64_t n : {500, 511, 513, 1000}) s.Add(fmt::format("piano/big{}", n), o, [=] { PianoSweep(n, 5, 1, 0); });
  for (uint64_t n = 1; n <= (g_quick ? 6u : 9u); ++n) for (uint64_t len : {3, 4}) s.Add(fmt::format("piano/seq{}-{}", n, len), o, [=] { PianoSeqs(n, len); });
  for (uint64_t n : {16, 64, 256, 600}) s.Add(fmt::format("piano/private{}", n), o, [=] { PianoPrivacy(n); });
  mc::Opts sc; sc.cpu_s = 200; sc.delays = 1; sc.split = true;
  for (uint64_t th : {2, 3}) s.Add(fmt::format("piano/sched{}", th), sc, [=] { Piano p(3, th, 2, 0, 1); for (uint64_t i : {0, 2, 1, 0}) if (!p.Ask(i, "sched")) return; mc::Out(fmt::format("{}", p.last)); });
  }
  if (On("pps")) {
  for (auto [un, ss] : {std::pair<uint64_t, uint64_t>{16, 4}, {32, 4}, {32, 8}, {64, 8}, {128, 8}, {128, 16}, {256, 16}, {100, 10}, {100, 8}, {37, 6}, {512, 16}, {500, 30}, {1024, 32}}) {
    uint64_t n = un, z = ss;
    s.Add(fmt::format("pps/punc/{}/{}", n, z), o, [=] { PpsPunc(n, z); });
    for (uint64_t kind : {0, 1, 2}) s.Add(fmt::format("pps/one/{}/{}/{}", n, z, kind), o, [=] { PpsSingle(n, z, kind); });
    for (int ord = 0; ord < 4; ++ord) s.Add(fmt::format("pps/many/{}/{}/{}", n, z, ord), o, [=] { PpsMulti(n, z, ord % 3, ord); });
  }
  // Spiral
  }
  if (On("spiral")) {
  for (int par = 0; par < 4; ++par) s.Add(fmt::format("spiral/params{}", par), o, [=] { SpiralParams(par); });
  for (size_t rows : {1, 2, 5, 9}) s.Add(fmt::format("spiral/refuse{}", rows), o, [=] { SpiralRefuse(rows); });
  struct D { size_t rows, len; };
  std::vector<D> ds;
  for (size_t r = 1; r <= 18; ++r) ds.push_back({r, 8192});            // one row per plaintext: 1..18 plaintexts
  for (size_t r : {1, 3, 4, 5, 9}) for (size_t l : {8193, 16384, 20000}) ds.push_back({r, l});   // rows that need several plaintexts
  for (size_t r : {1, 2, 40}) for (size_t l : {1, 2, 7, 100, 255, 256}) ds.push_back({r, l});
  for (size_t l : {4096, 4097, 5000, 8191, 2731}) ds.push_back({11, l});
  for (size_t r : {33, 40, 64, 65}) ds.push_back({r, 8192});
  for (auto [r, l] : ds) for (int mode = 0; mode < 4; ++mode) {
    if (g_quick && mode == 3 && l < 5000) continue;
    if (g_quick && r >= 33 && l == 8192 && mode != 1) continue;
    size_t r1 = r, l1 = l;
    s.Add(fmt::format("spiral/r{}/l{}/m{}", r, l, mode), o, [=] { Spiral({r1, l1, 0, mode, {}, (uint64_t)(r1 + l1) % 5}); });
  }
  for (int par : {1, 3}) for (auto [r, l] : std::vector<D>{{3, 8192}, {7, 8000}, {4, 9000}, {50, 300}}) for (int mode = 0; mode < 2; ++mode) {
    size_t r1 = r, l1 = l;
    s.Add(fmt::format("spiral/p{}/r{}/l{}/m{}", par, r, l, mode), o, [=] { Spiral({r1, l1, par, mode, {}, 0}); });
  }
  }
  return s.Run();
}
