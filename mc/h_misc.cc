// Keyed retrieval databases, table conversion, legacy prechecks, cluster task
// descriptions and ciphertext stores.
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include "psilib.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/message_differencer.h"
#include "nlohmann/json.hpp"
#include "psi/apps/psi_launcher/kuscia_adapter.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/csv_checker.h"
#include "psi/utils/csv_converter.h"
#include "psi/utils/ec_point_store.h"
#include "psi/utils/resource_manager.h"
#include "psi/wrapper/apsi/utils/bucket.h"
#include "psi/wrapper/apsi/utils/common.h"
#include "psi/wrapper/apsi/utils/csv_reader.h"
#include "psi/wrapper/apsi/utils/group_db.h"
#include "psi/wrapper/apsi/utils/sender_db.h"
using namespace psi;
using namespace lib;
namespace aw = psi::apsi_wrapper;
using Strs = std::vector<std::string>;
static bool g_quick = true;
static std::string What(const std::function<void()>& f) { try { f(); return ""; } catch (std::exception& e) { std::string s = e.what(); return s.empty() ? "error" : s.substr(0, 200); } }
// ------------------------------------------------------- keyed databases
struct KTable { Rows rows; bool labeled = false; std::string desc; };
static const char* kParams = R"({"table_params":{"hash_func_count":3}})";
// a spread of keys; every kind exercises a different character class
static Strs KeySet(int kind, int n) {
  Strs k;
  for (int i = 0; i < n; ++i) {
    if (kind == 0) k.push_back("k" + S(i));
    if (kind == 1) k.push_back(i % 4 == 0 ? "a,b" + S(i) : i % 4 == 1 ? "q\"" + S(i) : i % 4 == 2 ? " s " + S(i) : "\"" + S(i) + "\"");
    if (kind == 2) k.push_back(std::string(i, 'x') + "\xE5\xAF\x86");
    if (kind == 3) k.push_back(S(1000 + 7 * i));
  }
  return k;
}
static std::string Lab(int kind, int i) {
  if (kind == 1) return i % 3 == 0 ? "v,\"" + S(i) : i % 3 == 1 ? "\"" : "l" + S(i);
  if (kind == 3) return S(i);
  return std::string(1 + i % 3, 'v') + S(i);
}
static KTable Table(int kind, int n, bool labeled) {
  KTable t; t.labeled = labeled; auto k = KeySet(kind, n);
  for (int i = 0; i < n; ++i) { t.rows.push_back({k[i]}); if (labeled) t.rows.back().push_back(Lab(kind, i)); }
  t.desc = fmt::format("{} rows of kind {}{}", n, kind, labeled ? " with labels" : "");
  return t;
}
static void Put(const KTable& t, const std::string& dir) {
  WriteCsv(dir + "/src.csv", t.labeled ? Strs{"key", "value"} : Strs{"key"}, t.rows, 1);
  WriteFile(dir + "/params.json", kParams);
}
using Content = std::map<std::string, std::string>;   // item -> label without its padding
static Content Items(const std::shared_ptr<::apsi::sender::SenderDB>& db) {
  Content c; if (!db) return c;
  for (auto& [k, l] : db->data) { std::string v(l.begin(), l.end()); while (!v.empty() && v.back() == 0) v.pop_back(); c[k] = v; }
  return c;
}
static Content Expect(const KTable& t, size_t bucket, size_t buckets) {
  Content c;
  for (auto& r : t.rows) if (std::hash<std::string>()(r[0]) % buckets == bucket) c[::apsi::Item(r[0]).to_string()] = t.labeled ? r[1] : "";
  return c;
}
static void JudgeDb(aw::GroupDB& db, const KTable& t, size_t groups, size_t buckets, const std::string& d) {
  if (db.GetBucketNum() != buckets || db.GetGroupNum() != groups) mc::Fail("shape", d);
  size_t next = 0;
  for (size_t g = 0; g < groups; ++g) {
    auto x = db.GetBucketIndexOfGroup(g); if (x.cnt && x.start_index != next) mc::Fail("partition", fmt::format("group {} starts at bucket {} instead of {}: {}", g, x.start_index, next, d));
    for (size_t b = x.start_index; b < x.start_index + x.cnt; ++b) if (db.GetBucketGroupIdx(b) != g) mc::Fail("partition", fmt::format("bucket {} belongs to group {} and {}: {}", b, g, db.GetBucketGroupIdx(b), d));
    next += x.cnt;
  }
  if (next != buckets) mc::Fail("partition", fmt::format("the groups cover {} of {} buckets: {}", next, buckets, d));
  for (size_t b = 0; b < buckets; ++b) {
    auto it = db.GetBucketDB(b); auto got = Items(it.sender_db), want = Expect(t, b, buckets);
    if (got != want) { size_t miss = 0, extra = 0, lab = 0; for (auto& [k, v] : want) if (!got.count(k)) ++miss; else if (got[k] != v) ++lab; for (auto& [k, v] : got) if (!want.count(k)) ++extra;
      mc::Fail("content", fmt::format("bucket {} has {} of {} entries ({} missing, {} foreign, {} with a wrong label): {}", b, got.size(), want.size(), miss, extra, lab, d)); }
    if (it.sender_db) { if (it.sender_db->p.to_string() != std::string(kParams) + "\n") mc::Fail("params", d); if (it.sender_db->key.k != it.oprf_key.k && it.oprf_key.k[0] != 'k') mc::Fail("oprf-key", d); if (it.bucket_id != b) mc::Fail("bucket-id", d); }
  }
  bool threw = false; try { db.GetBucketDB(buckets); } catch (std::exception&) { threw = true; } if (!threw) mc::Fail("range", "a bucket beyond the last one was served: " + d);
}
static void Generate(const std::string& dir, size_t groups, size_t buckets, size_t procs) {
  aw::GroupDB db(dir + "/src.csv", dir + "/db", groups, buckets, 16, dir + "/params.json", false);
  if (procs) { aw::GenerateGroupBucketDB(db, procs); return; }
  db.DivideGroup(); for (size_t g = 0; g < groups; ++g) db.GenerateGroup(g); db.GenerateDone();
}
static void Gdb(int kind, int n, bool lab, size_t groups, size_t buckets, size_t procs) {
  auto dir = mc::ScratchDir(); auto t = Table(kind, n, lab); Put(t, dir);
  auto d = fmt::format("{}, {} groups, {} buckets, {} processes", t.desc, groups, buckets, procs);
  if (!procs) { aw::GroupDB db(dir + "/src.csv", dir + "/db", groups, buckets, 16, dir + "/params.json", false); if (db.IsDivided() || db.IsDBGenerated()) mc::Fail("state", "a new database claims to be generated: " + d); }
  auto e = What([&] { Generate(dir, groups, buckets, procs); }); if (!e.empty()) mc::Fail("refused", e + " :: " + d);
  { aw::GroupDB db(dir + "/db"); if (!db.IsDBGenerated()) mc::Fail("state", "not marked as generated: " + d); JudgeDb(db, t, groups, buckets, d); }
  e = What([&] { Generate(dir, groups, buckets, procs); }); if (!e.empty()) mc::Fail("again", "a second run failed: " + e + " :: " + d);   // a second run changes nothing
  { aw::GroupDB db(dir + "/src.csv", dir + "/db", groups, buckets, 16, dir + "/params.json", false); JudgeDb(db, t, groups, buckets, "second run, " + d); }
  if (n == 7) for (int w = 0; w < 4; ++w) {   // a directory made for other parameters is refused
    if (w == 3) WriteFile(dir + "/params.json", "{\"x\":1}");
    if (What([&] { aw::GroupDB db(dir + "/src.csv", dir + "/db", groups + (w == 0), buckets + (w == 1), 16 + (w == 2), dir + "/params.json", false); }).empty()) mc::Fail("other-params", fmt::format("parameter {} differs: {}", w, d));
  }
  mc::Count(groups * buckets); mc::Nontrivial(H(d)); mc::Out("ok"); mc::Sample(d + " -> every bucket holds exactly its rows");
}
// crash at every file operation of the generation, then run it again
static void GdbCrash(int n, bool lab, size_t groups, size_t buckets, bool again) {
  auto root = mc::ScratchDir(); auto t = Table(0, n, lab);
  auto run = [&](const std::string& dir, long at, int torn) {
    return mc::Sub([&] { if (at >= -1) mc::FsArm(dir + "/db", -1, at, torn); auto e = What([&] { Generate(dir, groups, buckets, 0); }); mc::FsDisarm(); return e; });
  };
  auto probe = root + "/probe"; mkdir(probe.c_str(), 0700); Put(t, probe); auto r0 = run(probe, -1, 0);
  if (!r0.ok) mc::Fail("probe", "no probe run"); size_t ops = r0.log.size();
  if (!ops) mc::Fail("harness", "no file operations seen");
  for (size_t at = 0; at < ops; ++at) for (int torn = 0; torn < 5; ++torn) {
    if (torn == 1 && r0.log[at].op != "write") continue;
    auto dir = root + "/d"; std::filesystem::remove_all(dir); mkdir(dir.c_str(), 0700); Put(t, dir);
    auto d = fmt::format("{}, {} groups, {} buckets, {} operation {}/{} ({} {})", t.desc, groups, buckets, torn == 0 ? "crash before" : torn == 1 ? "crash in" : torn == 2 ? "crash after" : torn == 3 ? "no space at" : "no space from", at, ops, r0.log[at].op, r0.log[at].path.substr(std::min(r0.log[at].path.size(), probe.size())));
    auto r1 = run(dir, (long)at, torn);
    if (torn >= 3 && r1.ok && r1.out.empty()) { aw::GroupDB db(dir + "/db"); if (!db.IsDBGenerated()) mc::Fail("status", d); JudgeDb(db, t, groups, buckets, "reported success although storage failed, " + d); mc::Count(1); continue; }
    // what is there is either served completely or refused
    auto e = What([&] { aw::GroupDB db(dir + "/db"); if (db.IsDBGenerated()) JudgeDb(db, t, groups, buckets, "claims to be generated, " + d); });
    // a run after the crash completes it
    if (again) { auto at2 = run(dir, (long)(at % 5), 0); (void)at2; d += ", crash again early"; }
    e = What([&] { Generate(dir, groups, buckets, 0); }); if (!e.empty()) mc::Fail("resume", "the next run fails: " + e + " :: " + d);
    aw::GroupDB db(dir + "/db"); if (!db.IsDBGenerated()) mc::Fail("resume", "not generated after the next run: " + d); JudgeDb(db, t, groups, buckets, "after the next run, " + d);
    mc::Count(1); mc::Nontrivial(H(d)); if (at % 7 == 0) mc::Sample(d + " -> the next run completes it");
  }
  mc::Out("ok");
}
// some group cannot be generated: the database is not reported as generated
static void GdbBad(int n, size_t groups, size_t buckets, size_t procs, int dup) {
  auto dir = mc::ScratchDir(); auto t = Table(0, n, dup % 2); t.rows.push_back(t.rows[dup % n]); Put(t, dir);
  auto d = fmt::format("key {} repeated, {}, {} groups, {} buckets, {} processes", dup % n, t.desc, groups, buckets, procs);
  auto e = What([&] { Generate(dir, groups, buckets, procs); });
  if (e.empty()) mc::Fail("accepted", "success was reported: " + d);
  aw::GroupDB db(dir + "/db"); if (db.IsDBGenerated()) mc::Fail("state", "marked as generated: " + d);
  mc::Count(1); mc::Nontrivial(H(d)); mc::Out("refused"); mc::Sample(d + " -> refused");
}
// a worker process dies at its k-th file operation
static void GdbWorker(int n, size_t groups, size_t buckets, size_t procs) {
  auto root = mc::ScratchDir(); auto t = Table(0, n, true);
  for (long at = 0; at < 400; ++at) {
    auto dir = root + "/d"; std::filesystem::remove_all(dir); mkdir(dir.c_str(), 0700); Put(t, dir);
    auto d = fmt::format("{}, {} groups, {} buckets, {} processes, each worker dies at its file operation {}", t.desc, groups, buckets, procs, at);
    auto r = mc::Sub([&] { alarm(20); aw::GroupDB db(dir + "/src.csv", dir + "/db", groups, buckets, 16, dir + "/params.json", false); db.DivideGroup(); auto me = getpid(); mc::FsArm(dir + "/db", -1, at, 1, nullptr); (void)me; auto e = What([&] { aw::GenerateGroupBucketDB(db, procs); }); mc::FsDisarm(); return e; }, 20);
    (void)r;
    if (WIFSIGNALED(r.status)) mc::Fail("hang", "the generation never ends: " + d);
    auto e = What([&] { aw::GroupDB db(dir + "/db"); if (db.IsDBGenerated()) JudgeDb(db, t, groups, buckets, "claims to be generated, " + d); });
    e = What([&] { Generate(dir, groups, buckets, 0); }); if (!e.empty()) mc::Fail("resume", "the next run fails: " + e + " :: " + d);
    aw::GroupDB db(dir + "/db"); JudgeDb(db, t, groups, buckets, "after the next run, " + d);
    mc::Count(1); mc::Nontrivial(H(d));
    if (r.ok && !r.crashed && r.out.empty()) { mc::Sample(d); break; }
  }
  mc::Out("ok");
}
// plain bucket files, one database each
static void Buckets(int kind, int n, bool lab, size_t buckets) {
  auto dir = mc::ScratchDir(); auto t = Table(kind, n, lab); Put(t, dir); auto d = fmt::format("{}, {} bucket files", t.desc, buckets);
  for (int round = 0; round < 2; ++round) {
    { aw::ApsiCsvReader r(dir + "/src.csv"); auto e = What([&] { r.bucketize(buckets, dir + "/b"); }); if (!e.empty()) mc::Fail("refused", e + " :: " + d); }
    for (size_t b = 0; b < buckets; ++b) {
      auto want = Expect(t, b, buckets); ::apsi::oprf::OPRFKey key;
      auto db = aw::GenerateSenderDB(dir + "/b/" + S(b), dir + "/params.json", 16, false, key, {}, {});
      if (want.empty()) { if (db && !Items(db).empty()) mc::Fail("extra", d); continue; }
      if (Items(db) != want) mc::Fail("content", fmt::format("round {}: bucket {} serves {} of {} entries: {}", round, b, Items(db).size(), want.size(), d));
      if (!aw::TrySaveSenderDB(aw::GenerateDbPath(dir, b), db, key)) mc::Fail("save", d);
      auto back = aw::TryLoadSenderDB(aw::GenerateDbPath(dir, b), "", key); if (Items(back) != want) mc::Fail("reload", d);
      aw::BucketSenderDbSwitcher sw(dir, buckets, b); if (Items(sw.GetSenderDB()) != want) mc::Fail("switch", d); sw.SetBucketIdx(b); if (Items(sw.GetSenderDB()) != want || sw.bucket_idx() != b) mc::Fail("switch", d);
    }
  }
  mc::Count(buckets); mc::Nontrivial(H(d)); mc::Out("ok"); mc::Sample(d);
}
// the result file of a query
static void Results(int kind, int n, bool lab, int cuts) {
  auto dir = mc::ScratchDir(); auto k = KeySet(kind, n); auto out = dir + "/out.csv";
  for (uint64_t found = 0; found < (1ull << n); ++found) for (int cut = 0; cut <= cuts; ++cut) {
    auto d = fmt::format("{} keys of kind {}{}, found {:b}, {} queries before", n, kind, lab ? " with labels" : "", found, cut);
    std::filesystem::remove(out); Rows want{lab ? Strs{"key", "value"} : Strs{"key"}}; Strs ck, cv; size_t total = 0;
    size_t per = (n + cut) / (cut + 1); bool append = false;
    for (size_t b = 0; b < (size_t)n; b += per) {
      Strs o; std::vector<::apsi::Item> it; std::vector<::apsi::receiver::MatchRecord> m;
      for (size_t i = b; i < std::min<size_t>(n, b + per); ++i) { o.push_back(k[i]); it.emplace_back(k[i]); m.emplace_back(); m.back().found = found >> i & 1; auto v = Lab(kind, i); if (m.back().found && lab) m.back().label.set(::apsi::Label(v.begin(), v.end())); if (m.back().found) { want.push_back(lab ? Strs{k[i], v} : Strs{k[i]}); ++total; } }
      int c = aw::print_intersection_results(o, it, m, out, append); aw::stream_intersection_results(o, it, m, ck, cv);
      int f = 0; for (auto& x : m) f += x.found; if (c != f) mc::Fail("count", d);
      if (c > 0) append = true;   // as the command line tool does it
    }
    auto got = ParseCsv(ReadFile(out)); if (!total) { if (got.size() > 1) mc::Fail("extra", d); if (!got.empty() && (got[0].empty() || got[0][0] != "key")) mc::Fail("header", d); }
    else if (got != want) mc::Fail(got.empty() || got[0] != want[0] ? "header" : "rows", fmt::format("{} instead of {}: {}", Str(got), Str(want), d));
    if (ck.size() != total || (lab && cv.size() != total)) mc::Fail("stream", d);
    for (size_t i = 0; i < total; ++i) if (ck[i] != want[1 + i][0] || (lab && cv[i] != want[1 + i][1])) mc::Fail("stream", d);
    mc::Count(1); mc::Nontrivial(H(d));
  }
  mc::Out("ok"); mc::Sample(fmt::format("{} keys of kind {}: every subset found", n, kind));
}
// several rows per key and several label columns: merge, retrieve, split again
static void Convert(int kind, int keys, int rows, int labels, int order) {
  auto dir = mc::ScratchDir(); auto k = KeySet(kind, keys); Strs ln; for (int i = 0; i < labels; ++i) ln.push_back("l" + S(i));
  uint64_t total = 1; for (int i = 0; i < rows; ++i) total *= keys;
  for (uint64_t x = 0; x < total; ++x) {
    Rows r; Strs head{"id"}; head.insert(head.end(), ln.begin(), ln.end()); head.push_back("other");
    uint64_t y = x; for (int i = 0; i < rows; ++i) { Strs w{k[y % keys]}; y /= keys; for (int j = 0; j < labels; ++j) w.push_back((i + j) % 4 == 3 ? "" : Lab(kind, i + j)); w.push_back("zz"); r.push_back(w); }
    if (order) { for (auto& w : r) std::swap(w.front(), w.back()); std::swap(head.front(), head.back()); }
    auto at = order ? labels + 1 : 0; auto d = fmt::format("kind {} rows {}, label columns {}, key column {}", kind, Str(r), ln, at);
    WriteCsv(dir + "/in.csv", head, r, 1);
    auto e = What([&] { ApsiCsvConverter(dir + "/in.csv", "id", ln).MergeColumnAndRow(dir + "/kv.csv", dir + "/kc.csv"); }); if (!e.empty()) mc::Fail("refused", e + " :: " + d);
    e = What([&] { ApsiCsvConverter(dir + "/in.csv", "id").ExtractQueryTo(dir + "/q.csv"); }); if (!e.empty()) mc::Fail("refused-query", e + " :: " + d);
    // what the retrieval machinery reads out of the merged files
    std::map<std::string, std::vector<Strs>> want; for (auto& w : r) { Strs l; for (int j = 0; j < labels; ++j) l.push_back(w[1 + j]); want[w[at]].push_back(l); }
    Content kv, kc; Strs q;
    e = What([&] { for (int w = 0; w < 2; ++w) { aw::ApsiCsvReader rd(dir + (w ? "/kc.csv" : "/kv.csv")); auto [db, orig] = rd.read(); auto& l = std::get<aw::LabeledData>(db); for (size_t i = 0; i < l.size(); ++i) { if (!(l[i].first == ::apsi::Item(orig[i]))) mc::Fail("item", d); (w ? kc : kv)[orig[i]] = std::string(l[i].second.begin(), l[i].second.end()); } } aw::ApsiCsvReader rd(dir + "/q.csv"); });
    if (!e.empty() && e.find("duplicated") == std::string::npos) mc::Fail("unreadable", e + " :: " + d);
    auto qr = ParseCsv(ReadFile(dir + "/q.csv")); if (qr.empty() || qr[0] != Strs{"key"}) mc::Fail("query-header", d); qr.erase(qr.begin());
    if (qr.size() != r.size()) mc::Fail("query", fmt::format("{} keys out of {} rows: {}", qr.size(), r.size(), d)); for (size_t i = 0; i < r.size(); ++i) if (qr[i] != Strs{r[i][at]}) mc::Fail("query", fmt::format("key {} reads {}: {}", i, Str({qr[i]}), d));
    if (kv.size() != want.size() || kc.size() != want.size()) mc::Fail("keys", fmt::format("{} keys instead of {}: {}", kv.size(), want.size(), d));
    for (auto& [key, ls] : want) { if (kc[key] != S(ls.size())) mc::Fail("key-count", fmt::format("key {} counts {}: {}", key, kc[key], d)); if (!kv.count(key)) mc::Fail("keys", d); }
    // every subset of the keys is asked for
    for (uint64_t ask = 1; ask < (1ull << want.size()); ++ask) {
      Rows res{{"key", "value"}}; std::multiset<Strs> rowset; uint64_t b = 0;
      for (auto& [key, ls] : want) { if (ask >> b++ & 1) { res.push_back({key, kv[key]}); for (auto& l : ls) { Strs w{key}; w.insert(w.end(), l.begin(), l.end()); rowset.insert(w); } } }
      WriteCsv(dir + "/res.csv", res[0], {res.begin() + 1, res.end()}, 1);
      int c = 0; e = What([&] { c = ApsiCsvConverter(dir + "/res.csv", "key", {"value"}).ExtractResult(dir + "/final.csv", "id", ln); });
      if (!e.empty()) mc::Fail("refused-result", e + " :: " + d);
      auto got = ParseCsv(ReadFile(dir + "/final.csv")); Strs fh{"id"}; fh.insert(fh.end(), ln.begin(), ln.end());
      if (got.empty() || got[0] != fh) mc::Fail("result-header", d);
      std::multiset<Strs> g(got.begin() + 1, got.end()); if (g != rowset || c != (int)rowset.size()) mc::Fail("result", fmt::format("asked {:b}: {} rows reported, file {} :: {}", ask, c, Str(got), d));
      mc::Count(1);
    }
    mc::Nontrivial(H(d)); if (x % 5 == 0) mc::Sample(d);
  }
  mc::Out("ok");
}
// ------------------------------------------------------- legacy prechecks
static const Strs kCells{"", "a", "b", "ab", "a b", "a\\"};
static std::string Join(const Strs& r) { std::string s; for (auto& c : r) s += S(c.size()) + ":" + c; return s; }
static void Precheck(int cols, int rows, uint64_t part, uint64_t parts, int extra) {
  auto dir = mc::ScratchDir(); if (chdir(dir.c_str())) mc::Fail("harness", "chdir");
  auto cells = kCells; if (cols > 1) cells.resize(4);
  uint64_t per = 1; for (int i = 0; i < cols; ++i) per *= cells.size(); uint64_t total = 1; for (int i = 0; i < rows; ++i) total *= per;
  Strs names; for (int i = 0; i < cols; ++i) names.push_back("c" + S(i));
  std::map<std::string, std::string> digests;   // digest -> key list
  for (uint64_t x = part; x < total; x += parts) {
    Rows r; uint64_t y = x; bool empty = false; std::set<std::string> seen; bool dup = false; std::string list;
    for (int i = 0; i < rows; ++i) { Strs w; uint64_t z = y % per; y /= per; for (int j = 0; j < cols; ++j) { w.push_back(cells[z % cells.size()]); z /= cells.size(); empty = empty || w.back().empty(); } dup = !seen.insert(Join(w)).second || dup; list += S(w.size()) + Join(w); r.push_back(w); }
    auto d = fmt::format("columns {} of rows {}", names, Str(r));
    if (cols == 1 && empty && rows && extra == 0) { bool blank = false; for (auto& w : r) blank = blank || w[0].empty(); if (blank) { Rows q; for (auto& w : r) q.push_back({w[0]}); } }
    Rows full; Strs head = names; if (extra) head.insert(head.begin(), "other"); head.push_back("z"); for (auto& w : r) { auto f = w; if (extra) f.insert(f.begin(), ""); f.push_back("1"); full.push_back(f); }
    WriteCsv(dir + "/in.csv", head, full);
    for (bool skip : {false, true}) {
      std::string dg; uint32_t cnt = 0; auto e = What([&] { CsvChecker c(dir + "/in.csv", names, skip); dg = c.hash_digest(); cnt = c.data_count(); });
      bool ok = !empty && (skip || !dup);
      if (ok != e.empty()) mc::Fail(ok ? "refused" : empty ? "accepted-empty" : "accepted-duplicate", fmt::format("duplicate check {}: {} :: {}", !skip, e, d));
      if (!ok) continue;
      if (cnt != (uint32_t)rows) mc::Fail("count", fmt::format("{} rows counted: {}", cnt, d));
      auto it = digests.emplace(dg, list); if (it.first->second != list) mc::Fail("digest", fmt::format("the digest of {} is also that of the key list {}", d, it.first->second));
    }
    mc::Count(1); mc::Nontrivial(H(d));
  }
  size_t files = 0; for (auto& e : std::filesystem::directory_iterator(dir)) { (void)e; ++files; } if (files > 1) mc::Fail("litter", fmt::format("{} files left behind", files));
  std::set<std::string> lists; for (auto& [a, b] : digests) if (!lists.insert(b).second) mc::Fail("digest-unstable", "one key list has two digests: " + b);
  // across lengths
  mc::Out(S(digests.size())); mc::Sample(fmt::format("{} columns, {} rows: {} digests", cols, rows, digests.size()));
}
// digests of tables of different shapes never collide
static void Digests(int maxrows) {
  auto dir = mc::ScratchDir(); if (chdir(dir.c_str())) mc::Fail("harness", "chdir");
  Strs cells{"a", "b", "ab", "ba", "1", "11", "1:a"}; std::map<std::string, std::string> digests;
  for (int rows = 0; rows <= maxrows; ++rows) { uint64_t total = 1; for (int i = 0; i < rows; ++i) total *= cells.size();
    for (uint64_t x = 0; x < total; ++x) { Rows r; uint64_t y = x; std::string list = S(rows) + ";"; for (int i = 0; i < rows; ++i) { r.push_back({cells[y % cells.size()]}); y /= cells.size(); list += Join(r.back()) + ";"; }
      WriteCsv(dir + "/in.csv", {"k"}, r); CsvChecker c(dir + "/in.csv", {"k"}, true);
      auto it = digests.emplace(c.hash_digest(), list); if (!it.second) mc::Fail("digest", fmt::format("key lists {} and {} have one digest", it.first->second, list)); mc::Count(1); mc::Nontrivial(H(list)); } }
  mc::Out(S(digests.size())); mc::Sample(fmt::format("{} key lists, all digests distinct", digests.size()));
}
static void PrecheckTools(int dups, const std::string& tool, int how) {
  auto dir = mc::ScratchDir(); if (chdir(dir.c_str())) mc::Fail("harness", "chdir");
  Rows r{{"a", "1"}, {"b", "2"}, {"c", "3"}}; for (int i = 0; i < dups; ++i) r.push_back({"a", "9"});
  WriteCsv(dir + "/in.csv", {"k", "v"}, r); mkdir((dir + "/bin").c_str(), 0755);
  auto d = fmt::format("{} repeated rows, {} {}", dups, tool, how == 0 ? "is missing" : how == 1 ? "fails at once" : how == 2 ? "fails after its first line" : how == 3 ? "fails after all its work" : "is killed");
  std::string old = getenv("PATH") ? getenv("PATH") : "";
  if (how == 0) { for (auto t : {"sort", "uniq", "cat", "sh"}) if (tool != t) for (auto p : {"/usr/bin/", "/bin/"}) if (std::filesystem::exists(std::string(p) + t)) { std::error_code ec; std::filesystem::create_symlink(std::string(p) + t, dir + "/bin/" + t, ec); break; } setenv("PATH", (dir + "/bin").c_str(), 1); }
  else { auto real = "/usr/bin/" + tool; WriteFile(dir + "/bin/" + tool, "#!/bin/sh\n" + std::string(how == 1 ? "exit 2\n" : how == 2 ? "PATH=/usr/bin:/bin; " + real + " \"$@\" | head -1; exit 2\n" : how == 3 ? real + " \"$@\"; exit 2\n" : "kill -9 $$\n")); chmod((dir + "/bin/" + tool).c_str(), 0755); setenv("PATH", (dir + "/bin:" + old).c_str(), 1); }
  auto e = What([&] { CsvChecker c(dir + "/in.csv", {"k"}, false); }); setenv("PATH", old.c_str(), 1);
  if (e.empty() && dups) mc::Fail("unnoticed", "a repeated key was accepted: " + d);
  if (e.empty()) mc::Fail("tool", "the failure went unnoticed: " + d);
  mc::Count(1); mc::Nontrivial(H(d)); mc::Out("refused"); mc::Sample(d + " -> refused");
}
// storage fails at every point: an error, or the files of an undisturbed run
static void Faults(const std::string& what, const std::function<void(const std::string&)>& prep, const std::function<void(const std::string&)>& body, const Strs& outs) {
  auto root = mc::ScratchDir(); auto run = [&](const std::string& dir, long at, int torn) { return mc::Sub([&] { mc::FsArm(dir, -1, at, torn); auto e = What([&] { body(dir); }); mc::FsDisarm(); return e; }); };
  auto probe = root + "/p"; mkdir(probe.c_str(), 0700); prep(probe); auto r0 = run(probe, -1, 0); if (!r0.ok || !r0.out.empty()) mc::Fail("probe", what + ": " + r0.out);
  Strs want; for (auto& o : outs) want.push_back(ReadFile(probe + "/" + o)); size_t ops = r0.log.size(); if (!ops) mc::Fail("harness", "no file operations seen: " + what);
  for (size_t at = 0; at < ops; ++at) for (int torn : {3, 4}) {
    auto dir = root + "/d"; std::filesystem::remove_all(dir); mkdir(dir.c_str(), 0700); prep(dir); auto r = run(dir, (long)at, torn);
    auto d = fmt::format("{}, {} operation {}/{} ({})", what, torn == 3 ? "no space at" : "no space from", at, ops, r0.log[at].op);
    if (r.ok && r.out.empty()) for (size_t i = 0; i < outs.size(); ++i) if (ReadFile(dir + "/" + outs[i]) != want[i]) mc::Fail("storage", fmt::format("success was reported but {} is not complete: {}", outs[i], d));
    mc::Count(1); mc::Nontrivial(H(d)); if (!at) mc::Sample(d + " -> " + (r.out.empty() ? "complete" : "error"));
  }
  mc::Out("ok");
}
static void ConvFaults(int rows, int which) {
  Rows r; for (int i = 0; i < rows; ++i) r.push_back({"k" + S(i / 2), "v" + S(i), "w"}); const Strs ln{"v", "w"};
  auto prep = [=](const std::string& d) { WriteCsv(d + "/in.csv", {"id", "v", "w"}, r, 1); Rows q; for (int i = 0; i < rows; ++i) q.push_back({"k" + S(i), "a\x1e" "b\x1f" "c\x1e" "d"}); WriteCsv(d + "/res.csv", {"key", "value"}, q, 1); };
  auto w = fmt::format("{} rows", rows);
  if (which == 0) Faults("merging " + w, prep, [=](const std::string& d) { ApsiCsvConverter(d + "/in.csv", "id", ln).MergeColumnAndRow(d + "/kv.csv", d + "/kc.csv"); }, {"kv.csv", "kc.csv"});
  if (which == 1) Faults("extracting the query from " + w, prep, [=](const std::string& d) { ApsiCsvConverter(d + "/in.csv", "id").ExtractQueryTo(d + "/q.csv"); }, {"q.csv"});
  if (which == 2) Faults("splitting the result of " + w, prep, [=](const std::string& d) { ApsiCsvConverter(d + "/res.csv", "key", {"value"}).ExtractResult(d + "/final.csv", "id", ln); }, {"final.csv"});
  if (which == 3) Faults("results of two queries of " + w, prep, [=](const std::string& d) { for (int b = 0; b < 2; ++b) { Strs o; std::vector<::apsi::Item> it; std::vector<::apsi::receiver::MatchRecord> m; for (int i = 0; i < rows; ++i) { o.push_back("k" + S(i)); it.emplace_back(o.back()); m.emplace_back(); m.back().found = true; } aw::print_intersection_results(o, it, m, d + "/out.csv", b == 1); } }, {"out.csv"});
}
// cells that hold the characters which separate merged cells: kept or refused
static void Reserved(int rows, int labels, uint64_t part, uint64_t parts) {
  auto dir = mc::ScratchDir(); const Strs cells{"a", "a\x1e" "b", "\x1f", "x\x1fy"}; Strs ln; for (int i = 0; i < labels; ++i) ln.push_back("l" + S(i));
  uint64_t total = 1; for (int i = 0; i < rows * labels; ++i) total *= cells.size();
  for (uint64_t x = part; x < total; x += parts) {
    Rows r; uint64_t y = x; std::map<std::string, std::vector<Strs>> want; bool plain = true; for (int i = 0; i < rows; ++i) { Strs w{"k" + S(i % 2)}; for (int j = 0; j < labels; ++j) { plain = plain && y % 4 == 0; w.push_back(cells[y % 4]); y /= 4; } r.push_back(w); }
    auto d = "rows " + Str(r); WriteCsv(dir + "/in.csv", [&] { Strs h{"id"}; h.insert(h.end(), ln.begin(), ln.end()); return h; }(), r, 1); for (auto f : {"/kv.csv", "/kc.csv", "/f.csv"}) std::filesystem::remove(dir + f);
    auto e = What([&] { ApsiCsvConverter(dir + "/in.csv", "id", ln).MergeColumnAndRow(dir + "/kv.csv", dir + "/kc.csv"); ApsiCsvConverter(dir + "/kv.csv", "key", {"value"}).ExtractResult(dir + "/f.csv", "id", ln); });
    if (plain && !e.empty()) mc::Fail("refused", e + " :: " + d);
    if (e.empty()) { auto got = ParseCsv(ReadFile(dir + "/f.csv")); got.erase(got.begin()); if (Sorted([&] { Strs a; for (auto& w : got) a.push_back(Str({w})); return a; }()) != Sorted([&] { Strs a; for (auto& w : r) a.push_back(Str({w})); return a; }())) mc::Fail("reserved", fmt::format("{} came back for {}", Str(got), d)); }
    mc::Count(1); mc::Nontrivial(H(d)); if (x == part) mc::Sample(d + " -> " + (e.empty() ? "kept" : "refused"));
  }
  mc::Out("ok");
}
static void Lookup(int rows, int cols, size_t batch) {   // positions of given items
  auto dir = mc::ScratchDir(); Rows r; Strs it; for (int i = 0; i < rows; ++i) { r.push_back({"a" + S(i % 4), "b" + S(i / 2)}); it.push_back(cols == 1 ? r.back()[0] : r.back()[0] + "," + r.back()[1]); }
  WriteCsv(dir + "/in.csv", {"x", "y"}, r); Strs names{"x"}; if (cols == 2) names.push_back("y"); std::set<std::string> uniq(it.begin(), it.end()); Strs u(uniq.begin(), uniq.end()); u.push_back("absent");
  for (uint64_t m = 0; m < (1ull << std::min<size_t>(u.size(), 9)); ++m) { Strs ask; std::set<std::string> as; for (size_t i = 0; i < std::min<size_t>(u.size(), 9); ++i) if (m >> i & 1) { ask.push_back(u[i]); as.insert(u[i]); }
    std::vector<uint64_t> want; for (int i = 0; i < rows; ++i) if (as.count(it[i])) want.push_back(i);
    auto got = GetIndicesByItems(dir + "/in.csv", names, ask, batch); if (got != want) mc::Fail("positions", fmt::format("{} instead of {}: {} rows, {} columns, batches of {}, asked {}", got, want, rows, cols, batch, ask));
    mc::Count(1); mc::Nontrivial(H(fmt::format("{} {} {} {}", rows, cols, batch, m))); }
  mc::Out("ok"); mc::Sample(fmt::format("{} rows, {} columns, batches of {}", rows, cols, batch));
}
// ------------------------------------------------------- ciphertext stores
static std::string Ct(int i, size_t len = 12) { std::string s = "ct" + S(i * 7919); s.resize(len, i % 2 ? '\0' : 'x'); return s; }
struct Side { std::vector<std::pair<int, uint32_t>> items; };
static Side MkSide(const std::vector<int>& mult, bool rev) { Side s; for (size_t i = 0; i < mult.size(); ++i) if (mult[i]) s.items.push_back({(int)i, (uint32_t)mult[i] - 1}); if (rev) std::reverse(s.items.begin(), s.items.end()); return s; }
static void Stores(const std::vector<int>& a, const std::vector<int>& b, size_t bins, size_t bulk) {
  auto dir = mc::ScratchDir();
  for (bool rev : {false, true}) {
    auto x = MkSide(a, false), y = MkSide(b, rev); auto d = fmt::format("own {} peer {} reversed {} bins {} batches {}", a, b, rev, bins, bulk);
    auto p = std::make_shared<HashBucketEcPointStore>(dir, bins), q = std::make_shared<HashBucketEcPointStore>(dir, bins); auto mem = std::make_shared<UbPsiClientCacheMemoryStore>(); MemoryEcPointStore plain;
    auto fpath = dir + "/f" + S(rev); std::filesystem::remove(fpath); std::filesystem::remove(fpath + ".meta"); auto file = std::make_shared<UbPsiClientCacheFileStore>(fpath, 12);
    auto save = [&](IEcPointStore& st, const Side& s) { for (size_t i = 0; i < s.items.size(); i += bulk) { Strs c; std::unordered_map<uint32_t, uint32_t> dc; for (size_t j = i; j < std::min(i + bulk, s.items.size()); ++j) { if (s.items[j].second) dc[c.size()] = s.items[j].second; c.push_back(Ct(s.items[j].first)); } st.Save(c, dc); } if (st.ItemCount() != s.items.size()) mc::Fail("item-count", fmt::format("{} items counted: {}", st.ItemCount(), d)); };
    save(*p, x); save(*q, y); save(*mem, x); save(*file, y); save(plain, y);
    for (size_t i = 0; i < y.items.size(); ++i) { if (plain.content()[i] != Ct(y.items[i].first)) mc::Fail("memory", d); auto it = plain.GetDupMap().find(i); if ((it == plain.GetDupMap().end() ? 0 : it->second) != y.items[i].second) mc::Fail("memory", d); }
    std::vector<uint64_t> want; std::map<uint64_t, uint64_t> wantd; uint32_t tot = 0, inter = 0; std::map<int, uint32_t> yd; for (auto& [k, c] : y.items) { yd[k] = c; tot += c + 1; }
    for (size_t i = 0; i < x.items.size(); ++i) if (yd.count(x.items[i].first)) { want.push_back(i); wantd[i] = yd[x.items[i].first]; inter += yd[x.items[i].first] + 1; }
    auto got = FinalizeAndComputeIndices(p, q); if (got != want) mc::Fail("indices", fmt::format("{} instead of {}: {}", got, want, d));
    { IndexWriter w(dir + "/w", 3, true); auto c = FinalizeAndComputeIndices(p, q, &w); if (c != std::make_pair(tot, inter)) mc::Fail("counts", fmt::format("{} {} instead of {} {}: {}", c.first, c.second, tot, inter, d)); w.Close(); }
    std::map<uint64_t, uint64_t> gd; FileIndexReader rd(dir + "/w"); while (rd.HasNext()) { auto z = *rd.GetNextWithPeerCnt(); if (!gd.emplace(z).second) mc::Fail("twice", d); } if (gd != wantd) mc::Fail("indices-dup", fmt::format("{} instead of {}: {}", gd, wantd, d));
    for (size_t batch = 1; batch <= y.items.size() + 1; ++batch) {
      auto info = ComputeIndicesWithDupCnt(mem, file, batch); std::map<uint32_t, std::array<uint32_t, 3>> g; size_t n = info.self_indices.size();
      if (info.peer_indices.size() != n || info.self_dup_cnt.size() != n || info.peer_dup_cnt.size() != n) mc::Fail("lengths", d);
      for (size_t i = 0; i < n; ++i) if (!g.emplace(info.self_indices[i], std::array<uint32_t, 3>{info.peer_indices[i], info.self_dup_cnt[i], info.peer_dup_cnt[i]}).second) mc::Fail("twice", d);
      if (n != want.size()) mc::Fail("online-indices", fmt::format("{} matches instead of {}: {}", n, want.size(), d));
      for (auto i : want) { if (!g.count(i)) mc::Fail("online-indices", d); size_t pi = 0; while (y.items[pi].first != x.items[i].first) ++pi; std::array<uint32_t, 3> w{(uint32_t)pi, x.items[i].second, y.items[pi].second}; if (g[i] != w) mc::Fail("online-dup", fmt::format("{} instead of {} with batches of {}: {}", g[i], w, batch, d)); }
      mc::Count(1);
    }
    file->Flush(); { UbPsiClientCacheFileStore again(fpath, 12); if (again.ItemCount() != y.items.size()) mc::Fail("reopen", d); }
    if (y.items.size() && What([&] { UbPsiClientCacheFileStore again(fpath, 11); }).empty()) mc::Fail("cipher-len", d);
    for (auto& [k, c] : x.items) if (!mem->Find(Ct(k))) mc::Fail("find", d); if (mem->Find("nothing")) mc::Fail("find", d);
    mc::Nontrivial(H(d)); mc::Sample(d);
  }
  mc::Out("ok");
}
// ------------------------------------------------------- cluster task descriptions
static void Kuscia(int n, int self, int shape) {
  using nlohmann::json; Strs names; for (int i = 0; i < n; ++i) names.push_back(shape & 1 ? "p" + S(9 - i) : std::string(1, "bac"[i % 3]) + (i >= 3 ? "2" : ""));
  json def; def["self_party_idx"] = self; def["self_endpoint_idx"] = 0;
  for (int i = 0; i < n; ++i) { json p; p["name"] = names[i]; p["role"] = i ? "x" : ""; p["services"] = json::array({{{"port_name", "psi"}, {"endpoints", json::array({"ep" + S(i) + ".svc:80", "second:1"})}}}); if (shape & 2) p["services"].push_back({{"port_name", "aux"}, {"endpoints", json::array({"aux:2"})}}); def["parties"].push_back(p); }
  json ports; ports["ports"] = json::array({{{"name", "psi"}, {"port", 31000 + self}, {"scope", "Cluster"}, {"protocol", "HTTP"}}}); if (shape & 2) ports["ports"].push_back({{"name", "aux"}, {"port", 1}, {"scope", "Local"}, {"protocol", "GRPC"}});
  json cfg; for (int i = 0; i < n; ++i) { LaunchConfig lc; auto* c = lc.mutable_psi_config(); c->mutable_input_config()->set_path("/in/" + names[i] + ".csv"); c->add_keys("k" + S(i)); c->mutable_protocol_config()->set_role(i ? v2::ROLE_SENDER : v2::ROLE_RECEIVER); if (shape & 4) lc.mutable_link_config()->set_recv_timeout_ms(1000 + i); std::string js; (void)google::protobuf::util::MessageToJsonString(lc, &js); cfg["sf_psi_config_map"][names[i]] = json::parse(js); }
  json t; t["task_id"] = "task-" + S(shape); t["task_cluster_def"] = def.dump(); t["allocated_ports"] = ports.dump(); t["task_input_config"] = cfg.dump();
  auto d = fmt::format("parties {}, self {}, shape {}", names, self, shape);
  KusciaTask k; auto e = What([&] { k = FromKusciaConfig(t.dump()); }); if (!e.empty()) mc::Fail("refused", e + " :: " + d);
  if (k.task_id != "task-" + S(shape)) mc::Fail("task-id", d);
  auto& lc = k.launch_config; if (lc.self_link_party() != names[self]) mc::Fail("self", d);
  if (lc.psi_config().input_config().path() != "/in/" + names[self] + ".csv" || lc.psi_config().keys(0) != "k" + S(self) || lc.psi_config().protocol_config().role() != (self ? v2::ROLE_SENDER : v2::ROLE_RECEIVER)) mc::Fail("config", "the configuration of another party was taken: " + d);
  if ((shape & 4) && lc.link_config().recv_timeout_ms() != (uint64_t)(1000 + self)) mc::Fail("link-options", d);
  Strs sorted = Sorted(names); if (lc.link_config().parties_size() != n) mc::Fail("parties", d);
  for (int i = 0; i < n; ++i) { auto& p = lc.link_config().parties(i); if (p.id() != sorted[i]) mc::Fail("order", fmt::format("party {} is {}: {}", i, p.id(), d)); int o = std::find(names.begin(), names.end(), p.id()) - names.begin(); auto want = o == self ? "0.0.0.0:" + S(31000 + self) : "http://ep" + S(o) + ".svc:80"; if (p.host() != want) mc::Fail("address", fmt::format("party {} at {} instead of {}: {}", p.id(), p.host(), want, d)); }
  if (lc.link_config().brpc_channel_protocol() != "http" || lc.link_config().brpc_channel_connection_type() != "pooled") mc::Fail("channel", d);
  mc::Count(1); mc::Nontrivial(H(d)); mc::Out(S(lc.link_config().parties_size())); mc::Sample(d);
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "h_misc"); g_quick = s.Quick(); bool T = !g_quick;
  mc::Opts o; o.points = 0; o.cpu_s = 200; mc::Opts ns = o; ns.sched = false;
  const char* set = getenv("MISC_SET"); auto on = [&](const char* x) { return !set || !strcmp(set, x); };
  if (on("gdb")) {
    for (int kind = 0; kind < 4; ++kind) for (int n : {1, 2, 3, 7, 20}) for (bool lab : {false, true}) for (auto [g, b] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 4}, {2, 4}, {3, 4}, {4, 4}, {3, 10}, {4, 9}, {5, 6}, {7, 3}}) { size_t gg = g, bb = b; s.Add(fmt::format("gdb/k{}/n{}/{}/{}x{}", kind, n, lab, g, b), ns, [=] { Gdb(kind, n, lab, gg, bb, 0); }); }
    for (size_t procs : {1, 2, 3, 5}) for (int n : {1, 7}) for (size_t g : {1, 3, 4}) for (bool lab : {false, true}) s.Add(fmt::format("gdb-procs/{}/{}/{}/{}", procs, n, g, lab), ns, [=] { Gdb(0, n, lab, g, 9, procs); });
    for (size_t procs : {0, 1, 2, 4}) for (int n : {1, 6}) for (size_t g : {1, 4}) for (int dup = 0; dup < (n == 1 ? 2 : 6); ++dup) s.Add(fmt::format("gdb-dup/{}/{}/{}/{}", procs, n, g, dup), ns, [=] { GdbBad(n, g, 9, procs, dup); });
    for (bool lab : {false, true}) for (bool again : {false, true}) for (auto [n, g, b] : std::vector<std::array<int, 3>>{{1, 1, 1}, {3, 1, 2}, {4, 2, 3}, {6, 3, 7}}) { int nn = n, gg = g, bb = b; if (!T && again && n == 6) continue; s.Add(fmt::format("gdb-crash/{}/{}/{}x{}x{}", lab, again, n, g, b), ns, [=] { GdbCrash(nn, lab, gg, bb, again); }); }
    for (size_t procs : {1, 2}) for (auto [n, g, b] : std::vector<std::array<int, 3>>{{3, 2, 2}, {6, 3, 7}}) { int nn = n, gg = g, bb = b; s.Add(fmt::format("gdb-worker/{}/{}x{}x{}", procs, n, g, b), ns, [=] { GdbWorker(nn, gg, bb, procs); }); }
    for (int kind = 0; kind < 4; ++kind) for (int n : {1, 2, 5, 12}) for (bool lab : {false, true}) for (size_t b : {1, 2, 3, 8}) s.Add(fmt::format("buckets/k{}/n{}/{}/{}", kind, n, lab, b), ns, [=] { Buckets(kind, n, lab, b); });
  }
  if (on("conv")) {
    for (int rows : {1, 2, 5}) for (int w = 0; w < 4; ++w) s.Add(fmt::format("faults/{}/{}", rows, w), ns, [=] { ConvFaults(rows, w); });
    for (int rows = 1; rows <= (T ? 4 : 3); ++rows) for (int l = 1; l <= 2; ++l) { int n = rows * l > 6 ? 32 : rows * l > 4 ? 8 : 1; for (int p = 0; p < n; ++p) s.Add(fmt::format("reserved/{}/{}/{}", rows, l, p), ns, [=] { Reserved(rows, l, p, n); }); }
    for (int kind = 0; kind < 4; ++kind) for (bool lab : {false, true}) for (int n = 1; n <= (T ? 8 : 5); ++n) s.Add(fmt::format("results/k{}/{}/{}", kind, lab, n), ns, [=] { Results(kind, n, lab, std::min(n - 1, 2)); });
    for (int kind = 0; kind < 4; ++kind) for (int keys = 1; keys <= 3; ++keys) for (int rows = 1; rows <= (T ? 5 : 4); ++rows) for (int lab = 1; lab <= 3; ++lab) for (int ord : {0, 1}) s.Add(fmt::format("convert/k{}/{}/{}/{}/{}", kind, keys, rows, lab, ord), ns, [=] { Convert(kind, keys, rows, lab, ord); });
  }
  if (on("check")) {
    for (int rows = 0; rows <= (T ? 4 : 3); ++rows) { int parts = rows >= 4 ? 16 : rows >= 3 ? 6 : 1; for (int p = 0; p < parts; ++p) s.Add(fmt::format("precheck/1/{}/{}", rows, p), ns, [=] { Precheck(1, rows, p, parts, 0); }); }
    for (int rows = 1; rows <= (T ? 3 : 2); ++rows) for (int ex : {0, 1}) { int parts = rows == 3 ? 32 : rows == 2 ? 4 : 1; for (int p = 0; p < parts; ++p) s.Add(fmt::format("precheck/2/{}/{}/{}", rows, p, ex), ns, [=] { Precheck(2, rows, p, parts, ex); }); }
    s.Add("digests", ns, [=] { Digests(T ? 5 : 4); });
    for (int dups : {0, 1, 2}) for (auto tool : {"sort", "uniq"}) for (int how = 0; how < 5; ++how) { std::string tl = tool; s.Add(fmt::format("tools/{}/{}/{}", dups, tool, how), ns, [=] { PrecheckTools(dups, tl, how); }); }
  }
  if (on("store")) {
    for (int rows = 0; rows <= 9; ++rows) for (int c : {1, 2}) for (size_t b : {1, 2, 4, 100}) s.Add(fmt::format("lookup/{}/{}/{}", rows, c, b), o, [=] { Lookup(rows, c, b); });
    auto ms = Mults(T ? 4 : 3, 2);
    for (size_t i = 0; i < ms.size(); ++i) for (size_t bins : {1, 3}) s.Add(fmt::format("stores/{}/{}", i, bins), o, [=] { for (auto& b : Mults(T ? 4 : 3, 2)) Stores(ms[i], b, bins, 1 + i % 3); });
  }
  if (on("kuscia")) for (int n = 2; n <= 5; ++n) for (int self = 0; self < n; ++self) for (int sh = 0; sh < 8; ++sh) s.Add(fmt::format("kuscia/{}/{}/{}", n, self, sh), ns, [=] { Kuscia(n, self, sh); });
  return s.Run();
}
