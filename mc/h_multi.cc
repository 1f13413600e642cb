#include <sys/stat.h>
#include <unistd.h>
// Multi-party intersection: every distribution of a few keys over the parties
// (which parties hold each key), every choice of roles, with and without
// broadcast, for the in-memory operators, the server-aided protocol, the
// OPPRF-based one and the table-level (bucketed CSV) runner.
#include "psilib.h"
#include "yacl/utils/parallel.h"
#include <numeric>
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "psi/legacy/bucket_psi.h"
#include "psi/legacy/memory_psi.h"
#include "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.h"
using namespace lib;
using namespace psi;
// a distribution: how many keys are held by exactly the parties of each mask
using Dist = std::vector<std::pair<int, int>>;   // (mask, count)
static std::vector<std::string> kNames{"k7", "a", "zz", "m-1", "0", "key five", "b", "Q", "x", "w"};
struct Sets { std::vector<std::vector<std::string>> in; std::set<std::string> common; std::string id; };
static Sets Build(int n, const Dist& d, bool rev) {
  Sets s; s.in.resize(n); int k = 0;
  for (auto [m, c] : d) { s.id += fmt::format("{}{}x{}", s.id.empty() ? "" : "_", m, c); for (int i = 0; i < c; ++i) { auto name = k < (int)kNames.size() ? kNames[k] : "n" + S(k); ++k; for (int p = 0; p < n; ++p) if (m >> p & 1) s.in[p].push_back(name); if (m == (1 << n) - 1) s.common.insert(name); } }
  for (int p = 0; p < n; ++p) if (rev != (p % 2 == 1)) std::reverse(s.in[p].begin(), s.in[p].end());
  if (s.id.empty()) s.id = "none";
  return s;
}
// all distributions with at most `per` keys per mask and `total` keys
static std::vector<Dist> Dists(int n, int per, int total) {
  std::vector<Dist> out; int M = (1 << n) - 1;
  std::function<void(int, int, Dist)> go = [&](int m, int left, Dist d) {
    if (m > M) { out.push_back(d); return; }
    for (int c = 0; c <= std::min(per, left); ++c) { auto e = d; if (c) e.push_back({m, c}); go(m + 1, left - c, e); }
  };
  go(1, total, {});
  return out;
}
static void Judge(const std::string& what, int rank, std::vector<std::string> got, const std::set<std::string>& want, const std::string& desc) {
  std::sort(got.begin(), got.end());
  if (got != std::vector<std::string>(want.begin(), want.end())) mc::Fail(what, fmt::format("party {} got {} expected {} :: {}", rank, got, want, desc));
}
static std::vector<std::string> Errs(const std::vector<std::string>& e, const std::string& desc) { for (size_t i = 0; i < e.size(); ++i) if (!e[i].empty()) mc::Fail("error", fmt::format("party {}: {} :: {}", i, e[i], desc)); return e; }
static void Done(const std::string& desc, size_t n) { mc::Out(S(n)); mc::Nontrivial(H(desc)); mc::Sample(desc + fmt::format(" -> {} common", n)); }
static void Mem(PsiType type, int n, int recv, bool bc, const Sets& s, CurveType curve) {
  Hermetic();
  auto desc = fmt::format("{} receiver {} broadcast {} curve {} inputs {}", PsiType_Name(type), recv, bc, (int)curve, s.in);
  auto ctx = World(n); std::vector<std::vector<std::string>> out(n); std::vector<std::function<void()>> f;
  for (int p = 0; p < n; ++p) f.push_back([&, p] { MemoryPsiConfig c; c.set_psi_type(type); c.set_receiver_rank(recv); c.set_broadcast_result(bc); c.set_curve_type(curve); out[p] = MemoryPsi(c, ctx[p]).Run(s.in[p]); });
  Errs(mc::RunParties(f), desc);
  for (int p = 0; p < n; ++p) if (bc || p == recv) Judge("result", p, out[p], s.common, desc); else Judge("disclosed", p, out[p], {}, desc);
  if (ctx[0]->ShimWorld()->Leftover()) mc::Fail("leftover", "messages were never received :: " + desc);
  Done(desc, s.common.size());
}
static uint128_t Num(const std::string& s) { uint128_t v = 0x9e3779b97f4a7c15; for (char c : s) v = v * 0x100000001b3ull + (unsigned char)c; return v ^ (v << 61); }
static void Nty(int n, int aided, int helper, int recv, bool bc, const Sets& s) {
  Hermetic();
  auto desc = fmt::format("server-aided: {} parties, server {} helper {} receiver {} broadcast {} inputs {}", n, aided, helper, recv, bc, s.in);
  auto ctx = World(n); std::vector<std::vector<std::string>> out(n); std::map<uint128_t, std::string> name; std::vector<std::function<void()>> f;
  for (auto& v : s.in) for (auto& k : v) name[Num(k)] = k;
  for (int p = 0; p < n; ++p) f.push_back([&, p] {
    nty::NtyMPsiOptions o(1, aided, helper, recv, bc); o.link_ctx = ctx[p]; nty::NtyMPsi op(o);
    std::vector<uint128_t> in; for (auto& k : s.in[p]) in.push_back(Num(k));
    for (auto v : op.Run(in)) out[p].push_back(name.count(v) ? name[v] : "(unknown value)");
  });
  Errs(mc::RunParties(f), desc);
  for (int p = 0; p < n; ++p) if (bc || p == recv) Judge("result", p, out[p], s.common, desc); else Judge("disclosed", p, out[p], {}, desc);
  if (ctx[0]->ShimWorld()->Leftover()) mc::Fail("leftover", "messages were never received :: " + desc);
  Done(desc, s.common.size());
}
static void Kmprt(int n, int leader, const Sets& s) {
  Hermetic();
  auto desc = fmt::format("opprf: {} parties, leader {} inputs {}", n, leader, s.in);
  auto ctx = World(n); std::vector<std::vector<std::string>> out(n); std::vector<std::function<void()>> f;
  for (int p = 0; p < n; ++p) f.push_back([&, p] { ::psi::psi::KmprtParty::Options o; o.link_ctx = ctx[p]; o.leader_rank = leader; out[p] = ::psi::psi::KmprtParty(o).Run(s.in[p]); });
  Errs(mc::RunParties(f), desc);
  for (int p = 0; p < n; ++p) if (p == leader) Judge("result", p, out[p], s.common, desc); else Judge("disclosed", p, out[p], {}, desc);
  Done(desc, s.common.size());
}
// the table-level runner: key columns in any position, several buckets
static void Bucket(PsiType type, int n, int recv, bool bc, bool sort, bool two, int bucket, const Sets& s, bool rel = false) {
  Hermetic(); auto dir = mc::ScratchDir(); if (chdir(dir.c_str())) mc::Fail("harness", "chdir");
  auto desc = fmt::format("{} over tables, receiver {} broadcast {} sort {} two columns {} bucket size {} keys {}", PsiType_Name(type), recv, bc, sort, two, bucket, s.in);
  auto ctx = World(n); std::vector<std::function<void()>> f; std::vector<PsiResultReport> rep(n); std::vector<Rows> rows(n); std::vector<std::vector<std::string>> head(n);
  auto k2 = [](const std::string& k) { return std::string(k.size() % 2 ? "p" : "q") + k.substr(0, 1); };
  for (int p = 0; p < n; ++p) {
    auto w = "p" + S(p); int i = 0;
    head[p] = p % 2 ? std::vector<std::string>{"v" + w, "k1" + w} : std::vector<std::string>{"k1" + w, "v" + w};
    if (two) head[p].insert(head[p].begin() + 1, "k2" + w);
    for (auto& k : s.in[p]) { auto v = w + "-" + S(i++); std::vector<std::string> r = p % 2 ? std::vector<std::string>{v, k} : std::vector<std::string>{k, v}; if (two) r.insert(r.begin() + 1, k2(k)); rows[p].push_back(r); }
    WriteCsv(dir + "/in" + S(p), head[p], rows[p]);
    f.push_back([&, p, w] {
      BucketPsiConfig c; c.set_psi_type(type); c.set_receiver_rank(recv); c.set_broadcast_result(bc); c.set_bucket_size(bucket);
      c.mutable_input_params()->set_path(dir + "/in" + S(p)); c.mutable_input_params()->add_select_fields("k1" + w); if (two) c.mutable_input_params()->add_select_fields("k2" + w); c.mutable_input_params()->set_precheck(true);
      c.mutable_output_params()->set_path(rel ? "out" + S(p) : dir + "/o" + S(p) + "/out"); c.mutable_output_params()->set_need_sort(sort); if (rel) c.mutable_input_params()->set_path("in" + S(p));
      rep[p] = BucketPsi(c, ctx[p]).Run();
    });
  }
  Errs(mc::RunParties(f), desc);
  if (rel) for (int p = 0; p < n; ++p) { std::filesystem::create_directories(dir + "/o" + S(p)); if (std::filesystem::exists(dir + "/out" + S(p))) std::filesystem::rename(dir + "/out" + S(p), dir + "/o" + S(p) + "/out"); }
  if (rel) for (auto& e : std::filesystem::directory_iterator(dir)) { auto b = e.path().filename().string(); if (b.rfind("in", 0) && b.rfind("o", 0)) mc::Fail("litter", fmt::format("{} was left behind :: {}", b, desc)); }
  bool equal = true; for (int p = 1; p < n; ++p) equal = equal && s.in[p] == s.in[0];
  std::vector<std::vector<std::string>> order(n);
  for (int p = 0; p < n; ++p) {
    auto path = dir + "/o" + S(p) + "/out";
    if (rep[p].original_count() != (int64_t)s.in[p].size()) mc::Fail("origcount", fmt::format("party {} original_count {} :: {}", p, rep[p].original_count(), desc));
    if (!bc && p != recv) { if (std::filesystem::exists(path)) mc::Fail("disclosed", fmt::format("party {} has an output :: {}", p, desc)); if (rep[p].intersection_count() != -1) mc::Fail("disclosed", fmt::format("party {} reports the size {} :: {}", p, rep[p].intersection_count(), desc)); continue; }
    if (!std::filesystem::exists(path)) mc::Fail("no-output", fmt::format("party {} :: {}", p, desc));
    auto got = ParseCsv(ReadFile(path)); if (got.empty() || got[0] != head[p]) mc::Fail("header", fmt::format("party {}: {} :: {}", p, Str(got), desc));
    got.erase(got.begin());
    std::vector<std::string> a, b; for (auto& r : got) { a.push_back(S(r)); order[p].push_back(r[p % 2 ? r.size() - 1 : 0]); }
    for (size_t i = 0; i < rows[p].size(); ++i) if (s.common.count(s.in[p][i])) b.push_back(S(rows[p][i]));
    if (!sort || equal) { if (a != b) mc::Fail("result", fmt::format("party {} got {} expected {} :: {}", p, a, b, desc)); }
    else if (Sorted(a) != Sorted(b)) mc::Fail("result", fmt::format("party {} got {} expected {} :: {}", p, a, b, desc));
    if (rep[p].intersection_count() != (int64_t)s.common.size()) mc::Fail("count", fmt::format("party {} intersection_count {} :: {}", p, rep[p].intersection_count(), desc));
    for (auto& e : std::filesystem::directory_iterator(dir + "/o" + S(p))) if (e.path().filename() != "out") mc::Fail("litter", fmt::format("party {} left {} behind :: {}", p, e.path().filename().string(), desc));
    if (sort && bc && p && order[p] != order[0]) mc::Fail("align", fmt::format("sorted outputs are not aligned: {} / {} :: {}", order[0], order[p], desc));
  }
  if (ctx[0]->ShimWorld()->Leftover()) mc::Fail("leftover", "messages were never received :: " + desc);
  Done(desc, s.common.size());
}
// one party's table is unusable: every party reports an error, nobody writes a result
static void BucketBad(PsiType type, int n, int who, const std::string& kind, bool same) {
  Hermetic(); auto dir = mc::ScratchDir(); if (chdir(dir.c_str())) mc::Fail("harness", "chdir");
  auto desc = fmt::format("{} over tables, party {} has {}, equal key columns {}", PsiType_Name(type), who, kind, same);
  auto ctx = World(n); std::vector<std::function<void()>> f;
  for (int p = 0; p < n; ++p) {
    Rows r{{"a", "1"}, {"b", "2"}, {"c", "3"}}; if (!same && p) r.pop_back();
    bool bad = p == who || same; std::vector<std::string> head{"k", "v"};
    if (bad && kind == "a repeated key") r.push_back({"b", "4"});
    if (bad && kind == "a repeated key at the ends") r.push_back({"a", "4"});
    if (bad && kind == "a key repeated three times") r.insert(r.end(), {{"a", "4"}, {"a", "5"}});
    if (bad && kind == "an empty key") r.insert(r.begin() + 1, {"", "4"});
    if (bad && kind == "a last empty key") r.push_back({"", "4"});
    if (bad && kind == "no such column") head[0] = "other";
    auto in = dir + "/in" + S(p), out = dir + "/o" + S(p) + "/out"; if (!(bad && kind == "no table")) WriteCsv(in, head, r);
    f.push_back([&, in, out, p] { BucketPsiConfig c; c.set_psi_type(type); c.set_receiver_rank(0); c.set_broadcast_result(true); c.set_bucket_size(2); c.mutable_input_params()->set_path(in); c.mutable_input_params()->add_select_fields("k"); c.mutable_input_params()->set_precheck(true); c.mutable_output_params()->set_path(out); c.mutable_output_params()->set_need_sort(true); BucketPsi(c, ctx[p]).Run(); });
  }
  auto e = mc::RunParties(f);
  for (int p = 0; p < n; ++p) { if (e[p].empty()) mc::Fail("accepted", fmt::format("party {} reports success :: {}", p, desc)); if (std::filesystem::exists(dir + "/o" + S(p) + "/out")) mc::Fail("output", fmt::format("party {} wrote a result :: {}", p, desc)); }
  for (auto& x : std::filesystem::directory_iterator(dir)) { auto b = x.path().filename().string(); if (b.rfind("in", 0) && b.rfind("o", 0)) mc::Fail("litter", fmt::format("{} was left behind :: {}", b, desc)); }
  mc::Out("refused"); mc::Nontrivial(H(desc)); mc::Sample(desc + " -> refused by all parties");
}
static std::string What(const std::function<void()>& f) { try { f(); return ""; } catch (std::exception& e) { return std::string("error: ") + e.what(); } }
// the row filter: any set of row indices, kept or dropped
static void Filter(int rows, int header, bool trailing) {
  auto dir = mc::ScratchDir();
  std::string in, hd; for (int i = 0; i < header; ++i) hd += "h" + S(i) + "\n"; in = hd; std::vector<std::string> line; for (int i = 0; i < rows; ++i) { line.push_back(i % 3 == 1 ? "row,\"" + S(i) + "\"" : "r" + S(i)); in += line.back(); if (trailing || i + 1 < rows) in += "\n"; }
  WriteFile(dir + "/in", in);
  for (uint64_t m = 0; m < (1ull << rows); ++m) for (bool diff : {false, true}) for (bool file : {false, true}) {
    std::vector<uint64_t> idx; std::string want = hd; for (int i = 0; i < rows; ++i) { if (m >> i & 1) idx.push_back(i); if (((m >> i & 1) != 0) != diff) want += line[i] + "\n"; }
    auto d = fmt::format("{} rows, {} header lines, indices {:b}, difference {}, {}", rows, header, m, diff, file ? "index file" : "index list");
    size_t n = 0;
    if (file) { { IndexWriter w(dir + "/idx", 3, true); for (auto i : idx) w.WriteCache(i); w.Commit(); } n = FilterFileByIndices(dir + "/in", dir + "/out", std::filesystem::path(dir + "/idx"), diff, header); }
    else n = FilterFileByIndices(dir + "/in", dir + "/out", idx, diff, header);
    if (n != idx.size()) mc::Fail("count", fmt::format("{} rows reported: {}", n, d));
    auto got = ReadFile(dir + "/out"); if (got != want) mc::Fail("rows", fmt::format("{:?} instead of {:?}: {}", got, want, d));
    mc::Count(1); mc::Nontrivial(H(d));
  }
  // indices beyond the table are an error
  for (bool diff : {false, true}) { std::vector<uint64_t> bad{(uint64_t)rows}; if (!diff && What([&] { FilterFileByIndices(dir + "/in", dir + "/out", bad, diff, header); }).empty()) mc::Fail("beyond", fmt::format("an index beyond {} rows was accepted", rows)); }
  mc::Out("ok"); mc::Sample(fmt::format("{} rows, {} header lines: all subsets", rows, header));
}
// storage fails at every point of the filter: an error or the right file
static void FilterFaults(int rows, bool diff, bool file) {
  auto root = mc::ScratchDir();
  auto run = [&](const std::string& dir, long at, int torn) {
    mkdir(dir.c_str(), 0700); std::string in = "k,v\n"; for (int i = 0; i < rows; ++i) in += fmt::format("k{},v{}\n", i, i); WriteFile(dir + "/in", in); std::vector<uint64_t> idx; for (int i = 0; i < rows; i += 2) idx.push_back(i); { IndexWriter w(dir + "/idx", 3, true); for (auto i : idx) w.WriteCache(i); w.Commit(); }
    return mc::Sub([&] { mc::FsArm(dir, -1, at, torn); auto e = What([&] { if (file) FilterFileByIndices(dir + "/in", dir + "/out", std::filesystem::path(dir + "/idx"), diff, 1); else FilterFileByIndices(dir + "/in", dir + "/out", idx, diff, 1); }); mc::FsDisarm(); return e; });
  };
  auto r0 = run(root + "/p", -1, 0); if (!r0.ok || !r0.out.empty()) mc::Fail("probe", r0.out); auto want = ReadFile(root + "/p/out");
  for (size_t at = 0; at < r0.log.size(); ++at) for (int torn : {3, 4}) {
    auto dir = root + fmt::format("/d{}-{}", at, torn); auto r = run(dir, (long)at, torn); auto d = fmt::format("{} rows, difference {}, {}, {} operation {}/{} ({})", rows, diff, file ? "index file" : "index list", torn == 3 ? "no space at" : "no space from", at, r0.log.size(), r0.log[at].op);
    if (r.ok && r.out.empty() && ReadFile(dir + "/out") != want) mc::Fail("storage", "success was reported but the output is not complete: " + d);
    mc::Count(1); mc::Nontrivial(H(d)); mc::Sample(d + " -> " + (r.out.empty() ? "complete" : "error"));
  }
  mc::Out("ok");
}
int main(int argc, char** argv) {
  mc::Suite su(argc, argv, "multi");
  bool T = !su.Quick(); std::string what = getenv("MU_SET") ? getenv("MU_SET") : "all"; auto on = [&](const char* x) { return what == x || what == "all"; };
  mc::Opts o;
  int alt = 0; auto revs = [&](std::function<void(bool)> f) { if (T) { f(false); f(true); } else f(alt++ % 2); };
  auto mem = [&](PsiType t, int n, int recv, bool bc, const Dist& d, CurveType cv = CURVE_25519, mc::Opts oo = {}) { revs([&](bool r) { auto s = Build(n, d, r); su.Add(fmt::format("mem:{}:{}:{}:{}:{}:{}:{}{}", (int)t, n, recv, (int)bc, (int)cv, s.id, (int)r, oo.delays ? ":sched" : ""), oo, [=] { Mem(t, n, recv, bc, s, cv); }); }); };
  if (on("mem")) {
    for (int recv = 0; recv < 2; ++recv) for (int bc = 0; bc < 2; ++bc) for (auto& d : Dists(2, 3, T ? 6 : 4)) { mem(KKRT_PSI_2PC, 2, recv, bc, d); mem(ECDH_PSI_NPC, 2, recv, bc, d); mem(KKRT_PSI_NPC, 2, recv, bc, d); }
    for (int recv = 0; recv < 3; ++recv) for (int bc = 0; bc < 2; ++bc) for (auto& d : Dists(3, 2, T ? 5 : 4)) { if (!T && (int)(d.size() + recv + bc) % 2 && d.size() > 2) continue; for (auto t : {ECDH_PSI_3PC, ECDH_PSI_NPC, KKRT_PSI_NPC}) mem(t, 3, recv, bc, d); }
    for (int recv = 0; recv < 4; ++recv) for (int bc = 0; bc < 2; ++bc) for (auto& d : Dists(4, T ? 2 : 1, T ? 4 : 3)) { if (!T && (d.size() > 2) && (d.back().first != 15 || (d[0].first + recv) % 2)) continue; for (auto t : {ECDH_PSI_NPC, KKRT_PSI_NPC}) { auto e = d; mem(t, 4, recv, bc, e); if (!d.empty() && d.back().first == 15) { e.back().second = 3; mem(t, 4, recv, bc, e); } } }
    for (int n : {5, 6, 7}) for (int recv = 0; recv < n; ++recv) for (int bc = 0; bc < 2; ++bc) for (int hole = -1; hole < n; ++hole) { int all = (1 << n) - 1; Dist d{{all & ~3, 1}, {all, 2}}; if (hole >= 0) { d[0].first = all & ~(1 << hole); std::sort(d.begin(), d.end()); } if (!T && n > 5 && (hole + recv) % 3) continue; for (auto t : {ECDH_PSI_NPC, KKRT_PSI_NPC}) { mem(t, n, recv, bc, d); mem(t, n, recv, bc, {d[0]}); } }
    for (auto cv : {CURVE_FOURQ, CURVE_SM2, CURVE_SECP256K1, CURVE_25519_ELLIGATOR2}) for (int n : {2, 3}) for (auto t : {ECDH_PSI_3PC, ECDH_PSI_NPC}) { if (t == ECDH_PSI_3PC && n == 2) continue; for (int recv = 0; recv < n; ++recv) for (auto& d : Dists(n, 1, 3)) mem(t, n, recv, true, d, cv); }
    mc::Opts od; od.delays = 1; od.split = true;
    if (T) for (auto t : {ECDH_PSI_3PC, ECDH_PSI_NPC}) mem(t, 3, 1, true, {{3, 1}, {7, 1}}, CURVE_25519, od);
  }
  if (on("nty")) {
    for (int n = 3; n <= 5; ++n) for (int a = 0; a < n; ++a) for (int h = 0; h < n; ++h) for (int r = 0; r < n; ++r) for (int bc = 0; bc < 2; ++bc) {
      if (a == h || a == r || h == r) continue;
      int all = (1 << n) - 1;
      std::vector<Dist> ds; if (n == 3) ds = Dists(3, T ? 2 : 1, T ? 4 : 3); else { ds = {{{all, 3}}}; for (int hole = 0; hole < n; ++hole) { ds.push_back({{1 << hole, 1}, {all, 1}}); ds.push_back({{all & ~(1 << hole), 1}, {all, 2}}); if (T) ds.push_back({{all & ~(1 << hole), 2}}); } if (!T && n == 5 && (a + h + r + bc) % 3) ds.resize(2); }
      for (auto& d : ds) revs([&](bool rv) { auto s = Build(n, d, rv); bool empty = false; for (auto& x : s.in) empty = empty || x.empty(); if (empty) return; su.Add(fmt::format("nty:{}:{}{}{}:{}:{}:{}", n, a, h, r, bc, s.id, (int)rv), o, [=] { Nty(n, a, h, r, bc, s); }); });
    }
  }
  if (on("kmprt")) {
    for (int n = 2; n <= (T ? 5 : 4); ++n) for (int l = 0; l < n; ++l) {
      int all = (1 << n) - 1; std::vector<Dist> ds;
      if (n == 2) ds = Dists(2, 3, T ? 6 : 4); else if (n == 3) ds = Dists(3, 2, T ? 4 : 3); else { ds = {{{all, 4}}}; for (int hole = 0; hole < n; ++hole) { ds.push_back({{1 << hole, 3}, {all, 1}}); ds.push_back({{all & ~(1 << hole), 2}, {all, 2}}); } }
      for (auto& d : ds) revs([&](bool rv) { auto s = Build(n, d, rv); su.Add(fmt::format("kmprt:{}:{}:{}:{}", n, l, s.id, (int)rv), o, [=] { Kmprt(n, l, s); }); });
    }
  }
  if (on("bucket")) {
    auto bk = [&](PsiType t, int n, int recv, bool bc, bool so, bool two, int b, const Dist& d) { revs([&](bool r) { auto s = Build(n, d, r); su.Add(fmt::format("bucket:{}:{}:{}:{}{}{}:{}:{}:{}", (int)t, n, recv, (int)bc, (int)so, (int)two, b, s.id, (int)r), o, [=] { Bucket(t, n, recv, bc, so, two, b, s); }); }); };
    for (int recv = 0; recv < 2; ++recv) for (int bc = 0; bc < 2; ++bc) for (int so = 0; so < 2; ++so) for (int two = 0; two < 2; ++two) for (int b : {1, 2, 100}) for (auto& d : Dists(2, T ? 3 : 2, T ? 6 : 4)) { if (!T && (int)(d.size() + recv + bc + so + two) % 2 && d.size() > 1) continue; bk(KKRT_PSI_2PC, 2, recv, bc, so, two, b, d); }
    for (auto t : {ECDH_PSI_3PC, ECDH_PSI_NPC, KKRT_PSI_NPC}) for (int recv = 0; recv < 3; ++recv) for (int bc = 0; bc < 2; ++bc) for (int so = 0; so < 2; ++so) for (int b : {1, 2}) for (auto& d : Dists(3, 1, T ? 7 : 3)) { if (!T && (int)(d.size() + recv + bc + so + b) % 2) continue; bk(t, 3, recv, bc, so, (recv + b) % 2, b, d); }
  }
  if (on("bucket")) for (auto [t, n] : std::vector<std::pair<PsiType, int>>{{KKRT_PSI_2PC, 2}, {ECDH_PSI_3PC, 3}, {ECDH_PSI_NPC, 3}, {KKRT_PSI_NPC, 4}}) for (int who = 0; who < n; ++who) for (int same = 0; same < 2; ++same) for (std::string k : {"a repeated key", "a repeated key at the ends", "a key repeated three times", "an empty key", "a last empty key", "no such column", "no table"}) { if (same && who) continue; su.Add(fmt::format("bad:{}:{}:{}:{}", (int)t, who, same, k), o, [=, t = t, n = n] { BucketBad(t, n, who, k, same); }); }
  if (on("bucket")) {   // lists whose concatenations agree although the keys differ
    std::vector<std::vector<std::vector<std::string>>> groups{{{"ab", "c"}, {"a", "bc"}, {"abc"}}, {{"a", "b"}, {"ab"}}, {{"1", "23", "4"}, {"12", "3", "4"}, {"1", "2", "34"}}};
    int gi = 0; for (auto& g : groups) { ++gi; for (size_t x = 0; x < g.size(); ++x) for (size_t y = 0; y < g.size(); ++y) if (x != y) for (auto [t, n] : std::vector<std::pair<PsiType, int>>{{KKRT_PSI_2PC, 2}, {ECDH_PSI_3PC, 3}, {ECDH_PSI_NPC, 3}, {KKRT_PSI_NPC, 3}}) for (int two = 0; two < 2; ++two) {
      if (!T && two && n > 2) continue;
      Sets s; s.in.assign(n, g[y]); s.in[0] = g[x]; s.id = fmt::format("concat{}-{}-{}", gi, x, y); std::map<std::string, int> c; for (auto& v : s.in) for (auto& k : v) ++c[k]; for (auto& [k, m] : c) if (m == n) s.common.insert(k);
      if (gi == 2) for (int so = 0; so < 2; ++so) su.Add(fmt::format("relative:{}:{}:{}:{}:{}", (int)t, n, two, so, s.id), o, [=, t = t, n = n] { Bucket(t, n, 0, true, so, two, 1, s, true); });
      for (int bc = 0; bc < 2; ++bc) su.Add(fmt::format("bucket:{}:{}:{}{}:{}", (int)t, n, two, bc, s.id), o, [=, t = t, n = n] { Bucket(t, n, 0, bc, true, two, 2, s); });
    } }
  }
  if (on("bucket")) for (int rows = 0; rows <= (T ? 9 : 6); ++rows) for (int h : {0, 1, 2}) for (bool tr : {false, true}) su.Add(fmt::format("filter:{}:{}:{}", rows, h, tr), o, [=] { Filter(rows, h, tr); });
  if (on("bucket")) for (int rows : {1, 3, 2000}) for (bool df : {false, true}) for (bool fl : {false, true}) su.Add(fmt::format("filter-fault:{}:{}:{}", rows, df, fl), o, [=] { FilterFaults(rows, df, fl); });
  if (what == "sched") {   // every single preemption of every thread, around three orders of running them
    yacl::shim_par::Concurrent() = true;
    for (int pol = 0; pol < 3; ++pol) {
      mc::Opts p; p.delays = 1; p.split = true; p.policy = pol; auto pm = p; pm.points |= 1u << mc::kMem; pm.shared_mem = true;
      std::vector<Dist> ds{{{3, 1}, {7, 1}}}; if (T) ds.push_back({{5, 1}, {6, 1}, {7, 1}});
      for (size_t k = 0; k < ds.size(); ++k) {
        auto s3 = Build(3, ds[k], false);
        for (auto t : {ECDH_PSI_3PC, ECDH_PSI_NPC}) for (int recv = 0; recv < (T ? 3 : 1); ++recv) for (int bc = T ? 0 : 1; bc < 2; ++bc) su.Add(fmt::format("sched:mem:{}:{}:{}:{}:P{}", (int)t, recv, bc, k, pol), pm, [=] { Mem(t, 3, recv, bc, s3, CURVE_25519); });
        su.Add(fmt::format("sched:kkrt:{}:P{}", k, pol), p, [=] { Mem(KKRT_PSI_NPC, 3, 1, true, s3, CURVE_25519); });
        su.Add(fmt::format("sched:nty:{}:P{}", k, pol), pm, [=] { Nty(3, 0, 1, 2, true, s3); });
        su.Add(fmt::format("sched:kmprt:{}:P{}", k, pol), pm, [=] { Kmprt(3, 0, s3); });
        for (auto t : {ECDH_PSI_3PC}) su.Add(fmt::format("sched:bucket:{}:{}:P{}", (int)t, k, pol), pm, [=] { Bucket(t, 3, 0, true, true, false, 2, s3); });
      }
    }
  }
  return su.Run();
}
