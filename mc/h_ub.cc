#include <unistd.h>
// Unbalanced PSI (offline cache generation and transfer, online queries), with
// and without an intersection threshold: every pair of small key multisets x
// way of producing the cache x join type x who gets the result, and histories
// of several online queries and cache regenerations over one cache.
#include "psilib.h"
#include "yacl/utils/parallel.h"
#include "psi/algorithm/ecdh/ub_psi/client.h"
#include "psi/algorithm/ecdh/ub_psi/server.h"
#include "psi/apps/psi_launcher/factory.h"
#include "experiment/psi/threshold_ub_psi/client.h"
#include "experiment/psi/threshold_ub_psi/server.h"
using namespace lib;
using psi::v2::UbPsiConfig;
struct Cfg {
  int path = 0 /*0 full, 1 offline+online, 2 gen+transfer+online*/, join = 0, left = 0 /*0 server 1 client*/; bool sres = true, cres = true, noalign = false, keyfile = false, twocol = false, count = false, rel = false; int batch = 0, thr = 0, srank = 0;
  std::string Id() const { return fmt::format("m{}j{}l{}s{}c{}n{}k{}w{}b{}t{}r{}f{}", path, join, left, (int)sres, (int)cres, (int)noalign, (int)keyfile, (int)twocol, batch, thr, srank, (int)count) + (rel ? "R" : ""); }
};
struct Round { bool offline; std::vector<int> ms, mcl; };
struct Srv : psi::ecdh::EcdhUbPsiServer { Srv(const UbPsiConfig& c, std::shared_ptr<yacl::link::Context> l, int b) : EcdhUbPsiServer(c, l) { psi_options_.batch_size = b; } };
struct Cli : psi::ecdh::EcdhUbPsiClient { Cli(const UbPsiConfig& c, std::shared_ptr<yacl::link::Context> l, int b) : EcdhUbPsiClient(c, l) { psi_options_.batch_size = b; } };
struct TSrv : psi::ecdh::ThresholdEcdhUbPsiServer { TSrv(const UbPsiConfig& c, std::shared_ptr<yacl::link::Context> l, int b) : ThresholdEcdhUbPsiServer(c, l) { psi_options_.batch_size = b; } };
struct TCli : psi::ecdh::ThresholdEcdhUbPsiClient { TCli(const UbPsiConfig& c, std::shared_ptr<yacl::link::Context> l, int b) : ThresholdEcdhUbPsiClient(c, l) { psi_options_.batch_size = b; } };
static std::unique_ptr<psi::AbstractUbPsiParty> Party(const Cfg& c, bool server, const UbPsiConfig& p, std::shared_ptr<yacl::link::Context> l) {
  if (!c.batch) return psi::createUbPsiParty(p, l);
  if (server) { if (c.thr) return std::make_unique<TSrv>(p, l, c.batch); return std::make_unique<Srv>(p, l, c.batch); }
  if (c.thr) return std::make_unique<TCli>(p, l, c.batch); return std::make_unique<Cli>(p, l, c.batch);
}
static UbPsiConfig Make(const Cfg& c, bool server, UbPsiConfig::Mode mode, const std::string& at) {
  auto dir = c.rel ? std::string() : at + "/";
  UbPsiConfig p; std::string w = server ? "s" : "c";
  p.set_mode(mode); p.set_role(server ? psi::v2::ROLE_SERVER : psi::v2::ROLE_CLIENT);
  bool needs_in = server ? mode != UbPsiConfig::MODE_ONLINE && mode != UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE : mode == UbPsiConfig::MODE_ONLINE || mode == UbPsiConfig::MODE_FULL;
  if (needs_in) { p.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_input_config()->set_path(dir + w + ".csv"); }
  p.add_keys(w + "k1"); if (c.twocol) p.add_keys(w + "k2");
  p.set_cache_path(dir + "cache_" + w); if (server && c.keyfile) p.set_server_secret_key_path(dir + "key.bin");
  p.set_server_get_result(c.sres); p.set_client_get_result(c.cres); p.set_disable_alignment(c.noalign);
  if (mode == UbPsiConfig::MODE_ONLINE || mode == UbPsiConfig::MODE_FULL) { p.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_output_config()->set_path(dir + w + ".out.csv"); p.set_intersection_threshold(c.thr); if (c.count) p.set_count_path(dir + w + ".cnt"); }
  p.set_advanced_join_type((psi::v2::PsiConfig::AdvancedJoinType)c.join);
  if (c.join) p.set_left_side(c.left == 0 ? psi::v2::ROLE_SERVER : psi::v2::ROLE_CLIENT);
  return p;
}
struct Side { std::vector<std::string> header; Rows rows; };
static Side MakeSide(const Cfg& c, bool server, const std::vector<std::string>& keys, const std::vector<int>& mult, bool rev) {
  Side s; std::string w = server ? "s" : "c"; int n = 0;
  if (server) s.header = c.twocol ? std::vector<std::string>{"sv", "sk2", "sk1"} : std::vector<std::string>{"sv", "sk1"};
  else s.header = c.twocol ? std::vector<std::string>{"ck1", "ck2", "cv"} : std::vector<std::string>{"ck1", "cv"};
  for (size_t i = 0; i < keys.size(); ++i) for (int j = 0; j < mult[i]; ++j) {
    std::string v = w + std::to_string((7 * n++ + 3) % 10), k1 = keys[i], k2;
    if (c.twocol) { auto p = k1.find('|'); k2 = k1.substr(p + 1); k1 = k1.substr(0, p); }
    std::vector<std::string> r;
    if (server) { r.push_back(v); if (c.twocol) r.push_back(k2); r.push_back(k1); } else { r.push_back(k1); if (c.twocol) r.push_back(k2); r.push_back(v); }
    s.rows.push_back(r);
  }
  if (rev) std::reverse(s.rows.begin(), s.rows.end());
  return s;
}
static std::string KeyOf(const Cfg& c, bool server, const std::vector<std::string>& r) {
  if (!server) return c.twocol ? r[0] + "|" + r[1] : r[0];
  return c.twocol ? r[2] + "|" + r[1] : r[1];
}
// the rows a party's result must hold when the parties agreed on the keys M
static std::vector<std::string> Expect(const Cfg& c, bool server, const Side& A, const Side& B, const std::set<std::string>& M) {
  int j = c.join == 0 ? 1 : c.join; std::map<std::string, int> peer;
  for (auto& r : server ? B.rows : A.rows) peer[KeyOf(c, !server, r)]++;
  std::vector<std::string> e; bool left = (c.left == 0) == server;
  bool own_ex = j == 4 || j == 5 || (j == 2 && left) || (j == 3 && !left), peer_ex = j == 4 || j == 5 || (j == 2 && !left) || (j == 3 && left);
  for (auto& r : server ? A.rows : B.rows) { auto k = KeyOf(c, server, r); if (M.count(k)) { if (j != 5) for (int i = 0; i < peer[k]; ++i) e.push_back(S(r)); } else if (own_ex) e.push_back(S(r)); }
  int pe = 0; for (auto& [k, n] : peer) if (!M.count(k)) pe += n;
  if (peer_ex) for (int i = 0; i < pe; ++i) e.push_back(S(std::vector<std::string>(c.twocol ? 3 : 2, "NULL")));
  return Sorted(e);
}
static void OneRun(const Cfg& c, const std::vector<std::string>& keys, const std::vector<Round>& rounds, bool rev) {
  Hermetic();
  auto dir = mc::ScratchDir(); if (c.rel && chdir(dir.c_str())) mc::Fail("harness", "chdir");
  std::string hist;
  if (c.keyfile) WriteFile(dir + "/key.bin", std::string(16, '\x11') + std::string(16, '\x05'));
  Side A, B;   // server, client
  int rn = 0;
  for (auto& R : rounds) {
    ++rn;
    std::filesystem::remove(dir + "/s.out.csv"); std::filesystem::remove(dir + "/c.out.csv"); std::filesystem::remove(dir + "/s.cnt"); std::filesystem::remove(dir + "/c.cnt");
    if (R.offline) { A = MakeSide(c, true, keys, R.ms, rev != (rn % 2 == 0)); WriteCsv(dir + "/s.csv", A.header, A.rows); }
    B = MakeSide(c, false, keys, R.mcl, !rev); WriteCsv(dir + "/c.csv", B.header, B.rows);
    hist += fmt::format("[{} server {} client {}]", R.offline ? "new cache" : "same cache", Str(A.rows), Str(B.rows));
    auto F = [&](const std::string& k, const std::string& m) { mc::Fail(k, m + " :: cfg " + c.Id() + " history " + hist); };
    psi::PsiResultReport rep[2];
    size_t left = 0;
    auto stage = [&](UbPsiConfig::Mode mode) {
      auto ctx = World(2, fmt::format("r{}m{}", rn, (int)mode));
      auto err = mc::RunParties({[&] { rep[0] = Party(c, true, Make(c, true, mode, dir), ctx[c.srank])->Run(); }, [&] { rep[1] = Party(c, false, Make(c, false, mode, dir), ctx[1 - c.srank])->Run(); }});
      if (!err[0].empty() || !err[1].empty()) F("error", fmt::format("mode {}: server '{}' client '{}'", (int)mode, err[0], err[1]));
      left += ctx[0]->ShimWorld()->Leftover();
    };
    if (R.offline && c.path == 2) {
      auto err = mc::RunParties({[&] { rep[0] = Party(c, true, Make(c, true, UbPsiConfig::MODE_OFFLINE_GEN_CACHE, dir), nullptr)->Run(); }});
      if (!err[0].empty()) F("error", "cache generation: " + err[0]);
      stage(UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE);
    }
    if (R.offline && c.path == 1) stage(UbPsiConfig::MODE_OFFLINE);
    if (R.offline && c.path == 0) stage(UbPsiConfig::MODE_FULL); else {
      std::filesystem::rename(dir + "/s.csv", dir + "/s.hidden");   // the online stage does not need the server's table
      stage(UbPsiConfig::MODE_ONLINE);
      std::filesystem::rename(dir + "/s.hidden", dir + "/s.csv");
    }
    if (left) F("leftover", fmt::format("{} messages were never received", left));
    std::map<std::string, int> ca, cb; std::vector<std::string> I;
    for (auto& r : A.rows) ca[KeyOf(c, true, r)]++;
    for (auto& r : B.rows) cb[KeyOf(c, false, r)]++;
    for (auto& [k, n] : ca) if (cb.count(k)) I.push_back(k);
    size_t want = c.thr ? std::min<size_t>(c.thr, I.size()) : I.size();
    auto expect = [&](bool server, const std::set<std::string>& M) { return Expect(c, server, A, B, M); };
    Rows out[2]; std::vector<std::string> got[2];
    for (int w = 0; w < 2; ++w) {
      bool entitled = w == 0 ? c.sres : c.cres; std::string path = dir + (w == 0 ? "/s.out.csv" : "/c.out.csv");
      if (!entitled) { if (std::filesystem::exists(path)) F("leak", std::string(w == 0 ? "server" : "client") + " has an output although it is not entitled to the result"); if (rep[w].intersection_count() > 0 || rep[w].intersection_key_count() > 0) F("leak-report", "report discloses the intersection size"); continue; }
      if (!std::filesystem::exists(path)) F("no-output", w == 0 ? "server output missing" : "client output missing");
      out[w] = ParseCsv(ReadFile(path));
      if (out[w].empty() || out[w][0] != (w == 0 ? A.header : B.header)) F("header", "wrong header " + Str(out[w]));
      out[w].erase(out[w].begin());
      for (auto& r : out[w]) got[w].push_back(S(r));
      got[w] = Sorted(got[w]);
    }
    // a threshold leaves the choice of the keys open, but both parties must see the same choice
    bool ok = false; std::string why; std::set<std::string> M;
    for (size_t m = 0; m < (1u << I.size()) && !ok; ++m) {
      if ((size_t)__builtin_popcount(m) != want) continue;
      M.clear(); for (size_t i = 0; i < I.size(); ++i) if (m >> i & 1) M.insert(I[i]);
      bool a = !c.sres || got[0] == expect(true, M), b = !c.cres || got[1] == expect(false, M);
      ok = a && b;
      if (!ok) why = fmt::format("server got {} client got {}, e.g. expected {} / {}", got[0], got[1], expect(true, M), expect(false, M));
    }
    if (!ok) F("result", why);
    for (int w = 0; w < 2; ++w) {
      auto &own = w == 0 ? ca : cb; long rows = 0; for (auto& k : M) rows += own[k];
      auto& rp = rep[w];
      if (w == 0 ? c.sres : c.cres) {
        if (c.thr == 0 && rp.intersection_count() != rows) F("count", fmt::format("{} intersection_count {} expected {}", w ? "client" : "server", rp.intersection_count(), rows));
        if (rp.intersection_key_count() != (long)want) F("keycount", fmt::format("{} intersection_key_count {} expected {}", w ? "client" : "server", rp.intersection_key_count(), want));
        if (c.thr && c.count) { auto s = ReadFile(dir + (w == 0 ? "/s.cnt" : "/c.cnt")); if (s != fmt::format("real_count,final_count\n{},{}\n", I.size(), want)) F("countfile", "count file: " + s); }
      }
      if (rp.original_count() != (long)(w == 0 ? A.rows.size() : B.rows.size())) F("origcount", fmt::format("{} original_count {}", w ? "client" : "server", rp.original_count()));
      if (rp.original_key_count() != (long)own.size()) F("origkeycount", fmt::format("{} original_key_count {}", w ? "client" : "server", rp.original_key_count()));
    }
    if (c.sres && c.cres && !c.noalign) {
      if (out[0].size() != out[1].size()) F("align", "outputs differ in length");
      for (size_t i = 0; i < out[0].size(); ++i) {
        bool na = out[0][i].back() == "NULL", nb = out[1][i].back() == "NULL";
        if (na && nb) F("align", "both sides NULL in one row");
        if (!na && !nb && KeyOf(c, true, out[0][i]) != KeyOf(c, false, out[1][i])) F("align", fmt::format("row {} pairs different keys: {} / {}", i, Str(out[0]), Str(out[1])));
      }
    }
    mc::Out(fmt::format("{}/{};", I.size(), want));
    mc::Nontrivial(H(c.Id() + hist));
    mc::Sample(hist + " -> server " + Str(out[0]) + " client " + Str(out[1]));
  }
}
// ---- faults ---------------------------------------------------------------
struct Fault { Cfg c; int hist = 0 /*0: first cache, 1: an older cache exists*/, stage = 0 /*0 offline, 1 online, 2 gen + transfer*/, kind = 0 /*0 both die 1 one dies 2 one file op fails 3 all later too 4.. link*/, party = 0;
  std::string Id() const { return fmt::format("{}:h{}:g{}:k{}:p{}", c.Id(), hist, stage, kind, party); } };
static void Wipe(const std::string& d) { for (auto& e : std::filesystem::directory_iterator(d)) std::filesystem::remove_all(e.path()); }
static void CopyTo(const std::string& a, const std::string& b) { Wipe(b); std::filesystem::copy(a, b, std::filesystem::copy_options::recursive); }
static std::string Cache(const std::string& dir, const char* w) { std::string o; for (auto* f : {"server_cache", "ub_psi_cache.bin"}) { auto p = dir + "/cache_" + w + "/" + f; if (std::filesystem::exists(p)) o += ReadFile(p); } return o; }
static mc::SubResult Stage(const Cfg& c, const std::string& dir, const std::vector<UbPsiConfig::Mode>& modes, int seed, const Fault* f, long at) {
  return mc::Sub([&]() -> std::string {
    shim::RngReset(seed); std::string out; long cnt = 0; bool down = false; std::set<std::pair<std::string, size_t>> broken; decltype(World(2, "", 1)[0]->ShimWorld()) cur;
    if (f && f->kind < 4) mc::FsArm(dir, f->party, f->kind < 2 ? at / 3 : at, f->kind < 2 ? at % 3 : f->kind + 1, f->kind == 1 ? std::function<void()>([&] { if (cur) { cur->dead.insert("party" + S(f->party)); cur->cv.notify_all(); } }) : nullptr);
    std::string err[2];
    for (auto mode : modes) {
      auto ctx = World(2, fmt::format("x{}m{}", seed, (int)mode), 20000); auto w = ctx[0]->ShimWorld(); cur = w;
      if (f && f->kind >= 4) {
        auto hitf = [&, how = f->kind - 4](const std::string& id, size_t src, size_t dst, bool send) {
          bool mine = (send ? src : dst) == (size_t)f->party;
          if (mine && send == (how < 2) && cnt++ == at) { if (how & 1) down = true; else broken.insert({id, src}); }
          if (down || broken.count({id, src})) { if (send) YACL_THROW_NETWORK_ERROR("link down"); YACL_THROW_IO_ERROR("Get data timeout, link down"); }
        };
        w->on_send = [=](const shim::link::Event& e, std::string*) { hitf(e.ctx, e.src, e.dst, true); };
        w->on_recv = [=](const std::string& id, size_t src, size_t dst) { hitf(id, src, dst, false); };
      }
      std::vector<std::function<void()>> ps{[&] { Party(c, true, Make(c, true, mode, dir), mode == UbPsiConfig::MODE_OFFLINE_GEN_CACHE ? nullptr : ctx[0])->Run(); }};
      if (mode != UbPsiConfig::MODE_OFFLINE_GEN_CACHE) ps.push_back([&] { Party(c, false, Make(c, false, mode, dir), ctx[1])->Run(); });
      auto e = mc::RunParties(ps);
      for (size_t i = 0; i < e.size(); ++i) if (err[i].empty()) err[i] = e[i];
      cur.reset();
      if (!e[0].empty() || (e.size() > 1 && !e[1].empty()) || (f && mc::Crashed())) break;   // the operator does not go on after an error
    }
    mc::FsDisarm();
    if (mc::Crashed() && f) err[f->party] = "(dead)";
    return err[0] + "\x01" + err[1] + "\x01" + S(cnt);
  });
}
static void Split(const std::string& o, std::string err[2], long* n = nullptr) { auto z = o.find('\x01'), y = o.rfind('\x01'); err[0] = o.substr(0, z); err[1] = o.substr(z + 1, y - z - 1); if (n) *n = atol(o.c_str() + y + 1); }
// what is wrong with the result of a party that reported success, if the server's table is A
static std::string Wrong(const Cfg& c, const std::string& dir, bool server, const Side& A, const Side& B) {
  std::set<std::string> M; for (auto& r : A.rows) for (auto& q : B.rows) if (KeyOf(c, true, r) == KeyOf(c, false, q)) M.insert(KeyOf(c, true, r));
  auto path = dir + (server ? "/s.out.csv" : "/c.out.csv");
  if (!std::filesystem::exists(path)) return "no output";
  auto rows = ParseCsv(ReadFile(path)); if (rows.empty() || rows[0] != (server ? A : B).header) return "wrong header " + Str(rows);
  std::vector<std::string> got; for (size_t i = 1; i < rows.size(); ++i) got.push_back(S(rows[i]));
  got = Sorted(got); auto want = Expect(c, server, A, B, M);
  return got == want ? "" : fmt::format("got {} expected {}", got, want);
}
static void RunFault(const Fault& f, bool big, long first, long stride) {
  Hermetic(); auto& c = f.c; auto dir = mc::ScratchDir(), base = dir + "-base", snap = dir + "-snap";
  for (auto& d : {base, snap}) std::filesystem::create_directories(d);
  struct Clean { std::string a, b; ~Clean() { std::filesystem::remove_all(a); std::filesystem::remove_all(b); } } clean{base, snap};
  std::vector<std::string> K{"a", "b", "c", "d", "e"};
  std::vector<int> m1{1, 1, 1, 0, 0}, m2{0, 2, 1, 1, 0}, mb{1, 1, 0, 2, 1};
  if (big) { K.clear(); m1.clear(); m2.clear(); mb.clear(); for (int i = 0; i < 400; ++i) { K.push_back("key" + S(1000 + i)); m1.push_back(i % 3 != 0); m2.push_back(i % 3 != 1); mb.push_back(i % 2); } }
  Side A1 = MakeSide(c, true, K, m1, false), A2 = MakeSide(c, true, K, m2, true), B = MakeSide(c, false, K, mb, false);
  std::vector<UbPsiConfig::Mode> off = f.stage == 2 ? std::vector<UbPsiConfig::Mode>{UbPsiConfig::MODE_OFFLINE_GEN_CACHE, UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE} : std::vector<UbPsiConfig::Mode>{UbPsiConfig::MODE_OFFLINE}, on{UbPsiConfig::MODE_ONLINE};
  auto tables = [&](const Side& A) { WriteCsv(dir + "/s.csv", A.header, A.rows); WriteCsv(dir + "/c.csv", B.header, B.rows); };
  auto clearout = [&] { for (auto* x : {"/s.out.csv", "/c.out.csv"}) std::filesystem::remove(dir + x); };
  Wipe(dir); if (c.keyfile) WriteFile(dir + "/key.bin", std::string(16, '\x11') + std::string(16, '\x05'));
  std::string err[2];
  auto plain = [&](const std::vector<UbPsiConfig::Mode>& m, int seed, const std::string& what) {
    auto r = Stage(c, dir, m, seed, nullptr, -1); if (!r.ok) mc::Fail("died", what + ": the process died " + r.out.substr(0, 200)); Split(r.out, err);
  };
  auto must = [&](const std::vector<UbPsiConfig::Mode>& m, int seed, const std::string& what) { plain(m, seed, what); if (!err[0].empty() || !err[1].empty()) mc::Fail("rerun", fmt::format("{}: server '{}' client '{}'", what, err[0], err[1])); };
  if (f.hist || f.stage == 1) { tables(A1); must(off, 3, "preparation"); }
  tables(f.stage == 1 ? A1 : A2);
  std::string cs0 = Cache(dir, "s"), cc0 = Cache(dir, "c");
  CopyTo(dir, base);
  int stales = 0; std::string first_stale;
  for (long k = first;; k += stride) {
    CopyTo(base, dir);
    auto r = Stage(c, dir, f.stage == 1 ? on : off, 7, &f, k);
    long n = 0; bool done = true, beyond; std::string opn;
    if (r.ok) { Split(r.out, err, &n); done = err[0].empty() && err[1].empty(); } else { done = false; err[0] = err[1] = "(dead)"; }
    long idx = f.kind < 2 ? k / 3 : k;
    beyond = f.kind < 4 ? !r.crashed && r.ok && (long)r.log.size() <= idx : r.ok && n <= k;
    if (f.kind < 4 && idx < (long)r.log.size()) opn = " (" + r.log[idx].op + " " + r.log[idx].path + ")";
    static const char* when[] = {"before", "in the middle of", "after"};
    auto who = f.party ? "client" : "server";
    std::string d = fmt::format("{}{}: ", f.stage == 1 ? "online" : f.stage == 2 ? "generate, then transfer" : "offline", f.stage == 1 ? "" : f.hist ? " over an older cache" : " for the first time") +
      (f.kind < 2 ? fmt::format("the {} dies {} its file operation {}{}{}", who, when[k % 3], idx, opn, f.kind ? "" : ", its peer too") : f.kind < 4 ? fmt::format("file operation {}{} of the {} fails{}", idx, opn, who, f.kind == 3 ? ", and all later ones" : "") : fmt::format("the link of the {} breaks at its {} {}{}", who, f.kind < 6 ? "send" : "receive", k, f.kind & 1 ? ", all channels" : "")) + " :: cfg " + c.Id();
    mc::Count(1); mc::Nontrivial(H(d + (big ? "big" : "")));
    bool exited = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 255;   // yacl ends the process when the last write of a file fails
    if (!r.ok && !r.crashed && !(exited && (f.kind == 2 || f.kind == 3))) mc::Fail("died", fmt::format("the process died (status {}): {} :: {}", r.status, r.out.substr(0, 200), d));
    if (beyond && !done) mc::Fail("error", fmt::format("undisturbed run failed: {} {} :: {}", err[0], err[1], d));
    const Side& cur = f.stage == 1 ? A1 : A2;
    auto judge_online = [&](const std::string& what, bool exact, bool old_ok) {
      if (exact && (!err[0].empty() || !err[1].empty())) mc::Fail("rerun", fmt::format("{} fails: server '{}' client '{}' :: {}", what, err[0], err[1], d));
      bool e[2] = {c.sres, c.cres}; std::string w1, w2;
      for (int p = 0; p < 2; ++p) if (e[p] && err[p].empty()) { auto x = Wrong(c, dir, p == 0, cur, B); if (!x.empty()) w1 += fmt::format("{} {}; ", p ? "client" : "server", x); if (!Wrong(c, dir, p == 0, A1, B).empty()) w2 = "x"; }
      if (w1.empty() || (old_ok && w2.empty())) return;
      bool stale = f.stage != 1 && f.hist && Cache(dir, "c") == cc0 && Cache(dir, "s") != cs0;
      if (stale) { if (!stales++) first_stale = fmt::format("{} reports success with a wrong result: {} :: {}", what, w1, d); return; }   // reported after the remaining points
      mc::Fail("silent", fmt::format("{} reports success with a wrong result: {} :: {}", what, w1, d));
    };
    if (f.stage == 1) {
      judge_online("the disturbed query", false, false);
      mc::Out(done ? "ok" : "error");
    } else {
      mc::Out(done ? "ok" : "error");
      CopyTo(dir, snap);
      plain(on, 11, "query after " + d); judge_online("the query that follows", done, !done);
      clearout(); must(off, 12, "building the cache again after a query on what " + d); plain(on, 13, d); judge_online("the query on the cache built again", true, false);
      CopyTo(snap, dir);
      must(off, 14, "building the cache again after " + d);
    }
    clearout(); plain(on, 15, d); judge_online("the repeated query", true, false);
    mc::Sample(fmt::format("{} -> server '{}' client '{}'", d, err[0].substr(0, 80), err[1].substr(0, 80)));
    if (beyond) break;
    if (k > 6000) mc::Fail("internal", "too many operations");
  }
  if (stales) mc::Fail("stale-client-cache", fmt::format("{} (and {} more points)", first_stale, stales - 1));
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "ub");
  bool T = !s.Quick();
  std::string what = getenv("UB_SET") ? getenv("UB_SET") : "all";
  auto nz = [](std::vector<std::vector<int>> v) { std::vector<std::vector<int>> o; for (auto& x : v) if (std::any_of(x.begin(), x.end(), [](int i) { return i > 0; })) o.push_back(x); return o; };
  std::vector<std::string> K{"a", "b"}, K3{"a", "b", "c"}, KC{"x|y", "x|z", "xy|z"};
  int alt = 0;
  auto add = [&](const std::string& tag, const Cfg& c, const std::vector<std::string>& keys, const std::vector<Round>& r) {
    std::string id = tag + ":" + c.Id();
    for (auto& x : r) id += fmt::format(":{}{}", x.offline ? fmt::format("{}/", fmt::join(x.ms, "")) : "", fmt::join(x.mcl, ""));
    for (int rev = 0; rev < 2; ++rev) { if (!T && rev != (alt++ / 2) % 2) continue; s.Add(fmt::format("{}:{}", id, rev), {}, [=] { OneRun(c, keys, r, rev); }); }
  };
  auto pairs = [&](const std::string& tag, const Cfg& c, const std::vector<std::string>& keys, const std::vector<std::vector<int>>& A) { for (auto& a : A) for (auto& b : A) add(tag, c, keys, {{true, a, b}}); };
  auto M = nz(Mults(2, 2)), M1 = nz(Mults(2, 1)), M3 = nz(Mults(3, 1)), M32 = nz(Mults(3, 2)), D3 = std::vector<std::vector<int>>{{2, 1, 1}, {1, 2, 1}, {1, 1, 3}, {0, 2, 2}, {2, 0, 1}, {1, 2, 0}};
  if (what == "plain" || what == "all") {
    for (int path = 0; path < 3; ++path) for (int join = 0; join <= 5; ++join) for (int l = 0; l < (join ? 2 : 1); ++l) for (int res = 1; res < 4; ++res) {
      if (!T && path && (join == 3 || join == 5 || l)) continue;
      Cfg c; c.path = path; c.join = join; c.left = l; c.sres = res & 1; c.cres = res & 2; pairs("join", c, K, M);
    }
    for (int res = 1; res < 4; ++res) for (int b : {1, 2}) for (int join : {0, 4}) { Cfg c; c.path = 1; c.batch = b; c.join = join; c.sres = res & 1; c.cres = res & 2; pairs("batch", c, K3, T ? M32 : M3); if (!T) for (auto& x : D3) for (auto& y : D3) add("batch", c, K3, {{true, x, y}}); }
    for (int path = 0; path < 3; ++path) { Cfg c; c.path = path; c.keyfile = true; pairs("keyfile", c, K3, M3); { Cfg d = c; d.rel = true; pairs("relative", d, K3, M3); d.thr = 1; d.count = true; pairs("relative", d, K3, M3); } c.srank = 1; pairs("rank", c, K3, M3); c.noalign = true; pairs("noalign", c, K3, M3); c = Cfg(); c.path = path; c.twocol = true; c.join = 4; pairs("twocol", c, KC, M3); }
    // histories: queries over one cache, and caches replaced by newer ones
    for (int path = 0; path < 3; ++path) for (int res = 1; res < 4; ++res) {
      if (!T && path == 1) continue;
      Cfg c; c.path = path; c.sres = res & 1; c.cres = res & 2; c.join = res == 3 ? 4 : 0;
      auto& Q = M1;
      for (auto& a : T ? M : Q) for (auto& b : Q) for (auto& b2 : T ? M : Q) add("requery", c, K, {{true, a, b}, {false, {}, b2}});
      for (auto& a : Q) for (auto& a2 : Q) for (auto& b : T ? M : Q) add("recache", c, K, {{true, a, b}, {true, a2, b}});
      if (T) for (auto& a : Q) for (auto& a2 : Q) for (auto& b : Q) add("long", c, K, {{true, a, b}, {false, {}, a}, {true, a2, b}, {false, {}, a}, {false, {}, a2}});
    }
  }
  if (what == "threshold" || what == "all") {
    for (int path = 0; path < 3; ++path) for (int thr = 1; thr <= 3; ++thr) for (int join : {0, 1, 2, 3, 4, 5}) for (int l = 0; l < (join > 1 ? 2 : 1); ++l) for (int res = 1; res < 4; ++res) {
      if (!T && (path == 0 || join == 3 || join == 5 || l)) continue;
      if (!T && join > 1 && path == 2) continue;
      Cfg c; c.path = path; c.thr = thr; c.join = join; c.left = l; c.sres = res & 1; c.cres = res & 2; c.count = true; c.batch = path == 1 ? 0 : 2;
      if (join == 0) pairs("thr", c, K3, M3); else pairs("thr", c, K, M);
    }
    for (int thr = 1; thr <= 2; ++thr) for (int res = 1; res < 4; ++res) { Cfg c; c.path = 1; c.thr = thr; c.sres = res & 1; c.cres = res & 2; for (auto& a : M1) for (auto& b : M) for (auto& b2 : M1) add("thrrequery", c, K, {{true, a, b}, {false, {}, b2}}); }
  }
  if (what == "sched") {   // every single preemption of every thread, around three orders of running them
    yacl::shim_par::Concurrent() = true;
    for (int path = 0; path < 3; ++path) for (int thr = 0; thr < (path ? 2 : 1); ++thr) for (int res = T ? 1 : 3; res < 4; ++res) for (int pol = 0; pol < 3; ++pol) {
      mc::Opts o; o.delays = 1; o.split = true; o.policy = pol; o.points |= 1u << mc::kMem; o.shared_mem = true;
      Cfg c; c.path = path; c.batch = path == 1 ? 2 : 0; c.sres = res & 1; c.cres = res & 2; if (thr) { c.thr = 1; c.count = true; }
      std::vector<std::vector<Round>> hs{{{true, {1, 1, 2}, {1, 1, 1}}}}; if (T) hs.push_back({{true, {1, 2, 1}, {2, 1, 0}}, {false, {}, {0, 1, 2}}});
      for (size_t h = 0; h < hs.size(); ++h) { auto r = hs[h]; s.Add(fmt::format("sched:{}:h{}:P{}", c.Id(), h, pol), o, [=] { OneRun(c, K3, r, false); }); }
    }
  }
  for (std::string set : {"crash", "io", "link"}) if (what == set || what == "all" || what == "fault") {
    std::vector<Cfg> cs; { Cfg c; c.path = 1; c.batch = 2; cs.push_back(c); c.sres = false; cs.push_back(c); c.cres = false; c.sres = true; cs.push_back(c); c = cs[0]; c.keyfile = true; cs.push_back(c); c = cs[0]; c.thr = 9; cs.push_back(c); }
    mc::Opts o; o.cpu_s = 600;
    for (auto& c : cs) for (int stage = 0; stage < 3; ++stage) for (int h = 0; h < 2; ++h) for (int party = 0; party < 2; ++party) for (int big = 0; big < 2; ++big) {
      if (stage == 1 && h) continue;
      if (c.keyfile && (h == 0 || stage == 1)) continue;
      if (!T && (stage == 2 || c.thr) && (!c.cres || !c.sres || (c.thr && (big || (stage != 1 && h))))) continue;
      int lo = set == "crash" ? 0 : set == "io" ? 2 : 4, hi = set == "crash" ? 1 : set == "io" ? 3 : 7;
      for (int kind = lo; kind <= hi; ++kind) {
        if (big && (kind != 0 && kind != 2)) continue;
        if (big && !T && !(c.sres && c.cres)) continue;
        Fault f; f.c = c; f.hist = h; f.stage = stage; f.kind = kind; f.party = party;
        int n = set == "link" ? 2 : 8;
        for (int k = 0; k < n; ++k) s.Add(fmt::format("{}{}:{}:{}", set, big ? "big" : "", f.Id(), k), o, [=] { RunFault(f, big, k, n); });
      }
    }
  }
  return s.Run();
}
