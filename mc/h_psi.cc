#include <unistd.h>
// Two-party file PSI through the public party factory: every pair of small key
// multisets x protocol x join type x side x disclosure flag, on the real code,
// checked against the relational definition of the requested join.
#include "psilib.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/proto/psi_v2.pb.h"
#include "psi/utils/resource_manager.h"
using namespace lib;
using psi::v2::PsiConfig;
struct Cfg {
  int proto = 1, join = 0, left = 0 /*0 receiver 1 sender*/; bool bcast = true, noalign = false, uniq = false /*both*/, runiq = false /*receiver only*/, digest = false, recovery = false, twocol = false, lowcomm = false; int bucket = 0; int curve = 1; int batch = 0; int recv_rank = 0; std::string sub; int thr = 0; int quote = 0 /*0 none 1 where needed 2 all 3 receiver all, sender where needed*/;
  std::string Id() const { return fmt::format("p{}j{}l{}b{}n{}u{}d{}r{}t{}w{}k{}c{}a{}q{}z{}{}", proto, join, left, (int)bcast, (int)noalign, (int)uniq, (int)digest, (int)recovery, (int)twocol, (int)lowcomm, bucket, curve, batch, recv_rank, quote, runiq ? "R" : (sub.empty() ? "" : "P")) + (thr ? fmt::format("t{}", thr) : ""); }
};
static PsiConfig Make(const Cfg& c, bool receiver, const std::string& at) {
  auto dir = c.sub == "." ? std::string() : at + "/";   // "." : paths relative to the working directory
  PsiConfig p; auto* pc = p.mutable_protocol_config();
  pc->set_protocol((psi::v2::Protocol)c.proto); pc->set_role(receiver ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER); pc->set_broadcast_result(c.bcast);
  if (c.proto == 1) { pc->mutable_ecdh_config()->set_curve((psi::CurveType)c.curve); if (c.batch) pc->mutable_ecdh_config()->set_batch_size(c.batch); }
  if (c.proto == 2) pc->mutable_kkrt_config()->set_bucket_size(c.bucket);
  if (c.proto == 3) { pc->mutable_rr22_config()->set_bucket_size(c.bucket); pc->mutable_rr22_config()->set_low_comm_mode(c.lowcomm); }
  std::string who = receiver ? "r" : "s";
  p.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_input_config()->set_path(dir + who + ".csv");
  p.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_output_config()->set_path(dir + who + ".out.csv");
  std::vector<std::string> ks = c.twocol ? std::vector<std::string>{who + "k1", who + "k2"} : std::vector<std::string>{who + "k1"};
  for (auto& k : ks) p.add_keys(k);
  p.set_disable_alignment(c.noalign); p.set_advanced_join_type((PsiConfig::AdvancedJoinType)c.join);
  if (c.join) p.set_left_side(c.left == 0 ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER);
  p.mutable_input_attr()->set_keys_unique(c.uniq || (c.runiq && receiver)); p.set_check_hash_digest(c.digest);
  if (c.thr) { p.set_intersection_threshold(c.thr); p.set_count_path(dir + who + ".cnt"); }
  if (c.recovery) { p.mutable_recovery_config()->set_enabled(true); p.mutable_recovery_config()->set_folder(dir + "rec_" + who); }
  return p;
}
struct Side { std::vector<std::string> header; Rows rows; size_t kcol = 0; };
// rows: key text(s) + value; the value column comes first on the sender side, so column order matters
static Side MakeSide(const Cfg& c, bool receiver, const std::vector<std::string>& keys, const std::vector<int>& mult, bool rev) {
  Side s; std::string w = receiver ? "r" : "s";
  if (receiver) s.header = c.twocol ? std::vector<std::string>{"rk1", "rk2", "rv"} : std::vector<std::string>{"rk1", "rv"};
  else s.header = c.twocol ? std::vector<std::string>{"sv", "sk2", "sk1"} : std::vector<std::string>{"sv", "sk1"};
  int n = 0;
  std::vector<size_t> order;   // grouped by key; in the quote cases equal keys are not neighbours
  if (!c.quote) { for (size_t i = 0; i < keys.size(); ++i) order.insert(order.end(), mult[i], i); }
  else for (int j = 0; j < 9; ++j) for (size_t i = 0; i < keys.size(); ++i) if (j < mult[i]) order.push_back(i);
  for (size_t i : order) {
    std::vector<std::string> r; std::string v = w + std::to_string((7 * n++ + 3) % 10);   // values do not sort like the keys
    std::string k1 = keys[i], k2;
    if (c.twocol) { auto p = keys[i].find('|'); k1 = keys[i].substr(0, p); k2 = keys[i].substr(p + 1); }
    if (!receiver) r.push_back(v);
    if (c.twocol && !receiver) r.push_back(k2);   // key columns in another order than in the configuration
    r.push_back(k1); if (c.twocol && receiver) r.push_back(k2);
    if (receiver) r.push_back(v);
    s.rows.push_back(r);
  }
  if (rev) std::reverse(s.rows.begin(), s.rows.end());
  return s;
}
static std::string KeyOf(const Cfg& c, bool receiver, const std::vector<std::string>& r) {
  if (receiver) return c.twocol ? r[0] + "|" + r[1] : r[0];
  return c.twocol ? r[2] + "|" + r[1] : r[1];
}
// prev: the same task was run before, when the receiver's file had these keys instead (same size)
static void OneRun(const Cfg& c, const std::vector<std::string>& keys, const std::vector<int>& mr, const std::vector<int>& ms, bool rev, const std::vector<int>& prev = {}) {
  Hermetic();
  auto dir = mc::ScratchDir();
  if (c.sub == ".") { if (chdir(dir.c_str())) mc::Fail("harness", "chdir"); }
  else if (!c.sub.empty()) { dir += "/" + c.sub; std::filesystem::create_directories(dir); }
  if (!prev.empty()) {
    Side R = MakeSide(c, true, keys, prev, rev), S_ = MakeSide(c, false, keys, ms, !rev);
    WriteCsv(dir + "/r.csv", R.header, R.rows, c.quote); WriteCsv(dir + "/s.csv", S_.header, S_.rows, c.quote);
    auto ctx = World(2);
    auto err = mc::RunParties({[&] { psi::createPsiParty(Make(c, true, dir), ctx[c.recv_rank])->Run(); }, [&] { psi::createPsiParty(Make(c, false, dir), ctx[1 - c.recv_rank])->Run(); }});
    if (!err[0].empty() || !err[1].empty()) mc::Fail("error", "first run failed: " + err[0] + err[1]);
  }
  Side R = MakeSide(c, true, keys, mr, rev), S_ = MakeSide(c, false, keys, ms, !rev);
  WriteCsv(dir + "/r.csv", R.header, R.rows, c.quote == 3 ? 2 : c.quote); WriteCsv(dir + "/s.csv", S_.header, S_.rows, c.quote == 3 ? 1 : c.quote);
  std::string in_r = ReadFile(dir + "/r.csv"), in_s = ReadFile(dir + "/s.csv");
  auto ctx = World(2);
  psi::PsiResultReport rep[2];
  auto party = [&](bool receiver) {
    auto lctx = ctx[receiver ? c.recv_rank : 1 - c.recv_rank];
    auto p = psi::createPsiParty(Make(c, receiver, dir), lctx);
    rep[receiver ? 0 : 1] = p->Run();
  };
  auto err = mc::RunParties({[&] { party(true); }, [&] { party(false); }});
  std::string desc = fmt::format("cfg {} receiver rows {} sender rows {}", c.Id(), Str(R.rows), Str(S_.rows));
  auto F = [&](const std::string& k, const std::string& m) { mc::Fail(k, m + " :: " + desc); };
  if (!err[0].empty() || !err[1].empty()) F("error", fmt::format("party failed: receiver '{}' sender '{}'", err[0], err[1]));
  if (ReadFile(dir + "/r.csv") != in_r || ReadFile(dir + "/s.csv") != in_s) F("input-changed", "an input file was modified");
  std::map<std::string, int> cr, cs;
  for (auto& r : R.rows) cr[KeyOf(c, true, r)]++;
  for (auto& r : S_.rows) cs[KeyOf(c, false, r)]++;
  std::vector<std::string> I;
  for (auto& [k, n] : cr) if (cs.count(k)) I.push_back(k);
  const size_t want = c.thr ? std::min<size_t>(c.thr, I.size()) : I.size();
  int inter_keys = want, rin = 0, sin = 0, rex = 0, sex = 0;
  std::set<std::string> M;   // the keys that count as common: all of them, or a choice of as many as the threshold allows
  auto choose = [&](size_t m) {
    M.clear(); rin = sin = rex = sex = 0;
    for (size_t i = 0; i < I.size(); ++i) if (m >> i & 1) M.insert(I[i]);
    for (auto& [k, n] : cr) (M.count(k) ? rin : rex) += n;
    for (auto& [k, n] : cs) (M.count(k) ? sin : sex) += n;
  };
  choose((1u << I.size()) - 1);
  int j = c.join == 0 ? 1 : c.join;
  bool inter = j != 5;
  auto expect = [&](bool receiver) {
    std::vector<std::string> e; bool left = (c.left == 0) == receiver;
    auto& rows = receiver ? R.rows : S_.rows; auto& peer = receiver ? cs : cr;
    bool own_ex = j == 4 || j == 5 || (j == 2 && left) || (j == 3 && !left);
    bool peer_ex = j == 4 || j == 5 || (j == 2 && !left) || (j == 3 && left);
    for (auto& r : rows) {
      auto it = peer.find(KeyOf(c, receiver, r));
      if (M.count(KeyOf(c, receiver, r))) { if (inter) for (int i = 0; i < it->second; ++i) e.push_back(S(r)); }
      else if (own_ex) e.push_back(S(r));
    }
    if (peer_ex && c.bcast) for (int i = 0; i < (receiver ? sex : rex); ++i) e.push_back(S(std::vector<std::string>(rows.empty() ? (c.twocol ? 3 : 2) : rows[0].size(), "NULL")));
    return Sorted(e);
  };
  Rows out[2];
  for (int w = 0; w < 2; ++w) {
    bool receiver = w == 0; std::string path = dir + (receiver ? "/r.out.csv" : "/s.out.csv");
    if (!receiver && !c.bcast) {
      if (std::filesystem::exists(path)) F("leak", "sender produced an output although the result is not disclosed to it: " + ReadFile(path));
      if (rep[1].intersection_count() != -1) F("leak-report", fmt::format("sender report discloses intersection count {}", rep[1].intersection_count()));
      continue;
    }
    if (!std::filesystem::exists(path)) F("no-output", receiver ? "receiver output missing" : "sender output missing");
    Rows o = ParseCsv(ReadFile(path));
    if (o.empty() || o[0] != (receiver ? R.header : S_.header)) F("header", "wrong header " + Str(o));
    o.erase(o.begin());
    out[w] = o;
  }
  auto rowsof = [](const Rows& o) { std::vector<std::string> g; for (auto& r : o) g.push_back(S(r)); return Sorted(g); };
  auto judge = [&](std::vector<std::pair<std::string, std::string>>& bad) {
    auto F = [&](const std::string& k, const std::string& m) { bad.emplace_back(k, m); };
  for (int w = 0; w < (c.bcast ? 2 : 1); ++w) {
    bool receiver = w == 0; auto e = expect(receiver);
    if (rowsof(out[w]) != e) F("result", fmt::format("{} got {} expected {}{}", receiver ? "receiver" : "sender", rowsof(out[w]), e, c.thr ? " (or another choice of keys, the same for both parties)" : ""));
    auto& rp = rep[w];
    if (c.thr) { auto cnt = ReadFile(dir + (receiver ? "/r.cnt" : "/s.cnt")); if (cnt != fmt::format("real_count,final_count\n{},{}\n", I.size(), want)) F("countfile", (receiver ? "receiver count file: " : "sender count file: ") + cnt); }
    if (rp.intersection_count() != (receiver ? rin : sin)) F("count", fmt::format("{} intersection_count {} expected {}", receiver ? "receiver" : "sender", rp.intersection_count(), receiver ? rin : sin));
    if (rp.intersection_key_count() != inter_keys) F("keycount", fmt::format("intersection_key_count {} expected {}", rp.intersection_key_count(), inter_keys));
  }
  if (c.bcast && !c.noalign) {
    if (out[0].size() != out[1].size()) { F("align", "outputs differ in length"); return; }
    for (size_t i = 0; i < out[0].size(); ++i) {
      auto a = KeyOf(c, true, out[0][i]), b = KeyOf(c, false, out[1][i]);
      bool na = out[0][i].back() == "NULL", nb = out[1][i].back() == "NULL";
      if (na && nb) F("align", "both sides NULL in one row");
      if (!na && !nb && a != b) F("align", fmt::format("row {} pairs key {} with {}: {} / {}", i, a, b, Str(out[0]), Str(out[1])));
      if ((na && M.count(b)) || (nb && M.count(a))) F("align", "NULL row beside a common key");
    }
  }
  };
  // with a threshold the parties are free in which of the common keys they keep: some choice of the right size must explain everything they report
  std::vector<std::pair<std::string, std::string>> least; bool first = true;
  for (size_t m = 0; m < (1u << I.size()); ++m) {
    if ((size_t)__builtin_popcount(m) != want) continue;
    choose(m); std::vector<std::pair<std::string, std::string>> bad; judge(bad);
    if (first || bad.size() < least.size()) least = bad;
    first = false;
    if (least.empty()) break;
  }
  for (auto& [k, m] : least) F(k, m);
  for (int w = 0; w < 2; ++w) {
    if (rep[w].original_count() != (long)(w == 0 ? R.rows.size() : S_.rows.size())) F("origcount", fmt::format("original_count {}", rep[w].original_count()));
    if (rep[w].original_key_count() != (long)(w == 0 ? cr.size() : cs.size())) F("origkeycount", fmt::format("original_key_count {}", rep[w].original_key_count()));
  }
  if (size_t n = ctx[0]->ShimWorld()->Leftover()) F("leftover", fmt::format("{} messages were never received", n));
  for (auto& e : std::filesystem::directory_iterator(dir)) {
    auto n = e.path().filename().string();
    if (n != "r.csv" && n != "s.csv" && n != "r.out.csv" && n != "s.out.csv" && n.rfind("rec_", 0) != 0 && n.find(".meta") == std::string::npos && e.is_directory()) {
      if (std::distance(std::filesystem::directory_iterator(e.path()), {}) > 0) { mc::Out("tmp-left"); }
    }
  }
  mc::Out(fmt::format("{}/{}/{}", inter_keys, rin, sin));
  mc::Nontrivial(H(desc));
  mc::Sample(desc + " -> receiver " + Str(out[0]) + " sender " + Str(out[1]));
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "psi");
  std::string what = getenv("PSI_SET") ? getenv("PSI_SET") : "all";
  auto add = [&](const std::string& tag, const Cfg& c, const std::vector<std::string>& keys, const std::vector<std::vector<int>>& A, const std::vector<std::vector<int>>& B, int delays = 0) {
    // one case per receiver multiset: the runs inside are separate controlled executions
    int n = 0;
    for (auto& a : A) for (auto& b : B) for (int rev = 0; rev < 2; ++rev) {
      if (s.Quick() && tag != "join" && rev != (n++ / 2) % 2) continue;   // quick: one row order per pair, alternating
      mc::Opts o; o.delays = delays;
      s.Add(fmt::format("{}:{}:{}:{}:{}", tag, c.Id() + c.sub, fmt::join(a, ""), fmt::join(b, ""), rev), o, [=] { OneRun(c, keys, a, b, rev); });
    }
  };
  auto nz = [](std::vector<std::vector<int>> v) { std::vector<std::vector<int>> o; for (auto& x : v) if (std::any_of(x.begin(), x.end(), [](int i) { return i > 0; })) o.push_back(x); return o; };
  std::vector<std::string> K{"a", "b"}, K3{"a", "b", "c"};
  int T = s.Quick() ? 0 : 1;
  if (what == "join" || what == "all") {
    auto M = nz(Mults(2, 2));
    for (int proto : {1, 2, 3}) for (int join = 0; join <= 5; ++join) for (int left = 0; left < (join ? 2 : 1); ++left) for (int b = 0; b < 2; ++b) {
      if (!T && proto != 1 && (join == 3 || (join == 2 && left))) continue;
      Cfg c; c.proto = proto; c.join = join; c.left = left; c.bcast = b;
      add("join", c, K, M, M);
    }
  }
  if (what == "opts" || what == "all") {
    auto M2 = nz(Mults(2, 2)), M3 = nz(Mults(3, 1)), M3b = nz(Mults(3, 2));
    std::vector<std::string> KC{"x|y", "x|z", "xy|"}, KSp{"a b", "\xc3\xa9", "-1"}, KNum{"1", "01", "1.0"};
    for (int proto : {1, 2, 3}) {
      auto one = [&](const std::string& tag, std::function<void(Cfg&)> f, const std::vector<std::string>& keys, const std::vector<std::vector<int>>& A, std::initializer_list<int> joins = {0, 4}) {
        for (int j : joins) for (int b = 0; b < 2; ++b) {
          if (!T && j == 4 && !b) continue;
          Cfg c; c.proto = proto; c.join = j; c.bcast = b; f(c);
          add(tag, c, keys, A, A);
        }
      };
      one("noalign", [](Cfg& c) { c.noalign = true; }, K, M2);
      one("uniq", [](Cfg& c) { c.uniq = true; }, K3, M3, {0, 1});
      one("digest", [](Cfg& c) { c.digest = true; }, K, M2, {0, 1, 2, 5});
      one("digestuniq", [](Cfg& c) { c.digest = c.uniq = true; }, K3, M3, {0, 1});
      if (proto == 1 || T) for (bool u : {false, true}) for (auto& p : M3) {   // the input is edited between two runs
        Cfg c; c.proto = proto; c.digest = true; c.uniq = u;
        for (auto& a : M3) for (auto& b : M3) if (std::accumulate(a.begin(), a.end(), 0) == std::accumulate(p.begin(), p.end(), 0) && a != p && (T || p == b))
          s.Add(fmt::format("rerun:{}:{}:{}:{}", c.Id(), fmt::join(p, ""), fmt::join(a, ""), fmt::join(b, "")), {}, [=] { OneRun(c, K3, a, b, false, p); });
      }
      if (proto == 1 || T) for (bool u : {false, true}) one("digestcat", [=](Cfg& c) { c.digest = true; c.uniq = u; }, {"a", "bc", "ab", "c"}, nz(Mults(4, 1)), {0});
      one("recovery", [](Cfg& c) { c.recovery = true; }, K, M2);
      one("recoverydigest", [](Cfg& c) { c.recovery = c.digest = true; }, K, M2, {0});
      one("twocol", [](Cfg& c) { c.twocol = true; }, KC, M3);
      if (proto == 1 || T) one("twocoluniq", [](Cfg& c) { c.twocol = c.uniq = true; }, KC, M3, {0, 1});
      one("rank", [](Cfg& c) { c.recv_rank = 1; }, K, M2, {0, 2});
      if (proto != 2 || T) one("special", [](Cfg& c) {}, KSp, M3);
      if (proto == 1 || T) for (std::string n : {"a b", "a'b", "a\"b", "a$(b)", "a;b", "-n"}) one("path", [=](Cfg& c) { c.sub = n; }, K, nz(Mults(2, 1)), {0});
      one("relative", [](Cfg& c) { c.sub = "."; }, K, nz(Mults(2, 1)), {0, 4});
      if (proto == 1 || T) { one("relrec", [](Cfg& c) { c.sub = "."; c.recovery = true; }, K, {{1, 2}, {0, 1}}, {0}); one("reldigest", [](Cfg& c) { c.sub = "."; c.digest = true; }, K, {{1, 2}, {0, 1}}, {0}); }
      if (proto == 1 || T) one("num", [](Cfg& c) {}, KNum, M3);
      if (proto == 1) {
        one("batch1", [](Cfg& c) { c.batch = 1; }, K3, T ? M3b : M3);
        one("batch2", [](Cfg& c) { c.batch = 2; }, K3, T ? M3b : M3);
        for (int cv : {2, 3, 4}) one("curve", [=](Cfg& c) { c.curve = cv; }, K3, M3, {0});
      } else {
        for (int b : {1, 2}) one("bucket", [=](Cfg& c) { c.bucket = b; }, K3, M3b, {0});
      }
      if (proto == 3) { one("lowcomm", [](Cfg& c) { c.lowcomm = true; }, K, M2); one("lowcommbucket", [](Cfg& c) { c.lowcomm = true; c.bucket = 1; c.recovery = true; }, K3, M3, {0}); }
    }
  }
  if (what == "thr" || what == "all") {
    auto M = nz(Mults(2, 2)), M3 = nz(Mults(3, T ? 2 : 1));
    for (int thr = 1; thr <= 3; ++thr) for (int join = 0; join <= 5; ++join) for (int left = 0; left < (join > 1 ? 2 : 1); ++left) for (int b = 0; b < 2; ++b) {
      if (!T && (join == 3 || (join == 2 && left) || (thr == 3 && join))) continue;
      Cfg c; c.join = join; c.left = left; c.bcast = b; c.thr = thr;
      if (join) add("thr", c, K, M, M); else add("thr", c, K3, M3, M3);
      if (!join) { for (int k = 0; k < 4; ++k) { Cfg d = c; d.batch = k == 0; d.uniq = k == 1; d.digest = k == 2; d.recovery = k == 3; add("thropt", d, d.uniq ? K3 : K, d.uniq ? nz(Mults(3, 1)) : M, d.uniq ? nz(Mults(3, 1)) : M); } }
    }
    for (int thr = 1; thr <= 3; ++thr) { Cfg c; c.thr = thr; add("thrdup", c, K3, {{2, 1, 0}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}, {0, 2, 1}}, nz(Mults(3, 2))); }
  }
  if (what == "quote" || what == "all") {
    auto M2 = nz(Mults(2, 2)), M3 = nz(Mults(3, 1));
    for (int proto : {1, 2, 3}) for (int j : {0, 4}) for (int q : {1, 2, 3}) {
      if (!T && proto != 1 && (j == 4 || q >= 2)) continue;
      Cfg c; c.proto = proto; c.join = j; c.quote = q;
      add("quotecomma", c, {"a,b", "a", "b"}, M3, M3);
      add("quotequote", c, {"a\"b", "a", "ab"}, M3, M3);
      add("quotedouble", c, {"a\"\"b", "a\"b", "ab\""}, M3, M3);
      if (q == 1) { Cfg e = c; e.runiq = true; add("quotedoubleuniq", e, {"a\"\"b", "a\"b", "ab\""}, M3, M3); }
      add("quotegroup", c, {"a,b", "a,c"}, M2, M2);
      if (q == 3) add("quotemixed", c, {"a", "a!", "a b"}, M3, M3);
      add("quotespace", c, {" a", "a", "a "}, M3, M3);
      Cfg d = c; d.twocol = true;
      add("quotegroup2", d, {"a,b|x", "a,b|y"}, M2, M2);
      // two distinct composite keys whose components join to the same text are kept apart as their own cases
      for (auto& a : M3) for (auto& b : M3) add((a[0] + b[0]) && (a[1] + b[1]) ? "quotecollide" : "quotetwo", d, {"a,b|c", "a|b,c", "a|b"}, {a}, {b});
    }
  }
  if (what == "sched") {
    yacl::shim_par::Concurrent() = true;
    struct V { std::vector<int> a, b; };
    auto go = [&](const std::string& tag, Cfg c, std::vector<V> vs, bool mem) {
      std::vector<std::string> k{"a", "b", "c", "d"};
      for (auto& v : vs) for (int pol = 0; pol < 3; ++pol) {
        mc::Opts o; o.delays = 1; o.split = true; o.policy = pol; if (mem) { o.points |= 1u << mc::kMem; o.shared_mem = true; }
        auto a = v.a, b = v.b;
        s.Add(fmt::format("sched:{}:{}:{}:{}:P{}", tag, c.Id(), fmt::join(a, ""), fmt::join(b, ""), pol), o, [=] { OneRun(c, k, a, b, false); });
      }
    };
    std::vector<V> one{{{2, 1, 1, 0}, {1, 1, 0, 3}}}, some{{{2, 1, 1, 0}, {1, 1, 0, 3}}, {{1, 0, 2, 1}, {0, 1, 1, 2}}};
    for (int proto : {1, 2, 3}) for (int b = 0; b < 2; ++b) for (int rec = 0; rec < 2; ++rec) { Cfg c; c.proto = proto; c.bcast = b; c.recovery = rec; if (proto == 3) c.bucket = 1; if (proto == 2) c.bucket = 2; if (!T && rec != b) continue; go("two", c, T ? some : one, proto != 2); }
    for (int lc = 0; lc < 2; ++lc) { Cfg c; c.proto = 3; c.lowcomm = lc; c.recv_rank = 1; go("whole", c, one, true); }
    { Cfg c; c.thr = 1; go("thr", c, one, true); c.join = 4; go("thr", c, one, false); }
  }
  return s.Run();
}
