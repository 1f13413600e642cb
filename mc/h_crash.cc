// Crash and resume: a two-party run with recovery enabled is killed at every
// file-system operation of either party (alone or together with the peer), then
// both are started again with the same configuration; the resumed run must end
// normally with exactly the result of an undisturbed one.
#include "psilib.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/checkpoint/recovery.h"
#include "psi/proto/psi_v2.pb.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "yacl/crypto/rand/rand.h"
using namespace lib;
using psi::v2::PsiConfig;
struct Cfg { int proto = 1; bool bcast = true, uniq = false; int bucket = 1, join = 0; std::vector<int> r, s; bool lowcomm = false; int thr = 0;
  std::string Id() const { return fmt::format("p{}b{}u{}k{}j{}w{}-{}-{}", proto, (int)bcast, (int)uniq, bucket, join, (int)lowcomm, fmt::join(r, ""), fmt::join(s, "")) + (thr ? "-t" + std::to_string(thr) : ""); } };
static PsiConfig Make(const Cfg& c, bool receiver, const std::string& dir) {
  PsiConfig p; auto* pc = p.mutable_protocol_config(); std::string who = receiver ? "r" : "s";
  pc->set_protocol((psi::v2::Protocol)c.proto); pc->set_role(receiver ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER); pc->set_broadcast_result(c.bcast);
  if (c.proto == 1) pc->mutable_ecdh_config()->set_curve(psi::CURVE_25519);
  if (c.proto == 2) pc->mutable_kkrt_config()->set_bucket_size(c.bucket);
  if (c.proto == 3) { pc->mutable_rr22_config()->set_bucket_size(c.bucket); pc->mutable_rr22_config()->set_low_comm_mode(c.lowcomm); }
  p.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_input_config()->set_path(dir + "/" + who + ".csv");
  p.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_output_config()->set_path(dir + "/" + who + ".out.csv");
  p.add_keys(who + "k"); p.set_advanced_join_type((PsiConfig::AdvancedJoinType)c.join); if (c.join) p.set_left_side(psi::v2::ROLE_RECEIVER);
  p.mutable_input_attr()->set_keys_unique(c.uniq);
  if (c.thr) { p.set_intersection_threshold(c.thr); p.set_count_path(dir + "/" + who + ".cnt"); }
  p.mutable_recovery_config()->set_enabled(true); p.mutable_recovery_config()->set_folder(dir + "/rec_" + who);
  return p;
}
static const char* kKeys[] = {"d", "a", "c", "b", "e", "f"};
static Rows MakeRows(const std::vector<int>& m, const char* w) { Rows o; int n = 0; for (size_t k = 0; k < m.size(); ++k) for (int j = 0; j < m[k]; ++j) o.push_back({kKeys[k], w + S(n++)}); return o; }
// `m`: which keys count as common (all of them, or one choice of as many as the threshold allows)
static std::vector<std::string> Expect(const Cfg& c, bool receiver, unsigned m) {
  std::vector<std::string> e; Rows mine = MakeRows(receiver ? c.r : c.s, receiver ? "r" : "s"); auto& pm = receiver ? c.s : c.r; int pex = 0;
  for (size_t k = 0; k < c.r.size(); ++k) if (!(m >> k & 1)) pex += pm[k];
  for (auto& r : mine) { size_t k = 0; while (r[0] != kKeys[k]) ++k; if (m >> k & 1) { if (c.join != 5) for (int i = 0; i < pm[k]; ++i) e.push_back(S(r)); } else if (c.join == 4 || c.join == 5) e.push_back(S(r)); }
  if ((c.join == 4 || c.join == 5) && c.bcast) for (int i = 0; i < pex; ++i) e.push_back(S(std::vector<std::string>{"NULL", "NULL"}));
  return Sorted(e);
}
static std::vector<unsigned> Choices(const Cfg& c) {
  unsigned all = 0; std::vector<unsigned> o;
  for (size_t k = 0; k < c.r.size(); ++k) if (c.r[k] && c.s[k]) all |= 1u << k;
  int want = __builtin_popcount(all); if (c.thr) want = std::min(want, c.thr);
  for (unsigned m = 0; m <= all; ++m) if ((m & ~all) == 0 && __builtin_popcount(m) == want) o.push_back(m);
  return o;
}
// one attempt; returns "receiver error|sender error"
static std::string Attempt(const Cfg& c, const std::string& dir, int run, int party, long at, int torn, bool both) {
  shim::RngReset(17 * run + 5);
  auto ctx = World(2, "root", 20000); auto w = ctx[0]->ShimWorld();
  if (at >= 0 || party >= 0) mc::FsArm(dir, party, at, torn, both ? std::function<void()>() : [w, party] { w->dead.insert("party" + std::to_string(party)); w->cv.notify_all(); });
  psi::PsiResultReport rep[2];
  auto err = mc::RunParties({[&] { rep[0] = psi::createPsiParty(Make(c, true, dir), ctx[0])->Run(); }, [&] { rep[1] = psi::createPsiParty(Make(c, false, dir), ctx[1])->Run(); }});
  mc::FsDisarm();
  std::string o = err[0] + "|" + err[1];
  for (int i = 0; i < 2; ++i) o += fmt::format("|{} {} {} {}", rep[i].original_count(), rep[i].intersection_count(), rep[i].original_key_count(), rep[i].intersection_key_count());
  return o;
}
static std::string Reports(const Cfg& c, unsigned m) {
  std::string o = "|"; int rk = 0, sk = 0, rn = 0, sn = 0, ik = 0, ri = 0, si = 0;
  for (size_t k = 0; k < c.r.size(); ++k) { rk += c.r[k] > 0; sk += c.s[k] > 0; rn += c.r[k]; sn += c.s[k]; if (m >> k & 1) { ++ik; ri += c.r[k]; si += c.s[k]; } }
  o += fmt::format("|{} {} {} {}", rn, ri, rk, ik);
  o += fmt::format("|{} {} {} {}", sn, c.bcast ? si : -1, sk, c.bcast ? ik : 0);
  return o;
}
static void Setup(const Cfg& c, const std::string& dir) {
  Hermetic();
  WriteCsv(dir + "/r.csv", {"rk", "rv"}, MakeRows(c.r, "r")); WriteCsv(dir + "/s.csv", {"sk", "sv"}, MakeRows(c.s, "s"));
}
static void Verify(const Cfg& c, const std::string& dir, const mc::SubResult& r, const std::string& desc) {
  if (!r.ok) mc::Fail("resume-died", "the resumed run died :: " + desc);
  if (r.out.substr(0, 1) != "|" || r.out.find('|', 1) != 1) mc::Fail("resume-error", "the resumed run failed: " + r.out + " :: " + desc);
  std::vector<std::string> g[2];
  for (int p = 0; p < 2; ++p) {
    std::string path = dir + (p == 0 ? "/r.out.csv" : "/s.out.csv");
    if (p == 1 && !c.bcast) { if (std::filesystem::exists(path)) mc::Fail("leak", desc); continue; }
    Rows o = ParseCsv(ReadFile(path)); if (o.empty()) mc::Fail("no-output", desc); o.erase(o.begin());
    for (auto& x : o) g[p].push_back(S(x));
    g[p] = Sorted(g[p]);
    if (c.thr) {
      auto cnt = ReadFile(dir + (p == 0 ? "/r.cnt" : "/s.cnt")); Cfg a = c; a.thr = 0; auto ch = Choices(c);
      auto want = fmt::format("real_count,final_count\n{},{}\n", __builtin_popcount(Choices(a)[0]), __builtin_popcount(ch[0]));
      if (cnt != want) mc::Fail("countfile", fmt::format("party {} count file {} expected {} :: {}", p, cnt, want, desc));
    }
  }
  std::string worst, key = "result";
  for (unsigned m : Choices(c)) {
    std::string bad;
    for (int p = 0; p < (c.bcast ? 2 : 1); ++p) if (g[p] != Expect(c, p == 0, m)) bad += fmt::format("{} got {} expected {}; ", p == 0 ? "receiver" : "sender", g[p], Expect(c, p == 0, m));
    if (bad.empty() && r.out == Reports(c, m)) return;
    if (bad.empty()) { key = "report"; worst = fmt::format("reports {} expected {}", r.out, Reports(c, m)); }
    else if (worst.empty()) worst = bad;
  }
  mc::Fail(key, worst + " :: " + desc);
}
static const char* kWhen[] = {"before", "in the middle of", "after"};
// mode 0: both processes die, 1: the peer lives on until it notices
// returns false if the run ended before its operation `at`
static bool Crash1(const Cfg& c, int party, int mode, long at, int again) {
  auto dir = mc::ScratchDir(); for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path());
  Setup(c, dir);
  auto r1 = mc::Sub([&] { return Attempt(c, dir, 1, party, at / 3, at % 3, mode == 0); });
  if (!r1.crashed) {
    if (r1.ok && (long)r1.log.size() > at / 3) mc::Fail("internal", "crash point not taken");
    mc::Out("beyond"); Verify(c, dir, r1, "undisturbed run"); return false;
  }
  std::string at_op = r1.ok && at / 3 < (long)r1.log.size() ? r1.log[at / 3].op + " " + r1.log[at / 3].path : "";
  auto desc = fmt::format("{} party {} dies {} its file operation {} ({}), the peer {}", c.Id(), party, kWhen[at % 3], at / 3, at_op, mode ? "lives on" : "dies too");
  if (again < 0) {
    auto r2 = mc::Sub([&] { return Attempt(c, dir, 2, -1, -1, 0, false); });
    Verify(c, dir, r2, desc);
    mc::Out("resumed"); mc::Nontrivial(H(desc)); mc::Sample(desc + " -> " + r2.out);
    return true;
  }
  // second crash at every point of the resumed run
  std::filesystem::copy(dir, dir + "-snap", std::filesystem::copy_options::recursive);
  for (long k = 0;; ++k) {
    for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path());
    std::filesystem::copy(dir + "-snap", dir, std::filesystem::copy_options::recursive);
    auto r2 = mc::Sub([&] { return Attempt(c, dir, 2, again, k, 0, true); });
    auto d2 = fmt::format("{}; then party {} dies at {} and its peer too", desc, again, k);
    if (!r2.crashed) { Verify(c, dir, r2, desc); break; }
    auto r3 = mc::Sub([&] { return Attempt(c, dir, 3, -1, -1, 0, false); });
    Verify(c, dir, r3, d2); mc::Count(1); mc::Nontrivial(H(d2));
  }
  std::filesystem::remove_all(dir + "-snap");
  mc::Out("resumed2"); mc::Sample(desc);
  return true;
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "crash");
  std::string what = getenv("CR_SET") ? getenv("CR_SET") : "all";
  int T = s.Tier(0, 1);
  mc::Opts o; o.delays = 0; o.cpu_s = 900;
  mc::Opts od = o; od.delays = 1;
  // modes: bit m set = explore mode m; again: also a second crash during the resumed run
  auto add = [&](int proto, bool b, bool u, int k, int j, std::vector<int> r, std::vector<int> ss, bool w, int modes, bool again = false, bool sched = false, int thr = 0) {
    const char* names[] = {"", "ecdh", "kkrt", "rr22"};
    if (what != "all" && what != (thr ? "thr" : names[proto])) return;
    Cfg c; c.proto = proto; c.bcast = b; c.uniq = u; c.bucket = k; c.join = j; c.r = r; c.s = ss; c.lowcomm = w; c.thr = thr;
    // a case covers every kStride-th point from k on, up to the end of the run
    const long kStride = proto == 1 ? 24 : 12;
    for (int party = 0; party < 2; ++party) for (int mode = 0; mode < 2; ++mode) if (modes >> mode & 1) for (int k = 0; k < kStride; ++k) if (T || proto != 1 || !mode || k % 3 == (b ? 2 : 0))
      s.Add(fmt::format("crash:{}:{}:{}:{}", c.Id(), party, mode, k), o, [=] { for (long at = k; Crash1(c, party, mode, at, -1); at += kStride) mc::Count(1); });
    if (again) for (int party = 0; party < 2; ++party) for (int p2 = 0; p2 < 2; ++p2) for (int k = 2; k < 3 * kStride; k += 3)
      s.Add(fmt::format("crash2:{}:{}:{}:{}", c.Id(), party, p2, k), o, [=] { for (long at = k; Crash1(c, party, 0, at, p2); at += 3 * kStride) mc::Count(1); });
    if (sched) for (int party = 0; party < 2; ++party) for (int k = 2; k < 1500; k += 3)
      s.Add(fmt::format("crashs:{}:{}:{}", c.Id(), party, k), od, [=] { Crash1(c, party, 0, k, -1); });
  };
  add(1, true, false, 0, 0, {2, 1, 1, 0}, {1, 2, 0, 3}, false, 3, T, T);
  add(1, false, false, 0, 0, {1, 2, 1}, {3, 1, 0}, false, T ? 3 : 2, T, false);
  add(2, true, false, 1, 0, {2, 1, 1, 0}, {1, 2, 0, 3}, false, 3, T, T);
  add(2, false, false, 2, 0, {1, 1, 1}, {1, 1, 0}, false, 3);
  add(2, true, true, 1, 0, {1, 1, 1, 0}, {1, 1, 0, 1}, false, 3);
  add(2, true, true, 1, 0, {1, 1}, {1, 1}, false, 3);
  add(3, true, false, 1, 0, {2, 1, 1, 0}, {1, 2, 0, 3}, false, 3, T, T);
  add(3, false, false, 2, 0, {1, 1, 1}, {1, 1, 0}, false, 3);
  add(3, true, false, 1, 0, {1, 2, 1}, {2, 1, 0}, true, 3);
  add(3, true, true, 1, 0, {1, 1}, {1, 1}, false, 3);
  for (int b = 0; b < 2; ++b) for (int thr = 1; thr <= (T ? 3 : 2); ++thr) if (T || thr == 2 - b) add(1, b, false, 0, 0, {2, 1, 1, 0}, {1, 2, 1, 3}, false, T ? 3 : thr == 2 ? 3 : 1, false, false, thr);
  if (T) {
    add(1, true, true, 0, 0, {1, 1, 1, 0}, {1, 1, 0, 1}, false, 3);
    add(1, true, true, 0, 0, {1, 1}, {1, 1}, false, 3);
    add(1, true, false, 0, 4, {2, 0, 1, 1, 1}, {1, 1, 0, 2, 1}, false, 3);
    add(1, true, false, 0, 0, {1, 1, 1, 1, 1, 1}, {2, 1, 2, 1, 2, 1}, false, 3);
  }
  return s.Run();
}
