// Two-party PSI seen from outside one run:
//  mismatch  every pair of configurations that differ in one field: fields that must agree make both parties
//            refuse before any key-dependent message or output; fields that are local do not matter
//  view      what a party can observe: no plain keys, no deterministic function of keys it must not learn,
//            message shapes that depend on set sizes only
//  io        every file operation of either party fails (once, or from then on): never a wrong or silent result
#include "psilib.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/cryptor/sodium_curve25519_cryptor.h"
#include "psi/proto/psi_v2.pb.h"
#include "yacl/crypto/rand/rand.h"
using namespace lib;
using psi::v2::PsiConfig;
struct Cfg { int proto = 1; bool bcast = true; int join = 0; bool digest = false, recovery = false, uniq = false, lowcomm = false; int bucket = 0, thr = 0, left = 0;
  std::string Id() const { return fmt::format("p{}b{}j{}d{}r{}u{}w{}k{}t{}", proto, (int)bcast, join, (int)digest, (int)recovery, (int)uniq, (int)lowcomm, bucket, thr); } };
static PsiConfig Make(const Cfg& c, bool receiver, const std::string& dir) {
  PsiConfig p; auto* pc = p.mutable_protocol_config(); std::string who = receiver ? "r" : "s";
  pc->set_protocol((psi::v2::Protocol)c.proto); pc->set_role(receiver ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER); pc->set_broadcast_result(c.bcast);
  if (c.proto == 1) pc->mutable_ecdh_config()->set_curve(psi::CURVE_25519);
  if (c.proto == 2) pc->mutable_kkrt_config()->set_bucket_size(c.bucket);
  if (c.proto == 3) { pc->mutable_rr22_config()->set_bucket_size(c.bucket); pc->mutable_rr22_config()->set_low_comm_mode(c.lowcomm); }
  p.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_input_config()->set_path(dir + "/" + who + ".csv");
  p.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV); p.mutable_output_config()->set_path(dir + "/" + who + ".out.csv");
  p.add_keys(who + "k"); p.set_advanced_join_type((PsiConfig::AdvancedJoinType)c.join); if (c.join) p.set_left_side(c.left ? psi::v2::ROLE_SENDER : psi::v2::ROLE_RECEIVER);
  p.mutable_input_attr()->set_keys_unique(c.uniq); p.set_check_hash_digest(c.digest);
  if (c.thr) { p.set_intersection_threshold(c.thr); p.set_count_path(dir + "/" + who + ".cnt"); }
  if (c.recovery) { p.mutable_recovery_config()->set_enabled(true); p.mutable_recovery_config()->set_folder(dir + "/rec_" + who); }
  return p;
}
using Table = std::vector<std::pair<std::string, int>>;   // key, multiplicity
static Rows RowsOf(const Table& t, const char* w) { Rows o; int n = 0; for (auto& [k, m] : t) for (int j = 0; j < m; ++j) o.push_back({k, w + S(n++)}); return o; }
static void WriteTable(const std::string& path, const Table& t, const char* w) { WriteCsv(path, {std::string(w) + "k", std::string(w) + "v"}, RowsOf(t, w), 1); }
static std::vector<std::string> Expect(const Cfg& c, const Table& mine, const Table& peer, const char* w) {
  std::map<std::string, int> pm(peer.begin(), peer.end()), own(mine.begin(), mine.end()); std::vector<std::string> e;
  bool left = (c.left == 0) == (w[0] == 'r'), full = c.join == 4 || c.join == 5;
  bool own_ex = full || (c.join == 2 && left) || (c.join == 3 && !left), peer_ex = full || (c.join == 2 && !left) || (c.join == 3 && left);
  for (auto& r : RowsOf(mine, w)) { if (pm.count(r[0])) { if (c.join != 5) for (int i = 0; i < pm[r[0]]; ++i) e.push_back(S(r)); } else if (own_ex) e.push_back(S(r)); }
  if (peer_ex && c.bcast) for (auto& [k, n] : peer) if (!own.count(k)) for (int i = 0; i < n; ++i) e.push_back(S(std::vector<std::string>{"NULL", "NULL"}));
  return Sorted(e);
}
static std::vector<std::string> OutRows(const std::string& path) { Rows o = ParseCsv(ReadFile(path)); std::vector<std::string> g; for (size_t i = 1; i < o.size(); ++i) g.push_back(S(o[i])); return Sorted(g); }

// ---- mismatch
struct Field { const char* name; bool must_agree; std::function<bool(PsiConfig&, bool receiver)> change; };   // change: false = not applicable
static std::vector<Field> Fields() {
  using namespace psi::v2;
  return {
    {"protocol-ecdh", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() == PROTOCOL_ECDH) return false; q->set_protocol(PROTOCOL_ECDH); q->clear_kkrt_config(); q->clear_rr22_config(); q->mutable_ecdh_config()->set_curve(psi::CURVE_25519); return true; }},
    {"protocol-kkrt", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() == PROTOCOL_KKRT) return false; q->set_protocol(PROTOCOL_KKRT); q->clear_ecdh_config(); q->clear_rr22_config(); q->mutable_kkrt_config()->set_bucket_size(0); return true; }},
    {"protocol-rr22", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() == PROTOCOL_RR22) return false; q->set_protocol(PROTOCOL_RR22); q->clear_ecdh_config(); q->clear_kkrt_config(); q->mutable_rr22_config()->set_bucket_size(0); return true; }},
    {"broadcast", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); q->set_broadcast_result(!q->broadcast_result()); return true; }},
    {"curve", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() != PROTOCOL_ECDH) return false; q->mutable_ecdh_config()->set_curve(psi::CURVE_SM2); return true; }},
    {"kkrt-bucket", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() != PROTOCOL_KKRT) return false; q->mutable_kkrt_config()->set_bucket_size(q->kkrt_config().bucket_size() + 3); return true; }},
    {"rr22-bucket", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() != PROTOCOL_RR22) return false; q->mutable_rr22_config()->set_bucket_size(q->rr22_config().bucket_size() + 3); return true; }},
    {"rr22-lowcomm", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() != PROTOCOL_RR22) return false; q->mutable_rr22_config()->set_low_comm_mode(!q->rr22_config().low_comm_mode()); return true; }},
    {"join", true, [](PsiConfig& p, bool) { p.set_advanced_join_type(p.advanced_join_type() == PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN ? PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN : PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN); if (p.left_side() == ROLE_UNSPECIFIED) p.set_left_side(ROLE_RECEIVER); return true; }},
    {"join-diff", true, [](PsiConfig& p, bool) { if (!p.advanced_join_type()) return false; p.set_advanced_join_type(p.advanced_join_type() == PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE ? PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN : PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE); return true; }},
    {"left-side", true, [](PsiConfig& p, bool) { if (!p.advanced_join_type()) return false; p.set_left_side(p.left_side() == ROLE_SENDER ? ROLE_RECEIVER : ROLE_SENDER); return true; }},
    {"digest", true, [](PsiConfig& p, bool) { if (p.recovery_config().enabled()) return false; p.set_check_hash_digest(!p.check_hash_digest()); return true; }},
    {"recovery", true, [](PsiConfig& p, bool) { if (p.recovery_config().enabled()) p.clear_recovery_config(); else { p.mutable_recovery_config()->set_enabled(true); p.mutable_recovery_config()->set_folder(p.output_config().path() + ".rec"); } return true; }},
    {"threshold", true, [](PsiConfig& p, bool) { p.set_intersection_threshold(p.intersection_threshold() + 1); return true; }},
    {"same-role", true, [](PsiConfig& p, bool r) { p.mutable_protocol_config()->set_role(r ? ROLE_SENDER : ROLE_RECEIVER); return true; }},
    {"output-path", false, [](PsiConfig& p, bool) { p.mutable_output_config()->set_path(p.output_config().path() + ".x"); return true; }},
    {"alignment", false, [](PsiConfig& p, bool) { p.set_disable_alignment(!p.disable_alignment()); return true; }},
    {"unique-flag", false, [](PsiConfig& p, bool) { p.mutable_input_attr()->set_keys_unique(!p.input_attr().keys_unique()); return true; }},
    {"debug", false, [](PsiConfig& p, bool) { p.mutable_debug_options()->set_logging_level("off"); return true; }},
    {"count-path", false, [](PsiConfig& p, bool) { p.set_count_path(p.output_config().path() + ".cnt"); return true; }},
    {"recovery-folder", false, [](PsiConfig& p, bool) { if (!p.recovery_config().enabled()) return false; p.mutable_recovery_config()->set_folder(p.recovery_config().folder() + "2"); return true; }},
    // refused by the party itself, and then by the other one too
    {"bad:no-keys", true, [](PsiConfig& p, bool) { p.clear_keys(); return true; }},
    {"bad:dup-keys", true, [](PsiConfig& p, bool) { p.add_keys(p.keys(0)); return true; }},
    {"bad:unknown-key", true, [](PsiConfig& p, bool) { p.set_keys(0, "nosuch"); return true; }},
    {"bad:input-type", true, [](PsiConfig& p, bool) { p.mutable_input_config()->set_type(IO_TYPE_UNSPECIFIED); return true; }},
    {"bad:output-type", true, [](PsiConfig& p, bool) { p.mutable_output_config()->set_type(IO_TYPE_UNSPECIFIED); return true; }},
    {"bad:no-input", true, [](PsiConfig& p, bool) { p.mutable_input_config()->set_path(p.input_config().path() + ".missing"); return true; }},
    {"bad:curve", true, [](PsiConfig& p, bool) { auto* q = p.mutable_protocol_config(); if (q->protocol() != PROTOCOL_ECDH) return false; q->mutable_ecdh_config()->set_curve(psi::CURVE_INVALID_TYPE); return true; }},
  };
}
static void Mismatch(const Cfg& c, size_t f, bool at_receiver) {
  Hermetic(); auto dir = mc::ScratchDir();
  Table A{{"a", 1}, {"b", 1}, {"c", 1}}, B{{"b", 1}, {"c", 1}, {"d", 1}, {"e", 1}};
  WriteTable(dir + "/r.csv", A, "r"); WriteTable(dir + "/s.csv", B, "s");
  PsiConfig p[2] = {Make(c, true, dir), Make(c, false, dir)};
  auto F = Fields()[f];
  if (!F.change(p[at_receiver ? 0 : 1], at_receiver)) { mc::Out("n/a"); return; }
  std::vector<std::string> sent[2]; std::vector<std::string> err;
  auto run = [&](int n) {
    shim::RngReset(5); auto ctx = World(2); auto w = ctx[0]->ShimWorld();
    w->on_send = [&, n](const shim::link::Event& e, std::string* m) { sent[n].push_back(fmt::format("{}:{}:", e.ctx, e.src) + *m); };
    err = mc::RunParties({[&] { psi::createPsiParty(p[0], ctx[0])->Run(); }, [&] { psi::createPsiParty(p[1], ctx[1])->Run(); }});
    std::sort(sent[n].begin(), sent[n].end());
  };
  run(0);
  std::string d = fmt::format("cfg {}, {} changed at the {}: receiver '{}' sender '{}'", c.Id(), F.name, at_receiver ? "receiver" : "sender", err[0], err[1]);
  bool refused = !err[0].empty() && !err[1].empty();
  if (F.must_agree) {
    if (!refused) mc::Fail("accepted", "not refused by both parties: " + d);
    for (auto& e : std::filesystem::directory_iterator(dir)) if (e.path().string().find(".out.csv") != std::string::npos && !e.is_directory()) mc::Fail("output", "an output file was written although the configurations do not fit: " + d);
    // nothing that depends on the keys was sent: other keys, and other numbers of keys, give the same messages
    WriteTable(dir + "/r.csv", {{"x", 1}, {"y", 2}}, "r"); WriteTable(dir + "/s.csv", {{"y", 1}, {"z", 1}}, "s");
    run(1);
    if (sent[0] != sent[1]) mc::Fail("late", fmt::format("refused only after messages that depend on the keys ({} messages): {}", sent[0].size(), d));
  } else {
    if (!err[0].empty() || !err[1].empty()) mc::Fail("refused", "a local setting was refused: " + d);
    if (OutRows(p[0].output_config().path()) != Expect(c, A, B, "r") || (c.bcast && OutRows(p[1].output_config().path()) != Expect(c, B, A, "s"))) mc::Fail("result", d);
  }
  mc::Out(refused ? "refused" : "ok"); mc::Nontrivial(H(c.Id() + F.name + (at_receiver ? "r" : "s"))); mc::Sample(d);
}

// ---- view
struct View { std::vector<std::string> shape; std::vector<std::string> bytes; };   // per message sent to the party: context, size; payload
struct Views { View v[2]; std::vector<std::vector<uint8_t>> secrets[2]; std::string err[2]; };
static Views Observe(const Cfg& c, const std::string& dir, const Table& A, const Table& B, uint64_t seed) {
  for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path());
  WriteTable(dir + "/r.csv", A, "r"); WriteTable(dir + "/s.csv", B, "s");
  shim::RngReset(seed);
  auto ctx = World(2); Views o; auto w = ctx[0]->ShimWorld();
  mc::g_on_rand = [&](int p, const unsigned char* b, int n) { if (n == 32 && p >= 0 && p < 2) o.secrets[p].emplace_back(b, b + n); };
  w->on_send = [&](const shim::link::Event& e, std::string* p) {
    auto& v = o.v[e.dst]; v.shape.push_back(fmt::format("{}:{}", e.ctx, p->size())); v.bytes.emplace_back(*p);
  };
  auto err = mc::RunParties({[&] { psi::createPsiParty(Make(c, true, dir), ctx[0])->Run(); }, [&] { psi::createPsiParty(Make(c, false, dir), ctx[1])->Run(); }});
  mc::g_on_rand = nullptr;
  if (!err[0].empty() || !err[1].empty()) mc::Fail("error", fmt::format("cfg {}: receiver '{}' sender '{}'", c.Id(), err[0], err[1]));
  for (auto& v : o.v) std::sort(v.shape.begin(), v.shape.end());
  return o;
}
static constexpr size_t kWin = 12;
static std::set<std::string> Windows(const View& v) { std::set<std::string> o; for (auto& m : v.bytes) for (size_t i = 0; i + kWin <= m.size(); ++i) o.insert(m.substr(i, kWin)); return o; }
// An observer that holds a secret scalar applies it to every point it was sent and looks for the product among what it
// was sent: a hit tells it which of its own keys the other party holds
static bool Linkable(const View& v, const std::vector<std::vector<uint8_t>>& secrets) {
  auto w = Windows(v);
  for (auto k : secrets) {
    k[0] &= 248; k[31] &= 127; k[31] |= 64;   // the range of curve25519 scalars
    psi::SodiumCurve25519Cryptor cr; cr.SetPrivateKey(absl::MakeSpan(k));
    for (auto& m : v.bytes) for (size_t i = 0; i + 32 <= m.size(); ++i) {
      std::string q;
      try { auto b = cr.SerializeEcPoints(cr.EccMask(std::vector<yacl::crypto::EcPoint>{cr.DeserializeEcPoint(m.substr(i, 32))})); q = b[0]; } catch (const std::exception&) { continue; }
      for (size_t j = 0; j + kWin <= q.size(); ++j) if (w.count(q.substr(j, kWin))) return true;
    }
  }
  return false;
}
static std::string Key(int i) { return fmt::format("Q{}#private-key-{}-of-somebody", i, i * 7919 % 1000); }
static Table Keys(const std::vector<int>& m, int base = 0) { Table t; for (size_t i = 0; i < m.size(); ++i) if (m[i]) t.push_back({Key(base + i), m[i]}); return t; }
// Plain keys and deterministic functions of a key that the observer must not learn. `x`, `y`: the tables of the observed
// party, which differ in keys the observer does not hold and which the result does not show
static void Leak(const Cfg& c, bool obs_receiver, const std::vector<int>& mine, const std::vector<int>& common, int excl, int exm) {
  Hermetic(); auto dir = mc::ScratchDir();
  Table obs = Keys(mine), X, Y; bool linkable = false;
  for (size_t i = 0; i < common.size(); ++i) if (common[i]) { X.push_back({Key(i), common[i]}); Y.push_back({Key(i), common[i]}); }
  for (int i = 0; i < excl; ++i) { X.push_back({Key(20 + i), exm}); Y.push_back({Key(40 + i), exm}); }
  auto run = [&](const Table& t, uint64_t seed) {
    auto v = Observe(c, dir, obs_receiver ? obs : t, obs_receiver ? t : obs, seed); int w = obs_receiver ? 0 : 1;
    if (c.proto == 1 && seed == 11 && &t == &X) { linkable = Linkable(v.v[w], v.secrets[w]); if (v.secrets[w].empty()) mc::Fail("internal", "no secret of the observer was seen"); }
    return v.v[w];
  };
  View x1 = run(X, 11), x2 = run(X, 12), y1 = run(Y, 11), y2 = run(Y, 12);
  std::string d = fmt::format("cfg {} observer {} holds {}, the other party {} or {}", c.Id(), obs_receiver ? "receiver" : "sender", obs, X, Y);
  if (!c.bucket && x1.shape != y1.shape) mc::Fail("shape", fmt::format("the sizes of the messages depend on keys that must stay private: {} / {} :: {}", x1.shape, y1.shape, d));
  for (auto* v : {&x1, &x2, &y1, &y2}) for (auto& m : v->bytes) for (auto* t : {&X, &Y}) for (auto& [k, n] : *t) if (m.find(k) != std::string::npos) mc::Fail("plain", "the observer received the key " + k + " in the clear :: " + d);
  if (linkable && !obs_receiver && !c.bcast) mc::Fail("linkable", "the sender can find out which of its keys the receiver holds: " + d);
  mc::Out(linkable ? "linkable" : "not linkable");
  auto a = Windows(x1), b = Windows(x2), e = Windows(y1), f = Windows(y2);
  std::set<std::string> cand; for (auto& w : a) if (b.count(w) && !e.count(w) && !f.count(w)) cand.insert(w);
  for (uint64_t seed = 21; seed < 33 && !cand.empty(); ++seed) {   // not by chance (small numbers at random places)
    auto x = Windows(run(X, seed)), y = Windows(run(Y, seed));
    for (auto i = cand.begin(); i != cand.end();) if (!x.count(*i) || y.count(*i)) i = cand.erase(i); else ++i;
  }
  for (auto& w : cand) mc::Fail("deterministic", fmt::format("the observer receives the bytes {} whenever the other party holds these keys, whatever the randomness :: {}", S(std::vector<int>(w.begin(), w.end())), d));
  mc::Out(fmt::format("{}", x1.shape.size())); mc::Nontrivial(H(d)); mc::Sample(d + fmt::format(" -> {} messages, {} windows", x1.shape.size(), a.size()));
}
// A sender that is not given the result must see the same message sizes for every table of the same size
static void Shape(const Cfg& c, const std::vector<int>& ms, int rkeys, int K) {
  Hermetic(); auto dir = mc::ScratchDir();
  std::vector<std::string> ref; std::string refd;
  for (int m = 0; m < (1 << K); ++m) {
    if (__builtin_popcount(m) != rkeys) continue;
    for (int dup = 0; dup < 2; ++dup) {
      std::vector<int> mr; bool first = true; for (int i = 0; i < K; ++i) { mr.push_back(m >> i & 1 ? (dup && first ? 2 : 1) : 0); if (m >> i & 1) first = false; }
      if (c.uniq && dup) continue;
      auto v = Observe(c, dir, Keys(mr), Keys(ms), 11).v[1];
      std::string d = fmt::format("receiver {}", mr);
      if (refd.empty()) { ref = v.shape; refd = d; }
      else if (v.shape != ref) mc::Fail("shape", fmt::format("cfg {} sender {}: the sender sees {} when {} but {} when {}", c.Id(), ms, ref, refd, v.shape, d));
      mc::Count(1);
    }
  }
  mc::Out(S(ref.size())); mc::Nontrivial(H(c.Id() + S(ms) + S(rkeys))); mc::Sample(fmt::format("cfg {} sender {} receiver with {} of {} keys: {}", c.Id(), ms, rkeys, K, ref));
}

// ---- io
struct IoTables { Table a, b; };
// big: several writes per file
static IoTables IoData(const Cfg& c, bool big) {
  IoTables t{{{"d", 2}, {"a", 1}, {"c", 1}, {"f", 1}}, {{"a", 2}, {"d", 1}, {"b", 1}, {"f", 1}}};
  if (big) for (auto* x : {&t.a, &t.b}) for (auto& [k, n] : *x) k = std::string(5000, k[0]);
  if (c.uniq) { for (auto& x : t.a) x.second = 1; for (auto& x : t.b) x.second = 1; }
  return t;
}
static std::string Brief(const std::vector<std::string>& v) { std::vector<std::string> o; for (auto x : v) { if (x.size() > 40) x = x.substr(0, 12) + "..." + x.substr(x.size() - 8); o.push_back(x); } return S(o); }
static void IoJudge(const Cfg& c, const std::string& dir, const IoTables& t, const std::string err[2], const std::string& d) {
  for (int w = 0; w < 2; ++w) {
    if (!err[w].empty() || (w == 1 && !c.bcast)) continue;
    auto path = dir + (w ? "/s.out.csv" : "/r.out.csv");
    auto e = Expect(c, w ? t.b : t.a, w ? t.a : t.b, w ? "s" : "r");
    if (!std::filesystem::exists(path) || OutRows(path) != e) mc::Fail("silent", fmt::format("the {} reports success with the output {} instead of {} :: {} (other party: '{}')", w ? "sender" : "receiver", Brief(OutRows(path)), Brief(e), d, err[1 - w]));
  }
}
// The nth start of a tool of the sort pipeline, of either party, fails: at once (how 0), after a part of its output (1), killed (2)
static void Tool(const Cfg& c, bool quoted, const char* tool, int how) {
  Hermetic(); auto dir = mc::ScratchDir(); auto t = IoData(c, false);
  if (quoted) for (auto* x : {&t.a, &t.b}) for (auto& [k, n] : *x) k += ",\"";
  const std::string* old = new std::string(getenv("PATH") ? getenv("PATH") : "/usr/bin:/bin");
  for (int nth = 0; nth < 8; ++nth) {
    for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path());
    WriteTable(dir + "/r.csv", t.a, "r"); WriteTable(dir + "/s.csv", t.b, "s");
    std::filesystem::create_directories(dir + "/bin"); std::filesystem::create_directories(dir + "/n");
    const char* fail[] = {"cat >/dev/null; exit 1", "PATH=$OLD {} \"$@\" | PATH=$OLD head -n 2; exit 1", "kill -9 $$"};
    WriteFile(dir + "/bin/" + tool, fmt::format("#!/bin/sh\nOLD='{}'\nexport PATH=$OLD\nn=$(ls {}/n | wc -l)\ntouch {}/n/$n\nif [ $n = {} ]; then {}; fi\nexec {} \"$@\"\n", *old, dir, dir, nth, fmt::format(fmt::runtime(fail[how]), tool), tool));
    std::filesystem::permissions(dir + "/bin/" + tool, std::filesystem::perms::all);
    auto r = mc::Sub([&] {
      setenv("PATH", (dir + "/bin:" + *old).c_str(), 1);
      shim::RngReset(7); auto ctx = World(2, "root", 20000);
      auto err = mc::RunParties({[&] { psi::createPsiParty(Make(c, true, dir), ctx[0])->Run(); }, [&] { psi::createPsiParty(Make(c, false, dir), ctx[1])->Run(); }});
      return err[0] + "\x01" + err[1];
    });
    size_t used = std::distance(std::filesystem::directory_iterator(dir + "/n"), std::filesystem::directory_iterator());
    std::string d = fmt::format("cfg {}{}: start {} of '{}' {}", c.Id(), quoted ? " quoted" : "", nth, tool, how == 0 ? "fails" : how == 1 ? "fails after a part of its output" : "is killed");
    if (r.ok) {
      auto z = r.out.find('\x01'); std::string err[2] = {r.out.substr(0, z), r.out.substr(z + 1)};
      IoJudge(c, dir, t, err, d);
      mc::Out(err[0].empty() && err[1].empty() ? "ok" : "error");
    } else mc::Out("died");
    mc::Count(1); mc::Nontrivial(H(d)); mc::Sample(d + " -> " + (r.ok ? r.out.substr(0, 200) : "process died"));
    if (used <= (size_t)nth) return;
  }
}
// The link of a party breaks at its kth send (how 0: that channel, 1: all of its channels) or kth receive (2, 3), and stays broken
static void Net(const Cfg& c, int party, int how, long first, long stride) {
  Hermetic(); auto dir = mc::ScratchDir(); auto t = IoData(c, false);
  for (long k = first;; k += stride) {
    for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path());
    WriteTable(dir + "/r.csv", t.a, "r"); WriteTable(dir + "/s.csv", t.b, "s");
    auto run = [&](int seed, long at, long* n) {
      return mc::Sub([&] {
        shim::RngReset(seed); auto ctx = World(2, "root" + S(seed), 20000); auto w = ctx[0]->ShimWorld();
        long cnt = 0; bool down = false; std::set<std::pair<std::string, size_t>> broken;
        auto hit = [&](const std::string& id, size_t src, size_t dst, bool send) {
          bool mine = (send ? src : dst) == (size_t)party;
          if (mine && send == (how < 2) && cnt++ == at) { if (how & 1) down = true; else broken.insert({id, src}); }
          if (down || broken.count({id, src})) { if (send) YACL_THROW_NETWORK_ERROR("link down"); YACL_THROW_IO_ERROR("Get data timeout, link down"); }
        };
        w->on_send = [&](const shim::link::Event& e, std::string*) { hit(e.ctx, e.src, e.dst, true); };
        w->on_recv = [&](const std::string& id, size_t src, size_t dst) { hit(id, src, dst, false); };
        auto err = mc::RunParties({[&] { psi::createPsiParty(Make(c, true, dir), ctx[0])->Run(); }, [&] { psi::createPsiParty(Make(c, false, dir), ctx[1])->Run(); }});
        return err[0] + "\x01" + err[1] + "\x01" + S(cnt);
      });
    };
    std::string d = fmt::format("cfg {}: the link of the {} breaks at its {} {}{}", c.Id(), party ? "sender" : "receiver", how < 2 ? "send" : "receive", k, how & 1 ? ", all channels" : "");
    auto check = [&](const mc::SubResult& r, const std::string& what, std::string err[2]) {
      if (!r.ok) { mc::Fail("died", "the process died: " + r.out.substr(0, 200) + " :: " + d); }
      auto z = r.out.find('\x01'), y = r.out.rfind('\x01'); err[0] = r.out.substr(0, z); err[1] = r.out.substr(z + 1, y - z - 1);
      IoJudge(c, dir, t, err, what + d);
      return atol(r.out.c_str() + y + 1);
    };
    std::string err[2]; long n = check(run(7, k, nullptr), "", err); bool beyond = n <= k;
    if (!beyond && err[party].empty() && how < 2) mc::Fail("swallowed", fmt::format("a failed send is not reported: {} (other party: '{}')", d, err[1 - party]));
    mc::Out(err[0].empty() && err[1].empty() ? "ok" : "error");
    mc::Count(1); mc::Nontrivial(H(d)); mc::Sample(d + " -> receiver '" + err[0].substr(0, 80) + "' sender '" + err[1].substr(0, 80) + "'");
    if (c.recovery && !beyond) {
      check(run(8, -1, nullptr), "rerun after ", err);
      if (!err[0].empty() || !err[1].empty()) mc::Fail("rerun", fmt::format("the run after the failure fails: receiver '{}' sender '{}' :: {}", err[0], err[1], d));
    }
    if (beyond) return;
    if (k > 3000) mc::Fail("internal", "too many messages");
  }
}
static void Io(const Cfg& c, bool big, int party, int mode, long first, long stride) {
  Hermetic(); auto dir = mc::ScratchDir(); auto t = IoData(c, big);
  for (long k = first;; k += stride) {
    for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path());
    WriteTable(dir + "/r.csv", t.a, "r"); WriteTable(dir + "/s.csv", t.b, "s");
    auto r = mc::Sub([&] {
      shim::RngReset(7); auto ctx = World(2, "root", 20000);
      mc::FsArm(dir, party, k, mode);
      auto err = mc::RunParties({[&] { psi::createPsiParty(Make(c, true, dir), ctx[0])->Run(); }, [&] { psi::createPsiParty(Make(c, false, dir), ctx[1])->Run(); }});
      mc::FsDisarm();
      return err[0] + "\x01" + err[1];
    });
    bool beyond = r.ok && (long)r.log.size() <= k;
    std::string d = fmt::format("cfg {}: file operation {}{} of the {} fails", c.Id(), k, r.ok && !beyond ? " (" + r.log[k].op + " " + r.log[k].path + ")" : "", party ? "sender" : "receiver") + (mode == 4 ? ", and all later ones" : "");
    if (r.ok) {
      auto z = r.out.find('\x01'); std::string err[2] = {r.out.substr(0, z), r.out.substr(z + 1)};
      IoJudge(c, dir, t, err, d);
      mc::Out(err[0].empty() && err[1].empty() ? "ok" : "error");
    } else mc::Out("died");
    mc::Count(1); mc::Nontrivial(H(d)); mc::Sample(d + " -> " + (r.ok ? r.out.substr(0, 200) : "process died"));
    if (c.recovery && !beyond) {   // the failure is repaired and both parties run again
      auto q = mc::Sub([&] {
        shim::RngReset(8); auto ctx = World(2, "root2", 20000);
        auto err = mc::RunParties({[&] { psi::createPsiParty(Make(c, true, dir), ctx[0])->Run(); }, [&] { psi::createPsiParty(Make(c, false, dir), ctx[1])->Run(); }});
        return err[0] + "\x01" + err[1];
      });
      if (!q.ok) mc::Fail("rerun", "the run after the failure died: " + q.out.substr(0, 200) + " :: " + d);
      auto z = q.out.find('\x01'); std::string err[2] = {q.out.substr(0, z), q.out.substr(z + 1)};
      if (!err[0].empty() || !err[1].empty()) mc::Fail("rerun", fmt::format("the run after the failure fails: receiver '{}' sender '{}' :: {}", err[0], err[1], d));
      IoJudge(c, dir, t, err, "rerun after " + d);
    }
    if (beyond) return;
    if (k > 3000) mc::Fail("internal", "too many operations");
  }
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "net");
  std::string what = getenv("NET_SET") ? getenv("NET_SET") : "all";
  bool T = !s.Quick();
  mc::Opts o; o.cpu_s = 300;
  std::vector<Cfg> base;
  for (int proto : {1, 2, 3}) for (int b = 0; b < 2; ++b) { Cfg c; c.proto = proto; c.bcast = b; base.push_back(c); }
  if (what == "mismatch" || what == "all") {
    std::vector<Cfg> cs = base;
    for (auto& x : base) { Cfg c = x; c.join = 2; cs.push_back(c); c.join = 5; cs.push_back(c); c = x; c.recovery = true; cs.push_back(c); c = x; c.digest = true; cs.push_back(c); c = x; c.uniq = true; cs.push_back(c); c = x; c.bucket = 2; if (c.proto > 1) cs.push_back(c); }
    { Cfg c; c.thr = 2; cs.push_back(c); c.bcast = false; cs.push_back(c); }
    for (auto& c : cs) for (size_t f = 0; f < Fields().size(); ++f) for (int r = 0; r < 2; ++r) s.Add(fmt::format("mismatch:{}:{}:{}", c.Id(), Fields()[f].name, r), o, [=] { Mismatch(c, f, r); });
  }
  if (what == "view" || what == "all") {
    std::vector<Cfg> cs = base;
    for (auto& x : base) { Cfg c = x; c.uniq = true; cs.push_back(c); c = x; c.join = 1; cs.push_back(c); if (x.proto == 3) { c = x; c.lowcomm = true; cs.push_back(c); } if (x.proto > 1) { c = x; c.bucket = 2; cs.push_back(c); } }
    { Cfg c; c.thr = 1; cs.push_back(c); c.bcast = false; cs.push_back(c); }
    for (auto& c : cs) {
      for (int r = 0; r < 2; ++r) for (auto& mine : {std::vector<int>{1, 1, 1}, {1}, {1, 2, 1}}) for (auto& com : {std::vector<int>{0, 0, 0}, {1, 0, 0}, {1, 1, 1}, {2, 1, 0}}) for (int ex = 1; ex <= (T ? 3 : 2); ++ex) for (int m = 1; m <= 2; ++m) {
        auto dup = [](const std::vector<int>& v) { return std::any_of(v.begin(), v.end(), [](int i) { return i > 1; }); };
        if (c.uniq && (m > 1 || dup(mine) || dup(com))) continue;
        if (!T && (dup(mine) || dup(com)) && m > 1) continue;
        if (c.bucket && !T) { if (ex != 2) continue; }
        s.Add(fmt::format("leak:{}:{}:{}:{}:{}:{}", c.Id(), r, fmt::join(mine, ""), fmt::join(com, ""), ex, m), o, [=] { Leak(c, r, mine, com, ex, m); });
      }
      if (!c.bcast && !c.bucket && !c.thr) for (auto& ms : {std::vector<int>{1, 1, 0, 0}, {2, 1, 0, 1}, {1, 1, 1, 1}}) { if (c.uniq && ms[0] > 1) continue; for (int rk = 1; rk <= 4; ++rk) s.Add(fmt::format("shape:{}:{}:{}", c.Id(), fmt::join(ms, ""), rk), o, [=] { Shape(c, ms, rk, T ? 5 : 4); }); }
    }
  }
  if (what == "io" || what == "all") {
    std::vector<Cfg> cs = base;
    { Cfg c; c.recovery = true; cs.push_back(c); c.proto = 2; cs.push_back(c); c.proto = 3; cs.push_back(c); c = Cfg(); c.join = 4; cs.push_back(c); c = Cfg(); c.uniq = true; cs.push_back(c); c = Cfg(); c.proto = 3; c.bucket = 2; cs.push_back(c); }
    for (auto& c : cs) for (int party = 0; party < 2; ++party) for (int mode = 3; mode <= 4; ++mode) for (int big = 0; big < 2; ++big) for (int k = 0; k < 8; ++k) if (T || !big || (mode == 3 && c.bcast && !c.bucket && !(c.recovery && c.proto > 1))) s.Add(fmt::format("io{}:{}:{}:{}:{}", big ? "big" : "", c.Id(), party, mode, k), o, [=] { Io(c, big, party, mode, k, 8); });
    for (auto& c : cs) for (int party = 0; party < 2; ++party) for (int how = 0; how < 4; ++how) for (int k = 0; k < 4; ++k) s.Add(fmt::format("link:{}:{}:{}:{}", c.Id(), party, how, k), o, [=] { Net(c, party, how, k, 4); });
    for (auto& c : cs) if (!c.recovery) for (int q = 0; q < 2; ++q) for (auto* tool : {"tail", "sort", "cut", "cat"}) for (int how = 0; how < 3; ++how) { if (q ? !strcmp(tool, "tail") : !strcmp(tool, "cut") || !strcmp(tool, "cat")) continue; s.Add(fmt::format("tool:{}:{}:{}:{}", c.Id(), q, tool, how), o, [=] { Tool(c, q, tool, how); }); }
  }
  return s.Run();
}
