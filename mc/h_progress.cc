// Progress: explicit-state search over operation histories of a progress tree against
// a reference model, plus all interleavings (deviation bounded, at memory-access
// granularity) of workers and an observer.
#include <set>
#include <unordered_set>
#include "psilib.h"
#include "psi/utils/progress.h"
using psi::Progress;
using Mode = Progress::Mode;
namespace {
struct Node { std::string desc; int mode = 0; std::vector<size_t> w; std::vector<int> kids; size_t pct = 0; bool done = false; };
struct Op { char t; int node; int arg; };
using Tree = std::vector<Node>;
const std::vector<std::vector<size_t>> kW{{1, 3}, {10, 90}, {1, 2, 3}, {0, 1}, {1}, {7, 7, 7}};
const size_t kU[] = {0, 1, 33, 50, 99, 100, 130};
struct D { size_t total = 0, fin = 0, run = 0, pct = 0; std::string desc; };
D RefGet(const Tree& t, int i) {
  const Node& n = t[i]; D d;
  if (n.mode == 0) { d.total = 1; d.pct = n.pct; d.fin = n.pct == 100; d.run = n.pct > 0 && n.pct < 100; d.desc = (n.desc.empty() ? "" : n.desc + ", ") + std::to_string(n.pct) + "%"; return d; }
  size_t tw = 0, tp = 0; for (auto x : n.w) tw += x;
  d.total = n.w.size() - n.kids.size(); std::string sub;
  for (size_t k = 0; k < n.kids.size(); ++k) {
    D c = RefGet(t, n.kids[k]); tp += n.w[k] * c.pct; d.total += c.total; d.fin += c.fin; d.run += c.run;
    if (sub.empty() && (!t[n.kids[k]].done || k + 1 == n.kids.size())) sub = c.desc;
  }
  d.pct = tw ? tp / tw : 0;
  if (n.mode == 2) sub = fmt::format("{} jobs running ({} / {})", d.run, d.fin, d.total);
  d.desc = n.desc.empty() ? sub : sub.empty() ? n.desc : n.desc + ", " + sub;
  return d;
}
void RefDone(Tree& t, int i) { if (t[i].done) return; if (t[i].mode) for (int k : t[i].kids) RefDone(t, k); t[i].pct = 100; t[i].done = true; }
std::string Key(const Tree& t) { std::string s; for (auto& n : t) s += fmt::format("{}|{}|{}|{}|{}|{};", n.desc, n.mode, n.w, n.kids, n.pct, n.done); return s; }
std::string Show(const std::vector<Op>& p) { std::string s; for (auto& o : p) s += fmt::format("{}{}:{} ", o.t, o.node, o.arg); return s; }
bool Apply(Tree& t, const Op& o) {  // false: not enabled
  if (o.node >= (int)t.size()) return false;
  Node& n = t[o.node];
  switch (o.t) {
    case 'U': if (n.done || (n.mode == 0 && std::min<size_t>(100, kU[o.arg]) < n.pct)) return false; n.pct = std::min<size_t>(100, kU[o.arg]); return true;
    case 'D': RefDone(t, o.node); return true;
    case 'W': case 'w': case 'C': case 'c':
      if (n.mode || n.done || n.pct || !n.kids.empty()) return false;
      n.mode = o.t == 'W' || o.t == 'c' ? 1 : 2; n.w = o.t == 'W' || o.t == 'w' ? kW[o.arg] : std::vector<size_t>(o.arg + 1, 1); return true;
    case 'A': case 'N': {
      if (!n.mode || n.done || n.kids.size() >= n.w.size() || t.size() >= 5) return false;
      if (o.t == 'N' && !n.kids.empty()) RefDone(t, n.kids.back());
      t[o.node].kids.push_back(t.size()); Node c; c.desc = o.arg ? fmt::format("s{}", t.size()) : ""; t.push_back(c); return true;
    }
  }
  return false;
}
void Real(std::vector<std::shared_ptr<Progress>>& r, const Op& o) {
  auto& p = r[o.node];
  switch (o.t) {
    case 'U': p->Update(kU[o.arg]); break;
    case 'D': p->Done(); break;
    case 'W': p->SetWeights(kW[o.arg]); break;
    case 'w': p->SetWeights(kW[o.arg], Mode::kParallel); break;
    case 'C': p->SetSubJobCount(o.arg + 1); break;
    case 'c': p->SetSubJobCount(o.arg + 1, Mode::kSerial); break;
    case 'A': r.push_back(p->AddSubProgress(o.arg ? fmt::format("s{}", r.size()) : "")); break;
    case 'N': r.push_back(p->NextSubProgress(o.arg ? fmt::format("s{}", r.size()) : "")); break;
  }
}
std::vector<Op> Alphabet() {
  std::vector<Op> a;
  for (int n = 0; n < 5; ++n) {
    for (int u = 0; u < 7; ++u) a.push_back({'U', n, u});
    a.push_back({'D', n, 0});
    if (n < 3) { for (int w = 0; w < 6; ++w) { a.push_back({'W', n, w}); if (w < 3) a.push_back({'w', n, w}); } for (int c = 0; c < 3; ++c) { a.push_back({'C', n, c}); if (c) a.push_back({'c', n, c}); }
      for (int d = 0; d < 2; ++d) { a.push_back({'A', n, d}); a.push_back({'N', n, d}); } }
  }
  return a;
}
void Compare(const Tree& t, std::vector<std::shared_ptr<Progress>>& r, const std::vector<Op>& path) {
  for (size_t i = 0; i < t.size(); ++i) {
    D e = RefGet(t, i); auto g = r[i]->Get();
    auto F = [&](const char* k, const std::string& m) { mc::Fail(k, fmt::format("node {}: {} after {}", i, m, Show(path))); };
    if (g.percentage != e.pct) F("percentage", fmt::format("percentage {} expected {}", g.percentage, e.pct));
    if (g.total != e.total || g.finished != e.fin || g.running != e.run) F("counts", fmt::format("total/finished/running {}/{}/{} expected {}/{}/{}", g.total, g.finished, g.running, e.total, e.fin, e.run));
    if (g.description != e.desc) F("description", fmt::format("'{}' expected '{}'", g.description, e.desc));
    if (r[i]->IsDone() != t[i].done) F("done", fmt::format("IsDone {}", r[i]->IsDone()));
    if (g.percentage > 100) F("range", "percentage above 100");
  }
}
// breadth first over model states; each transition is replayed on a fresh real tree
void Search(const std::string& rootdesc, const Op& first, int depth, uint64_t cap) {
  auto alpha = Alphabet();
  Tree t0; t0.push_back({rootdesc});
  if (!Apply(t0, first)) return;
  std::unordered_set<std::string> seen{Key(t0)};
  std::vector<std::pair<Tree, std::vector<Op>>> front{{t0, {first}}};
  uint64_t tr = 0;
  for (int d = 1; d < depth && !front.empty(); ++d) {
    std::vector<std::pair<Tree, std::vector<Op>>> next;
    for (auto& [t, path] : front) for (auto& o : alpha) {
      Tree n = t;
      if (!Apply(n, o)) continue;
      std::vector<std::shared_ptr<Progress>> r{std::make_shared<Progress>(rootdesc)};
      for (auto& x : path) Real(r, x);
      auto before = r[0]->Get();
      Real(r, o); ++tr;
      auto p2 = path; p2.push_back(o);
      Compare(n, r, p2);
      // a work item never goes back (re-declaring the work is not progress)
      if (!strchr("WwCc", o.t) && r[0]->Get().percentage < before.percentage) mc::Fail("monotone", "percentage fell after " + Show(p2));
      auto k = Key(n);
      mc::Nontrivial(lib::H(k));
      if (seen.size() < cap && seen.insert(k).second) next.push_back({n, p2});
    }
    front = std::move(next);
  }
  mc::Count(tr); mc::States(seen.size());
  mc::Out(fmt::format("{} states", seen.size()));
  mc::Sample(fmt::format("root '{}' first op {} -> {} model states, {} transitions replayed; last {}", rootdesc, Show({first}), seen.size(), tr, front.empty() ? "-" : Show(front.back().second)));
}
// two workers on sub jobs, one observer
void Conc(int variant) {
  auto root = std::make_shared<Progress>("job");
  std::vector<std::shared_ptr<Progress>> sub(2);
  if (variant != 2) { root->SetSubJobCount(2); if (variant == 0) for (auto& s : sub) s = root->AddSubProgress("x"); }
  else root->SetWeights({1, 3});
  std::vector<size_t> seen; std::vector<Progress::Data> data;
  std::vector<std::thread> th;
  auto worker = [&](int i) {
    if (variant == 1) sub[i] = root->AddSubProgress("x");
    sub[i]->Update(50); sub[i]->Done();
  };
  if (variant == 2) th.push_back(mc::Spawn(0, [&] { for (int i = 0; i < 2; ++i) { auto p = root->NextSubProgress("p"); p->Update(40); } root->Done(); }));
  else for (int i = 0; i < 2; ++i) th.push_back(mc::Spawn(0, [&, i] { worker(i); }));
  th.push_back(mc::Spawn(0, [&] { for (int i = 0; i < 3; ++i) data.push_back(root->Get()); }));
  for (auto& t : th) t.join();
  auto fin = root->Get(); data.push_back(fin);
  std::string o; size_t last = 0;
  for (auto& d : data) {
    o += fmt::format("{}/{}/{}/{} ", d.percentage, d.finished, d.running, d.total);
    if (d.percentage > 100) mc::Fail("range", "percentage above 100: " + o);
    if (d.percentage < last) mc::Fail("monotone-observer", "an observer saw progress fall back: " + o);
    if (d.finished + d.running > d.total || d.total != 2) mc::Fail("counts-observer", "inconsistent job counts: " + o);
    last = d.percentage;
  }
  if (fin.percentage != 100 || fin.finished != 2) mc::Fail("final", "all work done but the report says " + o);
  if (variant == 2 && !root->IsDone()) mc::Fail("final", "done flag missing");
  mc::Out(o); mc::Nontrivial(lib::H(o)); mc::Sample(fmt::format("variant {} observer saw {}", variant, o));
}
}  // namespace
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "progress");
  for (std::string rd : {"", "job"}) for (auto& o : Alphabet()) {
    if (o.node) continue;
    Tree t{{rd}}; if (!Apply(t, o)) continue;
    mc::Opts op; op.sched = false; op.cpu_s = 600; int dep = s.Tier(5, 6); uint64_t cap = s.Tier(60000, 400000);
    s.Add(fmt::format("seq:{}:{}", rd, Show({o})), op, [=] { Search(rd, o, dep, cap); });
  }
  for (int v = 0; v < 3; ++v) { mc::Opts o; o.delays = s.Tier(2, 3); o.points |= 1u << mc::kMem; o.split = true; s.Add(fmt::format("conc:{}", v), o, [=] { Conc(v); }); }
  return s.Run();
}
