// Checks of the explorer itself: it must find a lost update, a deadlock, an
// ordering bug behind a condition variable and a torn file, and count schedules.
#include <atomic>
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <future>
#include <mutex>
#include "mc.h"
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "selftest");
  mc::Opts o; o.delays = 2;
  s.Add("lost-update", o, [] {
    std::mutex m; int x = 0;
    auto f = [&] { int v; { std::lock_guard<std::mutex> g(m); v = x; } { std::lock_guard<std::mutex> g(m); x = v + 1; } };
    mc::RunParties({f, f});
    mc::Out(std::to_string(x));
    if (x != 2) mc::Fail("lost", fmt::format("x={}", x));
  });
  s.Add("deadlock", o, [] {
    std::mutex a, b;
    mc::RunParties({[&] { std::lock_guard<std::mutex> g(a); std::lock_guard<std::mutex> h(b); }, [&] { std::lock_guard<std::mutex> g(b); std::lock_guard<std::mutex> h(a); }});
  });
  s.Add("ok-counter", o, [] {
    std::mutex m; int x = 0;
    auto f = [&] { for (int i = 0; i < 2; ++i) { std::lock_guard<std::mutex> g(m); ++x; } };
    mc::RunParties({f, f});
    mc::Out(std::to_string(x));
    if (x != 4) mc::Fail("lost", "");
  });
  s.Add("ok-async", o, [] {
    auto fu = std::async(std::launch::async, [] { std::this_thread::sleep_for(std::chrono::seconds(5)); return 7; });
    auto st = fu.wait_for(std::chrono::seconds(1));
    if (st == std::future_status::ready) mc::Fail("ready", "");
    if (fu.get() != 7) mc::Fail("val", "");
    std::promise<int> p; auto g = p.get_future();
    std::condition_variable cv; std::mutex m; bool rdy = false;
    mc::RunParties({[&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return rdy; }); p.set_value(3); }, [&] { { std::lock_guard<std::mutex> l(m); rdy = true; } cv.notify_one(); }});
    if (g.get() != 3) mc::Fail("p", "");
    mc::Out("done");
  });
  mc::Opts oc; 
  s.Add("crash-file", oc, [] {
    auto d = mc::ScratchDir();
    size_t n = 0; std::set<std::string> seen;
    auto prog = [&] { { std::ofstream o(d + "/f"); o << "hello world"; } std::rename((d + "/f").c_str(), (d + "/g").c_str()); return std::string(); };
    auto r = mc::Sub([&] { mc::FsArm(d, -1, -1, 0); return prog(); });
    n = r.log.size();
    for (auto& x : r.log) mc::Out(x.op + x.path);
    for (size_t i = 0; i < n; ++i) for (int t = 0; t < 3; ++t) {
      std::filesystem::remove_all(d); std::filesystem::create_directories(d);
      auto q = mc::Sub([&] { mc::FsArm(d, -1, i, t); return prog(); });
      if (!q.crashed) mc::Fail("nocrash", std::to_string(i));
      std::string c; std::ifstream f(d + "/g"); std::getline(f, c); seen.insert(c);
      std::ifstream f2(d + "/f"); c = "none"; std::getline(f2, c); seen.insert("f:" + c);
    }
    mc::Out(fmt::format("{}", seen));
  });
  return s.Run();
}
