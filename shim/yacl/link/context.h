// Stand-in for yacl/link/context.h: in-memory, FIFO per (context id, src, dst).
// Message tags are trace-only, exactly as in yacl (matching is by sequence).
#pragma once
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"

// Controlled-scheduler hooks; absent (null) in ordinary runs.
extern "C" {
__attribute__((weak)) void mc_point(int kind, const void* obj);
__attribute__((weak)) void mc_atomic_begin();
__attribute__((weak)) void mc_atomic_end();
}
namespace yacl::link {
inline constexpr size_t kAllRank = std::numeric_limits<size_t>::max();
}
namespace shim::link {
struct Event {  // one message
  const std::string& ctx;
  size_t src, dst;       // ranks inside ctx
  const std::string& src_party;
  const std::string& dst_party;
  std::string_view payload;
  std::string_view tag;
  bool async_throttled;
};
struct World {
  struct Chan { std::deque<std::string> q; uint64_t sent = 0, taken = 0; };
  std::mutex mu;
  std::condition_variable cv;
  std::map<std::tuple<std::string, std::string, std::string>, Chan> chans;  // ctx, src party, dst party
  std::set<std::string> dead;                                               // parties whose link is gone
  std::function<void(const Event&, std::string*)> on_send;                  // may throw or rewrite payload
  std::function<void(const std::string& ctx, size_t src, size_t dst)> on_recv;  // before the blocking receive; may throw
  std::function<void(const std::string& ctx, size_t src, size_t dst, std::string_view)> on_got;
  uint64_t n_msgs = 0, n_bytes = 0;
  size_t Leftover() { size_t n = 0; for (auto& [k, c] : chans) n += c.q.size(); return n; }
};
struct Atomic {
  Atomic() { if (mc_atomic_begin) mc_atomic_begin(); }
  ~Atomic() { if (mc_atomic_end) mc_atomic_end(); }
};
}  // namespace shim::link
namespace yacl::link {
struct SSLOptions { std::string cert_path, private_key_path, ca_file_path, ciphers; int verify_depth = 0; struct { std::string certificate_path, private_key_path; } cert; struct { int verify_depth = 0; std::string ca_file_path; } verify; };
struct RetryOptions { uint32_t max_retry = 3, retry_interval_ms = 1000, retry_interval_incr_ms = 2000, max_retry_interval_ms = 10000; };
struct ContextDesc {
  struct Party {
    std::string id, host;
    Party() = default;
    Party(std::string i, std::string h) : id(std::move(i)), host(std::move(h)) {}
    bool operator==(const Party& p) const { return id == p.id && host == p.host; }
  };
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 30 * 1000;
  uint32_t http_max_payload_size = 1024 * 1024;
  uint32_t http_timeout_ms = 20 * 1000;
  uint32_t throttle_window_size = 10;
  uint32_t chunk_parallel_send_size = 1;
  std::string brpc_channel_protocol = "baidu_std";
  std::string brpc_channel_connection_type = "single";
  std::string link_type = "normal";
  bool enable_ssl = false;
  SSLOptions client_ssl_opts, server_ssl_opts;
  RetryOptions retry_opts;
  bool exit_if_async_error = true;
  bool disable_msg_seq_id = false;
};
struct Statistics { uint64_t sent_bytes = 0, sent_actions = 0, recv_bytes = 0, recv_actions = 0; };
class Context {
 public:
  Context(ContextDesc desc, size_t rank, std::shared_ptr<::shim::link::World> w)
      : desc_(std::move(desc)), rank_(rank), world_(std::move(w)), timeout_ms_(desc_.recv_timeout_ms), window_(desc_.throttle_window_size) {
    YACL_ENFORCE(rank_ < desc_.parties.size());
  }
  [[nodiscard]] std::string Id() const { return desc_.id; }
  [[nodiscard]] size_t WorldSize() const { return desc_.parties.size(); }
  [[nodiscard]] size_t Rank() const { return rank_; }
  [[nodiscard]] size_t PrevRank(size_t stride = 1) const { return (rank_ + WorldSize() - stride % WorldSize()) % WorldSize(); }
  [[nodiscard]] size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % WorldSize(); }
  [[nodiscard]] const std::string& PartyIdByRank(size_t r) const { return desc_.parties.at(r).id; }
  void ConnectToMesh() {}
  void ConnectToMesh(int) {}
  void WaitLinkTaskFinish() {}
  void AbortLink() {}
  std::unique_ptr<Context> Spawn(const std::string& id = "") {
    ContextDesc d = desc_;
    d.id = desc_.id + "-" + (id.empty() ? std::to_string(child_++) : id);
    auto c = std::make_unique<Context>(std::move(d), rank_, world_);
    c->timeout_ms_ = timeout_ms_;
    return c;
  }
  std::unique_ptr<Context> SubWorld(std::string_view id_suffix, const std::vector<std::string>& ids) {
    ContextDesc d = desc_;
    d.id = desc_.id + "-" + std::string(id_suffix);
    d.parties.clear();
    size_t r = ids.size();
    for (size_t i = 0; i < ids.size(); ++i) {
      if (ids[i] == PartyIdByRank(rank_)) r = i;
      d.parties.emplace_back(ids[i], ids[i]);
    }
    YACL_ENFORCE(r < ids.size(), "self not in sub world");
    auto c = std::make_unique<Context>(std::move(d), r, world_);
    c->timeout_ms_ = timeout_ms_;
    return c;
  }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag) { Push(dst, v, tag, false); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { Push(dst, v, tag, true); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { Push(dst, v, tag, false); }
  Buffer Recv(size_t src, std::string_view tag) {
    (void)tag;
    YACL_ENFORCE(src < WorldSize() && src != rank_, "bad recv rank {}", src);
    if (world_->on_recv) world_->on_recv(desc_.id, src, rank_);
    auto& ch = Chan(src, rank_);
    if (mc_point) mc_point(2, &ch);
    ::shim::link::Atomic at;
    std::unique_lock<std::mutex> lk(world_->mu);
    auto ok = [&] { return !ch.q.empty() || world_->dead.count(PartyIdByRank(src)) != 0; };
    if (!world_->cv.wait_for(lk, std::chrono::milliseconds(timeout_ms_), ok) || ch.q.empty()) {
      YACL_THROW_IO_ERROR("Get data timeout, ctx={} src={} dst={} tag={}", desc_.id, src, rank_, tag);
    }
    std::string s = std::move(ch.q.front());
    ch.q.pop_front();
    ++ch.taken;
    world_->cv.notify_all();
    lk.unlock();
    stats_->recv_actions++; stats_->recv_bytes += s.size();
    if (world_->on_got) world_->on_got(desc_.id, src, rank_, s);
    return Buffer(s.data(), s.size());
  }
  void SetRecvTimeout(uint64_t ms) { timeout_ms_ = ms; }
  [[nodiscard]] uint64_t GetRecvTimeout() const { return timeout_ms_; }
  void SetThrottleWindowSize(size_t w) { window_ = w; }
  void SetChunkParallelSendSize(size_t) {}
  [[nodiscard]] std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  void PrintStats() {}
  [[nodiscard]] const ContextDesc& GetDesc() const { return desc_; }
  [[nodiscard]] std::shared_ptr<::shim::link::World> ShimWorld() const { return world_; }

 private:
  ::shim::link::World::Chan& Chan(size_t src, size_t dst) {
    ::shim::link::Atomic at;
    std::lock_guard<std::mutex> g(world_->mu);
    return world_->chans[{desc_.id, PartyIdByRank(src), PartyIdByRank(dst)}];
  }
  void Push(size_t dst, ByteContainerView v, std::string_view tag, bool throttled) {
    YACL_ENFORCE(dst < WorldSize() && dst != rank_, "bad send rank {}", dst);
    std::string s(reinterpret_cast<const char*>(v.data()), v.size());
    if (world_->on_send) {
      world_->on_send({desc_.id, rank_, dst, PartyIdByRank(rank_), PartyIdByRank(dst), s, tag, throttled}, &s);
    }
    auto& ch = Chan(rank_, dst);
    if (mc_point) mc_point(1, &ch);
    ::shim::link::Atomic at;
    std::unique_lock<std::mutex> lk(world_->mu);
    if (world_->dead.count(PartyIdByRank(dst)) != 0) YACL_THROW_NETWORK_ERROR("peer {} is gone", dst);
    ch.q.push_back(std::move(s));
    ++ch.sent;
    world_->n_msgs++; world_->n_bytes += v.size();
    stats_->sent_actions++; stats_->sent_bytes += v.size();
    world_->cv.notify_all();
    if (throttled && window_ != 0) {
      auto ok = [&] { return ch.sent - ch.taken < window_ || world_->dead.count(PartyIdByRank(dst)) != 0; };
      if (!world_->cv.wait_for(lk, std::chrono::milliseconds(timeout_ms_), ok)) {
        YACL_THROW_IO_ERROR("Throttle window wait timeout, ctx={} dst={}", desc_.id, dst);
      }
    }
  }
  ContextDesc desc_;
  size_t rank_;
  std::shared_ptr<::shim::link::World> world_;
  uint64_t timeout_ms_;
  size_t window_;
  size_t child_ = 0;
  std::shared_ptr<Statistics> stats_ = std::make_shared<Statistics>();
};
class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> c, uint64_t ms) : c_(std::move(c)), old_(c_->GetRecvTimeout()) { c_->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(old_); }
 private:
  std::shared_ptr<Context> c_;
  uint64_t old_;
};
}  // namespace yacl::link
