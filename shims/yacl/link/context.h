// In-memory link: parties are threads of one run.  Messages of one (context,
// sender, receiver) triple are delivered in order; receiving blocks; receiving
// from a party that has been taken down (and left nothing queued) throws.
#pragma once
#include "spdlog/spdlog.h"
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <memory>
#include <mutex>
#include <thread>
#include <string>
#include <vector>
#include "sym.h"
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
namespace yacl::link {
constexpr size_t kAllRank = (size_t)-1;
struct ContextDesc { struct Party { std::string id, host; }; std::string id = "root"; std::vector<Party> parties; uint64_t recv_timeout_ms = 0, throttle_window_size = 10; };
struct Statistics { size_t sent_bytes = 0, sent_actions = 0, recv_bytes = 0, recv_actions = 0; };
struct World {
  typedef std::pair<std::string, std::pair<size_t, size_t>> Key;
  std::map<Key, std::deque<std::string>> q;
  std::vector<char> dead;
  std::vector<std::string> ids;
  std::vector<size_t> sent;      // messages sent by each party
  long failAfter = -1;           // party failParty dies when sending its (failAfter+1)-th message
  size_t failParty = 0;
  std::function<void(const std::string& ctx, size_t from, size_t to, const std::string& msg)> onSend;
};
class Context {
 public:
  Context(std::shared_ptr<World> w, std::string id, std::vector<size_t> parties, size_t rank) : w_(w), id_(id), parties_(parties), rank_(rank), stats_(std::make_shared<Statistics>()) {}
  std::string Id() const { return id_; }
  size_t WorldSize() const { return parties_.size(); }
  size_t Rank() const { return rank_; }
  std::string PartyIdByRank(size_t r) const { return w_->ids[parties_[r]]; }
  size_t PrevRank(size_t s = 1) const { return (rank_ + WorldSize() - s % WorldSize()) % WorldSize(); }
  size_t NextRank(size_t s = 1) const { return (rank_ + s) % WorldSize(); }
  void ConnectToMesh() {}
  void ConnectToMesh(int) {}
  void WaitLinkTaskFinish() {}
  void SetThrottleWindowSize(size_t) {}
  void SetRecvTimeout(uint64_t) {}
  uint64_t GetRecvTimeout() const { return 0; }
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  std::shared_ptr<Context> Spawn(const std::string& id = "") { return std::make_shared<Context>(w_, id_ + "-" + (id.empty() ? std::to_string(child_++) : id), parties_, rank_); }
  std::shared_ptr<Context> SubWorld(const std::string& suffix, const std::vector<std::string>& ids) {
    std::vector<size_t> p;
    size_t me = (size_t)-1;
    for (auto& i : ids) { for (size_t k = 0; k < w_->ids.size(); k++) if (w_->ids[k] == i) { if (k == parties_[rank_]) me = p.size(); p.push_back(k); } }
    if (me == (size_t)-1) throw EnforceNotMet("not in subworld");
    return std::make_shared<Context>(w_, id_ + "/" + suffix, p, me);
  }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view) { put("", dst, v); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view) { put("", dst, v); }
  void Send(size_t dst, ByteContainerView v, std::string_view) { put("", dst, v); }
  Buffer Recv(size_t src, std::string_view) { return get("", src); }
  void put(const char* cls, size_t dst, ByteContainerView v) {
    if (dst >= WorldSize()) throw EnforceNotMet("bad rank");
    size_t me = parties_[rank_];
    if (w_->failAfter >= 0 && w_->failParty == me && (long)w_->sent[me] >= w_->failAfter) { w_->dead[me] = 1; sym_notify((uint64_t)w_.get()); throw NetworkError("link down"); }
    w_->sent[me]++;
    stats_->sent_bytes += v.size();
    stats_->sent_actions++;
    if (w_->onSend) w_->onSend(id_ + cls, me, parties_[dst], std::string((const char*)v.data(), v.size()));
    w_->q[{id_ + cls, {me, parties_[dst]}}].push_back(std::string((const char*)v.data(), v.size()));
    sym_notify((uint64_t)w_.get());
    sym_sched_point();
  }
  Buffer get(const char* cls, size_t src) {
    if (src >= WorldSize()) throw EnforceNotMet("bad rank");
    World::Key k{id_ + cls, {parties_[src], parties_[rank_]}};
    while (true) {
      auto it = w_->q.find(k);
      if (it != w_->q.end() && !it->second.empty()) {
        Buffer b(it->second.front().data(), it->second.front().size());
        it->second.pop_front();
        stats_->recv_bytes += (size_t)b.size();
        stats_->recv_actions++;
        return b;
      }
      if (w_->dead[parties_[src]]) throw NetworkError("recv: peer is down");
      sym_wait_on((uint64_t)w_.get());
    }
  }
  World& world() { return *w_; }
  void kill() { w_->dead[parties_[rank_]] = 1; sym_notify((uint64_t)w_.get()); }
 private:
  std::shared_ptr<World> w_;
  std::string id_;
  std::vector<size_t> parties_;
  size_t rank_;
  size_t child_ = 0;
  std::shared_ptr<Statistics> stats_;
};
// no network: creating a context from a description is not available
class FactoryBrpc { public: std::shared_ptr<Context> CreateContext(const ContextDesc&, size_t) { throw EnforceNotMet("no network"); } };
class RecvTimeoutGuard { public: RecvTimeoutGuard(std::shared_ptr<Context>, uint64_t) {} };
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view) {
  for (size_t i = 0; i < c->WorldSize(); i++) if (i != c->Rank()) c->put("#c", i, in);
  std::vector<Buffer> r(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); i++) r[i] = i == c->Rank() ? Buffer(in.data(), in.size()) : c->get("#c", i);
  return r;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view) {
  if (c->Rank() == root) { for (size_t i = 0; i < c->WorldSize(); i++) if (i != root) c->put("#c", i, in); return Buffer(in.data(), in.size()); }
  return c->get("#c", root);
}
inline std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view) {
  std::vector<Buffer> r;
  if (c->Rank() != root) { c->put("#c", root, in); return r; }
  r.resize(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); i++) r[i] = i == root ? Buffer(in.data(), in.size()) : c->get("#c", i);
  return r;
}
inline Buffer Scatter(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, size_t root, std::string_view) {
  if (c->Rank() == root) { for (size_t i = 0; i < c->WorldSize(); i++) if (i != root) c->put("#c", i, in[i]); return Buffer(in[root].data(), in[root].size()); }
  return c->get("#c", root);
}
inline void Barrier(const std::shared_ptr<Context>& c, std::string_view t) { AllGather(c, ByteContainerView("", 0), t); }
namespace test {
inline std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  auto w = std::make_shared<World>();
  std::vector<size_t> all;
  for (size_t i = 0; i < n; i++) { all.push_back(i); w->ids.push_back("id-" + std::to_string(i)); }
  w->dead.resize(n);
  w->sent.resize(n);
  std::vector<std::shared_ptr<Context>> r;
  for (size_t i = 0; i < n; i++) r.push_back(std::make_shared<Context>(w, id, all, i));
  return r;
}
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("root", n); }
}
}
