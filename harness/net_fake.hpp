// The network under simulation: transport behind the gRPC stand-in
// (stubs/grpcpp/grpcpp.h). A server is a simulated process with worker threads;
// messages are delayed, connections cut before, during or after a call, and
// unary requests executed twice, as decided by the simulator's faults.
#pragma once
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "dsim/sim.hpp"
#include "grpcpp/grpcpp.h"

namespace grpc::fake {
struct Msg {
    std::uint64_t at;
    std::string data;
};
struct Call {
    std::string addr, method;
    int server_pid = 0;
    int client_pid = 0;
    bool streaming = false;
    std::deque<Msg> c2s, s2c;
    std::uint64_t c_last = 0, s_last = 0;  // arrival of the latest message
    bool c_done = false, s_done = false;
    std::uint64_t s_done_at = 0;
    Status status;        // from the server
    bool refused = false; // never reached the server
    bool cut = false;     // connection lost
    int cut_in = -1;      // messages until the connection is lost
    bool gone = false;    // client has dropped the call
    bool too_big = false;
    bool ghost = false;   // second execution; nobody listens
};
}  // namespace grpc::fake

namespace netfake {
using grpc::Status;
using grpc::StatusCode;
using grpc::fake::Call;
using grpc::fake::Handler;

constexpr std::size_t kMaxMessage = 4UL * 1024 * 1024;

struct Srv {
    int pid = 0;
    std::map<std::string, Handler> h;
    std::deque<std::shared_ptr<Call>> q;
    bool stop = false;
};

// what the transport did, for evidence and oracles
struct Stats {
    std::map<std::string, std::uint64_t> calls;
    std::uint64_t faults = 0;
};

class Net final : public grpc::fake::Net {
  public:
    int workers = 3;
    std::uint64_t latency = 200000;
    Stats stats;

    std::shared_ptr<Call> Start(std::string const& addr,
                                std::string const& method,
                                bool streaming) final {
        auto c = std::make_shared<Call>();
        c->addr = addr;
        c->method = method;
        c->streaming = streaming;
        auto const f = sim::AskFault(
            {sim::kNetDrop, sim::kNetCut, sim::kNetDup}, "call " + method);
        {
            sim::Quiet q;
            ++stats.calls[method];
            if (f != sim::kNone) {
                ++stats.faults;
            }
            auto it = srv_.find(addr);
            if (it == srv_.end() or it->second->stop or
                not sim::Alive(it->second->pid) or f == sim::kNetDrop) {
                c->refused = true;
            }
            else {
                c->server_pid = it->second->pid;
                c->client_pid = sim::CurPid();
                if (f == sim::kNetCut) {
                    c->cut_in = static_cast<int>(
                        sim::Choice(streaming ? 8 : 3));
                }
                if (f == sim::kNetDup and not streaming) {
                    ghost_ = std::make_shared<Call>();
                    ghost_->addr = addr;
                    ghost_->method = method;
                    ghost_->server_pid = c->server_pid;
                    ghost_->client_pid = c->client_pid;
                    ghost_->ghost = true;
                    ghosts_[c.get()] = ghost_;
                }
            }
        }
        if (c->refused) {
            sim::SleepNs(latency);
            return c;
        }
        sim::Quiet q;
        srv_[addr]->q.push_back(c);
        return c;
    }

    // count down to the loss of the connection
    static void Tick(Call& c) {
        if (c.cut_in >= 0 and c.cut_in-- == 0) {
            c.cut = true;
        }
    }
    std::uint64_t Arrival(std::uint64_t* last, std::string const& what) {
        auto d = latency;
        if (sim::AskFault({sim::kNetDelay}, what) != sim::kNone) {
            d += (1 + sim::Choice(40)) * 50000000ULL;
            ++stats.faults;
        }
        *last = std::max(*last, sim::NowNs() + d);
        return *last;
    }

    bool ClientSend(Call& c, std::string msg) final {
        sim::Point();
        if (c.refused) {
            return false;
        }
        {
            sim::Quiet q;
            Tick(c);
            if (c.cut or not sim::Alive(c.server_pid) or c.s_done) {
                return false;
            }
        }
        auto const at = Arrival(&c.c_last, "request " + c.method);
        sim::Quiet q;
        if (auto it = ghosts_.find(&c); it != ghosts_.end()) {
            it->second->c2s.push_back(
                {at + (1 + sim::Choice(60)) * 20000000ULL, msg});
            it->second->c_done = true;
            srv_[c.addr]->q.push_back(it->second);
            ghosts_.erase(it);
        }
        c.c2s.push_back({at, std::move(msg)});
        return true;
    }
    void ClientDone(Call& c) final { c.c_done = true; }

    bool ClientRecv(Call& c, std::string* msg) final {
        for (std::uint64_t w = 50000;; w = std::min<std::uint64_t>(
                                           w * 2, 20000000)) {
            {
                sim::Quiet q;
                if (c.refused or c.cut or c.too_big) {
                    return false;
                }
                if (not c.s2c.empty()) {
                    if (c.s2c.front().at <= sim::NowNs()) {
                        Tick(c);
                        if (c.cut) {
                            return false;
                        }
                        *msg = std::move(c.s2c.front().data);
                        c.s2c.pop_front();
                        if (msg->size() > kMaxMessage) {
                            c.too_big = true;
                            return false;
                        }
                        return true;
                    }
                }
                else if (c.s_done and c.s_done_at <= sim::NowNs()) {
                    return false;
                }
                else if (not sim::Alive(c.server_pid)) {
                    c.cut = true;
                    return false;
                }
            }
            sim::SleepNs(w);
        }
    }
    Status ClientFinish(Call& c) final {
        std::string s;
        for (std::uint64_t w = 50000;; w = std::min<std::uint64_t>(
                                           w * 2, 20000000)) {
            {
                sim::Quiet q;
                if (c.refused or c.cut) {
                    return {StatusCode::UNAVAILABLE, "connection lost"};
                }
                if (c.too_big) {
                    return {StatusCode::RESOURCE_EXHAUSTED,
                            "message too large"};
                }
                if (c.s_done and c.s_done_at <= sim::NowNs()) {
                    Tick(c);
                    if (c.cut) {
                        return {StatusCode::UNAVAILABLE, "connection lost"};
                    }
                    return c.status;
                }
                if (not sim::Alive(c.server_pid)) {
                    c.cut = true;
                }
            }
            sim::SleepNs(w);
        }
    }
    void ClientGone(Call& c) final { c.gone = true; }

    bool ServerSend(Call& c, std::string msg) final {
        sim::Point();
        {
            sim::Quiet q;
            if (c.ghost) {
                return true;
            }
            if (c.cut or c.gone or not sim::Alive(c.client_pid)) {
                return false;
            }
        }
        auto const at = Arrival(&c.s_last, "response " + c.method);
        sim::Quiet q;
        c.s2c.push_back({at, std::move(msg)});
        return true;
    }
    bool ServerRecv(Call& c, std::string* msg) final {
        for (std::uint64_t w = 50000;; w = std::min<std::uint64_t>(
                                           w * 2, 20000000)) {
            {
                sim::Quiet q;
                if (c.cut) {
                    return false;
                }
                if (not c.c2s.empty()) {
                    if (c.c2s.front().at <= sim::NowNs()) {
                        *msg = std::move(c.c2s.front().data);
                        c.c2s.pop_front();
                        if (msg->size() > kMaxMessage) {
                            c.too_big = true;
                            return false;
                        }
                        return true;
                    }
                }
                else if (c.c_done or c.gone or
                         not sim::Alive(c.client_pid)) {
                    return false;
                }
            }
            sim::SleepNs(w);
        }
    }

    bool Serve(std::string const& addr,
               std::map<std::string, Handler> handlers,
               int* port) final {
        auto s = std::make_shared<Srv>();
        {
            sim::Quiet q;
            s->pid = sim::CurPid();
            s->h = std::move(handlers);
            srv_[addr] = s;
            if (port != nullptr and *port == 0) {
                *port = 8980;
            }
        }
        for (int i = 0; i < workers; ++i) {
            std::thread([this, s]() { Work(s); }).detach();
        }
        return true;
    }
    void WaitServe(std::string const& addr) final {
        for (;;) {
            {
                sim::Quiet q;
                if (srv_[addr]->stop) {
                    return;
                }
            }
            sim::SleepNs(3600000000000ULL);
        }
    }
    void Shutdown(std::string const& addr) final {
        sim::Quiet q;
        srv_[addr]->stop = true;
    }
    bool Serving(std::string const& addr) {
        sim::Quiet q;
        auto it = srv_.find(addr);
        return it != srv_.end() and not it->second->stop and
               sim::Alive(it->second->pid);
    }

  private:
    std::map<std::string, std::shared_ptr<Srv>> srv_;
    std::map<Call*, std::shared_ptr<Call>> ghosts_;
    std::shared_ptr<Call> ghost_;

    void Work(std::shared_ptr<Srv> const& s) {
        for (std::uint64_t w = 100000;;) {
            std::shared_ptr<Call> c;
            Handler const* h = nullptr;
            {
                sim::Quiet q;
                if (s->stop) {
                    return;
                }
                if (not s->q.empty()) {
                    c = s->q.front();
                    s->q.pop_front();
                    auto it = s->h.find(c->method);
                    h = it == s->h.end() ? nullptr : &it->second;
                }
            }
            if (not c) {
                sim::SleepNs(w);
                w = std::min<std::uint64_t>(w * 2, 50000000);
                continue;
            }
            w = 100000;
            Status st{StatusCode::UNIMPLEMENTED, c->method};
            if (h != nullptr and not c->cut) {
                st = (*h)(*c);
            }
            sim::Quiet q;
            c->status = st;
            c->s_done_at = std::max(c->s_last, sim::NowNs() + latency);
            c->s_done = true;
        }
    }
};
}  // namespace netfake
