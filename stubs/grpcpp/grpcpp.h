// Stand-in for the parts of gRPC used by code under simulation: the transport
// is the simulator's network. Every message is serialised, carried, delayed,
// lost, repeated or cut off by the simulator, and parsed again.
#pragma once
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "grpcpp/status_fake.hpp"

namespace grpc {
namespace fake {
struct Call;
struct Service;
struct ServerState;
using Handler = std::function<Status(Call&)>;

// the transport, implemented in the harness (net_fake.hpp)
struct Net {
    virtual ~Net() = default;
    virtual std::shared_ptr<Call> Start(std::string const& addr,
                                        std::string const& method,
                                        bool streaming) = 0;
    // client side
    virtual bool ClientSend(Call& c, std::string msg) = 0;
    virtual void ClientDone(Call& c) = 0;
    virtual bool ClientRecv(Call& c, std::string* msg) = 0;
    virtual Status ClientFinish(Call& c) = 0;
    virtual void ClientGone(Call& c) = 0;
    // server side
    virtual bool ServerSend(Call& c, std::string msg) = 0;
    virtual bool ServerRecv(Call& c, std::string* msg) = 0;
    virtual bool Serve(std::string const& addr,
                       std::map<std::string, Handler> handlers,
                       int* port) = 0;
    virtual void WaitServe(std::string const& addr) = 0;
    virtual void Shutdown(std::string const& addr) = 0;
};
inline Net*& TheNet() {
    static Net* n = nullptr;
    return n;
}
}  // namespace fake

struct ChannelCredentials {};
struct ServerCredentials {};
struct SslCredentialsOptions {
    std::string pem_root_certs;
    std::string pem_private_key;
    std::string pem_cert_chain;
};
struct SslServerCredentialsOptions {
    struct PemKeyCertPair {
        std::string private_key;
        std::string cert_chain;
    };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
};
inline auto SslCredentials(SslCredentialsOptions const& /*unused*/) {
    return std::make_shared<ChannelCredentials>();
}
inline auto SslServerCredentials(
    SslServerCredentialsOptions const& /*unused*/) {
    return std::make_shared<ServerCredentials>();
}
inline auto InsecureChannelCredentials() {
    return std::make_shared<ChannelCredentials>();
}
inline auto InsecureServerCredentials() {
    return std::make_shared<ServerCredentials>();
}
struct Channel {
    std::string addr;
};
using ChannelInterface = Channel;
inline auto CreateChannel(std::string const& addr,
                          std::shared_ptr<ChannelCredentials> const& /*c*/) {
    auto c = std::make_shared<Channel>();
    c->addr = addr;
    return c;
}
class ClientContext {
  public:
    template <class T>
    void set_deadline(T const& /*unused*/) {}
    void set_wait_for_ready(bool /*unused*/) {}
    void TryCancel() {}
    void AddMetadata(std::string const&, std::string const&) {}
};
class ServerContext {
  public:
    [[nodiscard]] bool IsCancelled() const { return false; }
};

template <class R>
class ClientReader {
  public:
    explicit ClientReader(std::shared_ptr<fake::Call> c) : c_{std::move(c)} {}
    ~ClientReader() { fake::TheNet()->ClientGone(*c_); }
    bool Read(R* r) {
        std::string s;
        if (not fake::TheNet()->ClientRecv(*c_, &s)) {
            return false;
        }
        return r->ParseFromString(s);
    }
    Status Finish() { return fake::TheNet()->ClientFinish(*c_); }

  private:
    std::shared_ptr<fake::Call> c_;
};
template <class Rq>
class ClientWriter {
  public:
    ClientWriter(std::shared_ptr<fake::Call> c,
                 std::function<bool(std::string const&)> resp)
        : c_{std::move(c)}, resp_{std::move(resp)} {}
    ~ClientWriter() { fake::TheNet()->ClientGone(*c_); }
    bool Write(Rq const& r) {
        return fake::TheNet()->ClientSend(*c_, r.SerializeAsString());
    }
    bool WritesDone() {
        fake::TheNet()->ClientDone(*c_);
        return true;
    }
    Status Finish() {
        std::string s;
        bool const got = fake::TheNet()->ClientRecv(*c_, &s);
        auto st = fake::TheNet()->ClientFinish(*c_);
        if (st.ok() and (not got or not resp_(s))) {
            return Status{StatusCode::INTERNAL, "no response"};
        }
        return st;
    }

  private:
    std::shared_ptr<fake::Call> c_;
    std::function<bool(std::string const&)> resp_;
};
template <class R>
class ServerWriter {
  public:
    explicit ServerWriter(fake::Call* c) : c_{c} {}
    bool Write(R const& r) {
        return fake::TheNet()->ServerSend(*c_, r.SerializeAsString());
    }

  private:
    fake::Call* c_;
};
template <class Rq>
class ServerReader {
  public:
    explicit ServerReader(fake::Call* c) : c_{c} {}
    bool Read(Rq* r) {
        std::string s;
        if (not fake::TheNet()->ServerRecv(*c_, &s)) {
            return false;
        }
        return r->ParseFromString(s);
    }

  private:
    fake::Call* c_;
};

namespace fake {
struct Service {
    virtual ~Service() = default;
    virtual void AddHandlers(std::map<std::string, Handler>* h) = 0;
};
template <class Rq, class Rs>
Status UnaryCall(std::string const& addr,
                 std::string const& method,
                 Rq const& rq,
                 Rs* rs) {
    auto c = TheNet()->Start(addr, method, false);
    TheNet()->ClientSend(*c, rq.SerializeAsString());
    TheNet()->ClientDone(*c);
    std::string s;
    bool const got = TheNet()->ClientRecv(*c, &s);
    auto st = TheNet()->ClientFinish(*c);
    TheNet()->ClientGone(*c);
    if (st.ok() and (not got or not rs->ParseFromString(s))) {
        return Status{StatusCode::INTERNAL, "no response"};
    }
    return st;
}
}  // namespace fake

class Server {
  public:
    explicit Server(std::string addr) : addr_{std::move(addr)} {}
    void Wait() { fake::TheNet()->WaitServe(addr_); }
    void Shutdown() { fake::TheNet()->Shutdown(addr_); }

  private:
    std::string addr_;
};
class ServerBuilder {
  public:
    ServerBuilder& RegisterService(fake::Service* s) {
        s->AddHandlers(&h_);
        return *this;
    }
    ServerBuilder& AddListeningPort(
        std::string const& addr,
        std::shared_ptr<ServerCredentials> const& /*unused*/,
        int* port = nullptr) {
        addr_ = addr;
        port_ = port;
        return *this;
    }
    std::unique_ptr<Server> BuildAndStart() {
        if (not fake::TheNet()->Serve(addr_, h_, port_)) {
            return nullptr;
        }
        return std::make_unique<Server>(addr_);
    }

  private:
    std::map<std::string, fake::Handler> h_;
    std::string addr_;
    int* port_ = nullptr;
};
}  // namespace grpc
