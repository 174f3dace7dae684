// Stand-in for grpc::Status.
#pragma once
#include <string>
#include <utility>
namespace grpc {
enum StatusCode {
    OK = 0,
    CANCELLED = 1,
    UNKNOWN = 2,
    INVALID_ARGUMENT = 3,
    DEADLINE_EXCEEDED = 4,
    NOT_FOUND = 5,
    ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7,
    UNAUTHENTICATED = 16,
    RESOURCE_EXHAUSTED = 8,
    FAILED_PRECONDITION = 9,
    ABORTED = 10,
    OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12,
    INTERNAL = 13,
    UNAVAILABLE = 14,
    DATA_LOSS = 15,
    DO_NOT_USE = -1
};
class Status {
  public:
    Status() = default;
    Status(StatusCode c, std::string msg) : c_{c}, msg_{std::move(msg)} {}
    Status(StatusCode c, std::string msg, std::string det)
        : c_{c}, msg_{std::move(msg)}, det_{std::move(det)} {}
    static Status const& OK;
    static Status const& CANCELLED;
    [[nodiscard]] StatusCode error_code() const { return c_; }
    [[nodiscard]] std::string error_message() const { return msg_; }
    [[nodiscard]] std::string error_details() const { return det_; }
    [[nodiscard]] bool ok() const { return c_ == StatusCode::OK; }
    void IgnoreError() const {}

  private:
    StatusCode c_ = StatusCode::OK;
    std::string msg_;
    std::string det_;
};
inline Status const kOkStatus{};
inline Status const kCancelledStatus{StatusCode::CANCELLED, ""};
inline Status const& Status::OK = kOkStatus;
inline Status const& Status::CANCELLED = kCancelledStatus;
}  // namespace grpc
