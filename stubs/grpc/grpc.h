// the part of grpc.h used by the repository
#pragma once
#define GRPC_DEFAULT_MAX_RECV_MESSAGE_LENGTH (4 * 1024 * 1024)
