#pragma once
#include "grpcpp/status_fake.hpp"
