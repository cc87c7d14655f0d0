#pragma once
#include "mpc_utils/comm_channel.hpp"
