#pragma once
#include "mpc_utils/status.h"
