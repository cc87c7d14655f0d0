#pragma once
#include "NTL/lzz_p.h"
