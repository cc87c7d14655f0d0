#pragma once
#include_next <NTL/lzz_p.h>
#include <NTL/vec_lzz_p.h>
