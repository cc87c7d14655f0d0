#pragma once
#include_next <NTL/ZZ_p.h>
#include <NTL/vec_ZZ_p.h>
