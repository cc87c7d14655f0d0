#pragma once
#include "NTL/ZZ_p.h"
