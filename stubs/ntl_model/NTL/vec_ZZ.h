#pragma once
#include "NTL/ZZ.h"
