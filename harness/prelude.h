// Standard headers the repository's sources get from their dependencies' headers.
#pragma once
#ifdef SX_ENGINE
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1  // std::string's members are then in the IR
#endif
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <vector>
#include "absl/memory/memory.h"
