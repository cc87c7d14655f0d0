// Decision procedures for polynomial identities (normal forms).
#pragma once
#include "expr.h"
// Tries to prove that a == b for all values of the variables, by comparing
// normal forms in Z/2^w, Z/p, GF(2^128) or bitwise over GF(2).
// 1 = proved, 0 = not proved (nothing is implied).
int algebraProve(E a, E b);
extern uint64_t g_algProved, g_algTried;
