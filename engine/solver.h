// Path condition, feasibility and proof queries.
#pragma once
#include "algebra.h"
#include "expr.h"

struct SolverStats {
  uint64_t queries, sat, unsat, unknown, modelHits;
  uint64_t checks, byRewrite, byAlgebra, byZ3, byEval, refuted;
  uint64_t micros, maxMicros;
  uint64_t paths, branches, insts, checksTotal, assumesDropped, reach;
};
extern SolverStats* g_st;  // may live in shared memory

enum class Sat { YES, NO, UNKNOWN };

struct Z3Side;
struct Solver {
  Z3Side* z = nullptr;
  std::vector<E> pc;
  std::unordered_map<uint32_t, E> subst;  // expr id -> constant, from equalities in pc
  std::vector<Model> models;              // witnesses of pc
  Solver();
  E simp(E e);
  void assume(E c);
  // Is pc && c satisfiable?  On YES a witness is remembered in `hit`.
  Sat feasible(E c);
  Model hit;
  // 1: pc implies c.  0: counterexample in cex.  -1: unknown.
  int prove(E c, Model& cex, std::string& why);
  // Up to n models of pc that give the variables of es pseudo-random values.
  std::vector<Model> witnesses(unsigned n, const std::vector<E>& es);
  // Feasible values of e under pc; false if more than max or unknown.
  bool enumerate(E e, unsigned max, std::vector<u256>& out);
};
extern uint64_t g_rlFeas, g_rlProve;
uint64_t nowMicros();
bool satisfies(const std::vector<E>& pc, const Model& m);
void flattenAnd(E e, std::vector<E>& out);
