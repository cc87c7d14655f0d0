// Expression DAG for symx: hash-consed bit-vector terms with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned _BitInt(256) u256;
typedef unsigned __int128 u128;

enum Op : uint8_t {
  CONST, VAR, UF, ADD, MUL, UDIV, UREM, SDIV, SREM, XOR, AND, OR,
  SHL, LSHR, ASHR, CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT,
};

// Functions with a fixed meaning (evaluated on constants) that stay
// uninterpreted for z3, or are axiomatised by the algebra layer.
enum UFKind : uint32_t {
  UF_AES = 1,     // (key128.., in128) -> 128
  UF_GFMUL,       // (a128,b128) -> 128
  UF_CLMUL,       // (a64,b64) -> 128
  UF_MODADD,      // (a_k,b_k,p256) -> k
  UF_MODMUL,      // (a_k,b_k,p256) -> k
  UF_MODNEG,      // (a_k,p256) -> k
  UF_FADD, UF_FSUB, UF_FMUL, UF_FDIV, UF_FNEG,
  UF_FLOG2, UF_FLOG, UF_FPOW, UF_FCEIL, UF_FFLOOR, UF_FSQRT, UF_FABS, UF_FERF, UF_FEXP, UF_FLOG10, UF_FEXP2, UF_FROUND, UF_FTRUNC, UF_FRINT, UF_FMA, UF_FREM, UF_FCEILX,
  UF_FOLT, UF_FOLE, UF_FOEQ, UF_FUNO,   // -> 1 bit
  UF_UITOFP, UF_SITOFP, // (x) -> 64
  UF_FPTOSI, UF_FPTOUI, // (x) -> aux width
  UF_F32TO64, UF_F64TO32,
  UF_CTPOP, UF_CTLZ, UF_CTTZ, UF_BSWAP, UF_BITREV,
  UF_USER = 100,
};

struct Expr {
  Op op;
  uint16_t w;
  uint32_t n;
  uint32_t id;
  uint32_t aux;   // EXTRACT: lo. VAR: var index. UF: kind. 
  uint64_t h;
  Expr* a[0];
  u256& val() { return *reinterpret_cast<u256*>(reinterpret_cast<char*>(this) + 24); }
  bool isConst() const { return op == CONST; }
};
typedef Expr* E;

inline u256 maskw(unsigned w) { return w >= 256 ? ~(u256)0 : (((u256)1 << w) - 1); }

struct VarInfo {
  std::string name;
  unsigned w;
  u256 lo, hi;  // declared range
  bool uninit;
};
extern std::vector<VarInfo> g_vars;

struct Model {
  std::unordered_map<uint32_t, u256> v;                 // var index -> value
  std::map<std::string, u256> aes;                      // AES table overrides (key||in hex)
  bool useAesTable = false;
  uint64_t seed = 1;                                    // for unassigned variables
};

E mkConst(u256 v, unsigned w);
inline E mkC(uint64_t v, unsigned w) { return mkConst((u256)v, w); }
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkVarRange(const std::string& name, unsigned w, u256 lo, u256 hi);
E mkVarIndex(uint32_t idx);
E mkUF(uint32_t kind, unsigned w, std::vector<E> args);
E mkAdd(E a, E b);
E mkAddN(const std::vector<E>& v, unsigned w);
E mkNeg(E a);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkURem(E a, E b);
E mkSDiv(E a, E b);
E mkSRem(E a, E b);
E mkXor(E a, E b);
E mkXorN(const std::vector<E>& v, unsigned w);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(E hi, E lo);
E mkConcatN(std::vector<E> hiToLo);
E mkExtract(E a, unsigned hi, unsigned lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(0, 1); }
inline bool isTrue(E e) { return e->op == CONST && e->w == 1 && e->val() == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->w == 1 && e->val() == 0; }
inline bool isZero(E e) { return e->op == CONST && e->val() == 0; }
inline uint64_t cu64(E e) { return (uint64_t)e->val(); }
int64_t csext(E e);

// Unsigned interval.
struct Rng { u256 lo, hi; };
const Rng& range(E e);

// Applies an interpreted function to constants.
u256 evalUF(uint32_t kind, unsigned w, const std::vector<u256>& args, const std::vector<unsigned>& widths);
u256 evalE(E e, const Model& m);
// Evaluates several expressions with a shared memo table.
struct Evaluator {
  const Model& m;
  std::unordered_map<uint32_t, u256> memo;
  Evaluator(const Model& mm) : m(mm) {}
  u256 operator()(E e);
};

// Substitutes (simplifying) expr ids.
E substitute(E e, std::unordered_map<uint32_t, E>& map);
E rebuild(E e, const std::vector<E>& args);
void collectVars(E e, std::vector<uint32_t>& out);
std::string show(E e, int depth = 4);
std::string hex(u256 v);
size_t numExprs();
bool containsUF(E e, uint32_t kind);

u128 aesEncryptBlock(const uint8_t* key, int bits, u128 in);
u128 gfmul128(u128 a, u128 b);
