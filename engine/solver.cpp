#include "solver.h"
#include <z3++.h>
#include <algorithm>
#include <unordered_set>
#include <chrono>

static SolverStats g_own;
SolverStats* g_st = &g_own;
uint64_t g_rlFeas = 20000000, g_rlProve = 400000000;

uint64_t nowMicros() {
  using namespace std::chrono;
  return duration_cast<microseconds>(steady_clock::now().time_since_epoch()).count();
}
static std::string dec(u256 v) {
  if (v == 0) return "0";
  std::string s;
  while (v != 0) {
    s.push_back('0' + (int)(v % 10));
    v /= 10;
  }
  return std::string(s.rbegin(), s.rend());
}
static u256 parseDec(const std::string& s) {
  u256 v = 0;
  for (char c : s) v = v * 10 + (unsigned)(c - '0');
  return v;
}
void flattenAnd(E e, std::vector<E>& out) {
  if (e->op == AND && e->w == 1) {
    for (uint32_t i = 0; i < e->n; i++) flattenAnd(e->a[i], out);
  } else {
    out.push_back(e);
  }
}
bool satisfies(const std::vector<E>& pc, const Model& m) {
  Evaluator ev(m);
  for (E e : pc)
    if (ev(e) == 0) return false;
  return true;
}
// Declared ranges of the variables in the formula under the model.
static bool inRanges(const std::vector<uint32_t>& vars, const Model& m) {
  for (uint32_t i : vars) {
    auto it = m.v.find(i);
    if (it == m.v.end()) continue;
    if (it->second < g_vars[i].lo || it->second > g_vars[i].hi) return false;
  }
  return true;
}

// The cipher outputs e depends on other than through the argument of a function.
static void outerAes(E root, std::vector<E>& out) {
  std::unordered_set<uint32_t> seen;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    st.pop_back();
    if (e->op == CONST || e->op == VAR || !seen.insert(e->id).second) continue;
    if (e->op == UF) {
      if (e->aux == UF_AES) out.push_back(e);
      continue;
    }
    for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
}
// Is e a remainder by a constant (no power of two) of a word masked by a cipher output?
static bool absRem(E e, E* app = nullptr) {
  if (e->op != UREM || e->w != 128 || !e->a[1]->isConst()) return false;
  std::vector<E> v;
  outerAes(e->a[0], v);
  if (v.empty()) return false;
  // the last one: its argument may depend on the others
  if (app) *app = *std::max_element(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
  return true;
}

struct Z3Side {
  z3::context ctx;
  z3::solver inc;
  std::unordered_map<uint32_t, Z3_ast> cache;
  std::unordered_set<uint32_t> rangeDone, ufSeen;
  std::vector<z3::expr> keep, rangeCons;
  std::vector<E> ufApps;
  size_t added = 0, rangesAdded = 0;
  Z3Side() : inc(ctx) {}
  z3::expr num(u256 v, unsigned w) {
    if (w <= 64) return ctx.bv_val((uint64_t)v, w);
    return ctx.bv_val(dec(v).c_str(), w);
  }
  z3::sort fpS() { return ctx.fpa_sort(11, 53); }
  z3::expr toFp(z3::expr b) { return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, fpS())); }
  z3::expr ofFp(z3::expr f) { return z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, f)); }
  z3::expr rne() { return z3::expr(ctx, Z3_mk_fpa_round_nearest_ties_to_even(ctx)); }
  z3::expr b2v(z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
  z3::expr zx(z3::expr e, unsigned w) {
    unsigned c = e.get_sort().bv_size();
    return c == w ? e : z3::zext(e, w - c);
  }
  z3::expr uf(E e, std::vector<z3::expr>& a) {
    auto rm = rne();
    switch (e->aux) {
      case UF_MODADD: {
        u256 p = e->a[2]->val();
        unsigned k = e->w + 1;
        z3::expr s = z3::zext(a[0], 1) + z3::zext(a[1], 1);
        z3::expr P = num(p, k);
        return z3::ite(z3::uge(s, P), s - P, s).extract(e->w - 1, 0);
      }
      case UF_MODNEG: {
        u256 p = e->a[1]->val();
        z3::expr P = num(p & maskw(e->w), e->w);
        return z3::ite(a[0] == num(0, e->w), a[0], P - a[0]);
      }
      case UF_MODMUL:
        if (e->w <= 12) {
          u256 p = e->a[2]->val();
          unsigned k = 2 * e->w;
          return z3::urem(zx(a[0], k) * zx(a[1], k), num(p, k)).extract(e->w - 1, 0);
        }
        break;
      case UF_CTPOP: {
        z3::expr s = ctx.bv_val(0, e->w);
        for (unsigned i = 0; i < e->a[0]->w; i++) s = s + zx(a[0].extract(i, i), e->w);
        return s;
      }
      case UF_CTLZ: {
        unsigned w = e->a[0]->w;
        z3::expr s = ctx.bv_val(w, e->w);
        for (unsigned i = 0; i < w; i++) s = z3::ite(a[0].extract(i, i) == ctx.bv_val(1, 1), ctx.bv_val(w - 1 - i, e->w), s);
        return s;
      }
      case UF_CTTZ: {
        unsigned w = e->a[0]->w;
        z3::expr s = ctx.bv_val(w, e->w);
        for (int i = (int)w - 1; i >= 0; i--) s = z3::ite(a[0].extract(i, i) == ctx.bv_val(1, 1), ctx.bv_val((unsigned)i, e->w), s);
        return s;
      }
      case UF_BSWAP: {
        z3::expr s = a[0].extract(7, 0);
        for (unsigned i = 1; i < e->w / 8; i++) s = z3::concat(s, a[0].extract(8 * i + 7, 8 * i));
        return s;
      }
      case UF_BITREV: {
        z3::expr s = a[0].extract(0, 0);
        for (unsigned i = 1; i < e->w; i++) s = z3::concat(s, a[0].extract(i, i));
        return s;
      }
      case UF_UITOFP: return ofFp(z3::expr(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, a[0], fpS())));
      case UF_SITOFP: return ofFp(z3::expr(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, a[0], fpS())));
      case UF_FADD: return ofFp(z3::expr(ctx, Z3_mk_fpa_add(ctx, rm, toFp(a[0]), toFp(a[1]))));
      case UF_FSUB: return ofFp(z3::expr(ctx, Z3_mk_fpa_sub(ctx, rm, toFp(a[0]), toFp(a[1]))));
      case UF_FMUL: return ofFp(z3::expr(ctx, Z3_mk_fpa_mul(ctx, rm, toFp(a[0]), toFp(a[1]))));
      case UF_FDIV: return ofFp(z3::expr(ctx, Z3_mk_fpa_div(ctx, rm, toFp(a[0]), toFp(a[1]))));
      case UF_FOLT: return b2v(z3::expr(ctx, Z3_mk_fpa_lt(ctx, toFp(a[0]), toFp(a[1]))));
      case UF_FOLE: return b2v(z3::expr(ctx, Z3_mk_fpa_leq(ctx, toFp(a[0]), toFp(a[1]))));
      case UF_FOEQ: return b2v(z3::expr(ctx, Z3_mk_fpa_eq(ctx, toFp(a[0]), toFp(a[1]))));
      case UF_FUNO:
        return b2v(z3::expr(ctx, Z3_mk_fpa_is_nan(ctx, toFp(a[0]))) || z3::expr(ctx, Z3_mk_fpa_is_nan(ctx, toFp(a[1]))));
      case UF_FPTOUI: return z3::expr(ctx, Z3_mk_fpa_to_ubv(ctx, z3::expr(ctx, Z3_mk_fpa_round_toward_zero(ctx)), toFp(a[0]), e->w));
      case UF_FPTOSI: return z3::expr(ctx, Z3_mk_fpa_to_sbv(ctx, z3::expr(ctx, Z3_mk_fpa_round_toward_zero(ctx)), toFp(a[0]), e->w));
      case UF_FCEIL: return ofFp(z3::expr(ctx, Z3_mk_fpa_round_to_integral(ctx, z3::expr(ctx, Z3_mk_fpa_round_toward_positive(ctx)), toFp(a[0]))));
      case UF_FFLOOR: return ofFp(z3::expr(ctx, Z3_mk_fpa_round_to_integral(ctx, z3::expr(ctx, Z3_mk_fpa_round_toward_negative(ctx)), toFp(a[0]))));
      default: break;
    }
    std::string nm = "uf" + std::to_string(e->aux) + "_" + std::to_string(e->w);
    z3::sort_vector dom(ctx);
    z3::expr_vector args(ctx);
    for (uint32_t i = 0; i < e->n; i++) {
      dom.push_back(ctx.bv_sort(e->a[i]->w));
      args.push_back(a[i]);
      nm += "_" + std::to_string(e->a[i]->w);
    }
    if (ufSeen.insert(e->id).second) ufApps.push_back(e);
    return ctx.function(nm.c_str(), dom, ctx.bv_sort(e->w))(args);
  }
  z3::expr tr(E root) {
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (cache.count(e->id)) { st.pop_back(); continue; }
      bool ready = true;
      if (e->op != CONST && e->op != VAR)
        for (uint32_t i = 0; i < e->n; i++)
          if (!cache.count(e->a[i]->id)) { st.push_back(e->a[i]); ready = false; }
      if (!ready) continue;
      st.pop_back();
      z3::expr r = one(e);
      keep.push_back(r);
      cache[e->id] = r;
    }
    return z3::expr(ctx, cache[root->id]);
  }
  z3::expr one(E e) {
    std::vector<z3::expr> a;
    if (e->op != CONST && e->op != VAR)
      for (uint32_t i = 0; i < e->n; i++) a.push_back(z3::expr(ctx, cache[e->a[i]->id]));
    auto fold = [&](auto f) {
      z3::expr r = a[0];
      for (size_t i = 1; i < a.size(); i++) r = f(r, a[i]);
      return r;
    };
    switch (e->op) {
      case CONST: return num(e->val(), e->w);
      case VAR: {
        z3::expr v = ctx.bv_const(("v" + std::to_string(e->aux)).c_str(), e->w);
        const VarInfo& vi = g_vars[e->aux];
        if (rangeDone.insert(e->aux).second) {
          if (vi.lo != 0) rangeCons.push_back(z3::uge(v, num(vi.lo, e->w)));
          if (vi.hi != maskw(e->w)) rangeCons.push_back(z3::ule(v, num(vi.hi, e->w)));
        }
        return v;
      }
      case UF: return uf(e, a);
      case ADD: return fold([](auto x, auto y) { return x + y; });
      case MUL: return fold([](auto x, auto y) { return x * y; });
      case XOR: return fold([](auto x, auto y) { return x ^ y; });
      case AND: return fold([](auto x, auto y) { return x & y; });
      case OR: return fold([](auto x, auto y) { return x | y; });
      case UDIV: return z3::udiv(a[0], a[1]);
      case UREM:
        if (absRem(e)) {
          // A remainder of a cipher output by a constant: an arbitrary function into [0, n).
          // Refutations stay valid; models are completed by choosing the cipher output (solveConj).
          std::string nm = "rem_" + std::to_string(e->w) + "_" + dec(e->a[1]->val());
          z3::expr r = ctx.function(nm.c_str(), ctx.bv_sort(e->w), ctx.bv_sort(e->w))(a[0]);
          u256 n = e->a[1]->val();
          rangeCons.push_back(z3::ult(r, num(n, e->w)));
          unsigned t = 0;
          while (((n >> t) & 1) == 0) t++;
          if (t) rangeCons.push_back(r.extract(t - 1, 0) == a[0].extract(t - 1, 0));
          return r;
        }
        return z3::urem(a[0], a[1]);
      case SDIV: return a[0] / a[1];
      case SREM: return z3::srem(a[0], a[1]);
      case SHL: return z3::shl(a[0], a[1]);
      case LSHR: return z3::lshr(a[0], a[1]);
      case ASHR: return z3::ashr(a[0], a[1]);
      case CONCAT: return fold([](auto x, auto y) { return z3::concat(x, y); });
      case EXTRACT: return a[0].extract(e->aux + e->w - 1, e->aux);
      case SEXT: return z3::sext(a[0], e->w - e->a[0]->w);
      case ITE: return z3::ite(a[0] == ctx.bv_val(1, 1), a[1], a[2]);
      case EQ: return b2v(a[0] == a[1]);
      case ULT: return b2v(z3::ult(a[0], a[1]));
      case SLT: return b2v(z3::slt(a[0], a[1]));
    }
    abort();
  }
  z3::expr trB(E e) {
    if (e->op == EQ && e->a[0]->w) {
      z3::expr x = tr(e->a[0]), y = tr(e->a[1]);
      return x == y;
    }
    return tr(e) == ctx.bv_val(1, 1);
  }
  u256 val(z3::model& m, z3::expr e) {
    z3::expr r = m.eval(e, true);
    std::string s;
    if (!r.is_numeral(s)) return 0;
    return parseDec(s);
  }
};

Solver::Solver() { z = new Z3Side(); }

E Solver::simp(E e) {
  if (e->isConst() || subst.empty()) return e;
  std::unordered_map<uint32_t, E> m = subst;
  return substitute(e, m);
}

static void eqsOf(E c, std::unordered_map<uint32_t, E>& s) {
  std::vector<E> v;
  flattenAnd(c, v);
  for (E x : v) {
    if (x->op == EQ) {
      E a = x->a[0], b = x->a[1];
      if (a->isConst()) std::swap(a, b);
      if (b->isConst() && !a->isConst()) s[a->id] = b;
    } else if (x->op == XOR && x->w == 1 && x->n == 2 && isTrue(x->a[1]->isConst() ? x->a[1] : x->a[0])) {
      E y = x->a[1]->isConst() ? x->a[0] : x->a[1];
      s[y->id] = mkFalse();
    } else if (!x->isConst()) {
      s[x->id] = mkTrue();
    }
  }
}

void Solver::assume(E c) {
  if (isTrue(c)) return;
  std::vector<E> v;
  flattenAnd(c, v);
  for (E x : v)
    if (!isTrue(x)) pc.push_back(x);
  eqsOf(c, subst);
  std::vector<Model> k;
  for (auto& m : models)
    if (satisfies(v, m)) k.push_back(m);
  models.swap(k);
  if (hit.v.size() && satisfies(v, hit)) models.push_back(hit);
  hit = Model();
  if (models.size() > 6) models.erase(models.begin());
}

static void syncInc(Z3Side* z, const std::vector<E>& pc) {
  for (; z->added < pc.size(); z->added++) z->inc.add(z->trB(pc[z->added]));
}
static void syncRanges(Z3Side* z) {
  for (; z->rangesAdded < z->rangeCons.size(); z->rangesAdded++) z->inc.add(z->rangeCons[z->rangesAdded]);
}
static bool trueMeaning(uint32_t k) { return k != UF_AES; }

// Extracts a model; `tabled` adds an AES table where z3 chose AES outputs.
static Model extract(Z3Side* z, z3::model& m, const std::vector<uint32_t>& vars, bool tabled) {
  Model r;
  for (uint32_t i : vars) {
    E v = nullptr;
    z3::expr x = z->ctx.bv_const(("v" + std::to_string(i)).c_str(), g_vars[i].w);
    (void)v;
    r.v[i] = z->val(m, x);
  }
  if (tabled) r.useAesTable = true;
  return r;
}
static std::vector<uint32_t> varsOf(const std::vector<E>& es) {
  std::vector<uint32_t> v;
  for (E e : es) collectVars(e, v);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static void ufAppsOf(const std::vector<E>& es, std::vector<E>& out, std::vector<E>* rems) {
  std::unordered_set<uint32_t> seen;
  std::vector<E> st(es.begin(), es.end());
  while (!st.empty()) {
    E e = st.back();
    st.pop_back();
    if (e->op == CONST || e->op == VAR || !seen.insert(e->id).second) continue;
    if (e->op == UF) out.push_back(e);
    if (absRem(e)) rems->push_back(e);
    for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
  std::sort(out.begin(), out.end(), [](E a, E b) { return a->id < b->id; });
}
static std::string aesKey(u256 key, unsigned, u256 in) { return hex(key) + "/" + hex(in); }

// Runs z3 on `fs` (conjunction); refines interpreted functions until the model is genuine.
// tabled: a model that needs freely chosen AES outputs is acceptable.
static Sat solveConj(Z3Side* z, z3::solver& s, std::vector<z3::expr> assumps, const std::vector<E>& all, Model& out,
                     bool allowTable, uint64_t rl, bool persistentLemmas) {
  std::vector<uint32_t> vars = varsOf(all);
  std::vector<E> apps, rems;
  ufAppsOf(all, apps, &rems);
  for (int round = 0; round < 40; round++) {
    z3::params p(z->ctx);
    p.set("rlimit", (unsigned)std::min<uint64_t>(rl, 4000000000u));
    s.set(p);
    z3::expr_vector av(z->ctx);
    for (auto& a : assumps) av.push_back(a);
    uint64_t t0 = nowMicros();
    z3::check_result r = z3::unknown;
    try {
      r = s.check(av);
    } catch (z3::exception& ex) {
      r = z3::unknown;
    }
    uint64_t dt = nowMicros() - t0;
    __sync_fetch_and_add(&g_st->micros, dt);
    if (dt > g_st->maxMicros) g_st->maxMicros = dt;
    __sync_fetch_and_add(&g_st->queries, 1);
    if (r == z3::unsat) { __sync_fetch_and_add(&g_st->unsat, 1); return Sat::NO; }
    if (r != z3::sat) { __sync_fetch_and_add(&g_st->unknown, 1); return Sat::UNKNOWN; }
    __sync_fetch_and_add(&g_st->sat, 1);
    z3::model m = s.get_model();
    Model md = extract(z, m, vars, false);
    if (satisfies(all, md)) { out = md; return Sat::YES; }
    // Second chance: choose AES outputs as z3 did.
    Model mt;
    std::vector<std::pair<E, u256>> lemmas;
    bool haveAes = false;
    for (int noise = 0; noise < (rems.empty() ? 1 : 4); noise++) {
    mt = md;
    mt.useAesTable = true;
    lemmas.clear();
    for (E u : apps) {
      Evaluator e2(mt);
      std::vector<u256> av2;
      std::vector<unsigned> ws;
      for (uint32_t i = 0; i < u->n; i++) { av2.push_back(e2(u->a[i])); ws.push_back(u->a[i]->w); }
      u256 zv = z->val(m, z->tr(u));
      if (u->aux == UF_AES) {
        haveAes = true;
        std::string key = aesKey(av2[0], ws[0], av2[1]);
        if (mt.aes.count(key)) continue;
        if (noise) {
          // outputs z3 is indifferent to: make accidental equalities unlikely
          bool masked = false;
          for (E rem : rems) {
            E app = nullptr;
            masked |= absRem(rem, &app) && app == u;
          }
          uint64_t h = (u->id * 4ull + noise) * 0x9e3779b97f4a7c15ull;
          if (masked) zv ^= ((u256)(h ^ h >> 29) << 62) ^ ((u256)(h & 0xffff) << 41);
          zv &= maskw(128);
        }
        // choose the output with the remainders z3 picked; the low 40 bits stay
        u256 step = (u256)1 << 40;
        for (E rem : rems) {
          E app = nullptr;
          if (!absRem(rem, &app) || app != u) continue;
          mt.aes[key] = zv;
          Evaluator e3(mt);
          u256 n = rem->a[1]->val(), want = z->val(m, z->tr(rem)), d = e3(rem->a[0]), odd = n, x = d;
          while ((odd & 1) == 0) odd >>= 1;
          for (u256 k = 0; k < odd && k < 5000 && x % n != want; k++) x = (x + step) & maskw(128);
          if (x % n != want) {
            x = d - d % n + want;
            if (x >> 128) x -= n;
          }
          zv ^= d ^ x;
          step *= odd;
        }
        mt.aes[key] = zv;
      } else {
        u256 tv = evalUF(u->aux, u->w, av2, ws);
        if (tv != zv) lemmas.push_back({u, tv});
      }
    }
    if (haveAes && allowTable && satisfies(all, mt)) { out = mt; return Sat::YES; }
    }
    if (lemmas.empty()) { return Sat::UNKNOWN; }
    int added = 0;
    Evaluator e3(mt);
    for (auto& l : lemmas) {
      z3::expr pre = z->ctx.bool_val(true);
      E u = l.first;
      for (uint32_t i = 0; i < u->n; i++) {
        u256 v = e3(u->a[i]);
        pre = pre && (z->tr(u->a[i]) == z->num(v, u->a[i]->w));
      }
      s.add(z3::implies(pre, z->tr(u) == z->num(l.second, u->w)));
      if (++added >= 8) break;
    }
  }
  return Sat::UNKNOWN;
}

// A few cheap guesses for counterexamples / witnesses.
static Model guess(int i, const std::vector<uint32_t>& vars) {
  Model m;
  m.seed = 77 + i;
  for (uint32_t v : vars) {
    const VarInfo& vi = g_vars[v];
    uint64_t h = (uint64_t)v * 0x9e3779b97f4a7c15ull + (uint64_t)i * 0xd1342543de82ef95ull;
    auto nx = [&]() { h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; h *= 0x94d049bb133111ebull; h ^= h >> 31; return h; };
    u256 r = 0;
    for (int k = 0; k < 4; k++) r = (r << 64) | nx();
    u256 val;
    u256 span = vi.hi - vi.lo;
    int mode = i < 3 ? 3 + i : i >= 1000 ? 7 : (int)(nx() % 8);
    if (i == 0) mode = 7;
    switch (mode) {
      case 3: val = vi.lo; break;
      case 4: val = vi.hi; break;
      case 5: val = vi.lo + (span > 8 ? (u256)(nx() % 8) : (span == ~(u256)0 ? r : r % (span + 1))); break;
      case 6: val = vi.hi - (span > 8 ? (u256)(nx() % 8) : (span == ~(u256)0 ? r : r % (span + 1))); break;
      default: val = span == ~(u256)0 ? r : vi.lo + r % (span + 1);
    }
    m.v[v] = val;
  }
  return m;
}

Sat Solver::feasible(E c) {
  c = simp(c);
  if (isFalse(c)) return Sat::NO;
  if (isTrue(c)) {
    if (!models.empty()) hit = models.back();
    return Sat::YES;
  }
  for (auto& m : models) {
    if (evalE(c, m) != 0) {
      __sync_fetch_and_add(&g_st->modelHits, 1);
      hit = m;
      return Sat::YES;
    }
  }
  std::vector<E> all = pc;
  flattenAnd(c, all);
  std::vector<uint32_t> vars = varsOf(all);
  for (int i = 0; i < 4; i++) {
    Model m = guess(i, vars);
    if (satisfies(all, m)) {
      hit = m;
      __sync_fetch_and_add(&g_st->modelHits, 1);
      return Sat::YES;
    }
  }
  bool cipher = false;
  for (E x : all) cipher |= containsUF(x, UF_AES);
  if (cipher)
    // conditions on cipher outputs: try more values
    for (int i = 0; i < 200; i++) {
      Model m = guess(4 + i, vars);
      if (i % 2 && !models.empty()) {
        Model k = models[i / 2 % models.size()];
        uint32_t j = 0;
        for (uint32_t v : vars)
          if (j++ % 3 == (uint32_t)i / 2 % 3) k.v[v] = m.v[v];
        m = k;
      }
      if (satisfies(all, m)) {
        hit = m;
        __sync_fetch_and_add(&g_st->modelHits, 1);
        return Sat::YES;
      }
    }
  syncInc(z, pc);
  z3::expr ce = z->trB(c);
  syncRanges(z);
  // literal for the assumption
  z3::expr lit = z->ctx.bool_const(("a" + std::to_string(c->id)).c_str());
  z->inc.add(z3::implies(lit, ce));
  Model m;
  Sat r = solveConj(z, z->inc, {lit}, all, m, true, g_rlFeas, true);
  if (r == Sat::YES) hit = m;
  return r;
}

bool Solver::enumerate(E e, unsigned max, std::vector<u256>& out) {
  e = simp(e);
  if (e->isConst()) { out.push_back(e->val()); return true; }
  E excl = mkTrue();
  // values from cached models first
  for (;;) {
    Sat r = feasible(excl);
    if (r == Sat::NO) return true;
    if (r == Sat::UNKNOWN) return false;
    u256 v;
    if (isTrue(excl)) {
      // need any witness
      if (!models.empty()) v = evalE(e, models.back());
      else {
        std::vector<E> all = pc;
        Model m;
        std::vector<uint32_t> vars = varsOf(all);
        collectVars(e, vars);
        bool ok = false;
        for (int i = 0; i < 4 && !ok; i++) {
          m = guess(i, vars);
          ok = satisfies(all, m);
        }
        if (!ok) {
          syncInc(z, pc);
          syncRanges(z);
          Sat q = solveConj(z, z->inc, {}, all, m, true, g_rlFeas, true);
          if (q != Sat::YES) return q == Sat::NO;
        }
        models.push_back(m);
        v = evalE(e, m);
      }
    } else {
      v = evalE(e, hit);
    }
    for (u256 o : out)
      if (o == v) return false;
    out.push_back(v);
    if (out.size() > max) return false;
    if (range(e).hi - range(e).lo < out.size()) return true;
    excl = mkAnd(excl, mkNot(mkEq(e, mkConst(v, e->w))));
  }
}

std::vector<Model> Solver::witnesses(unsigned n, const std::vector<E>& es) {
  std::vector<Model> out;
  std::vector<uint32_t> vars = varsOf(pc);
  for (E e : es) collectVars(e, vars);
  for (int i = 0; i < 64 && out.size() < n; i++) {
    Model m = guess(1000 + i, vars);
    if (satisfies(pc, m)) out.push_back(m);
  }
  for (size_t k = 0; k < models.size() && out.size() < n; k++)
    for (int i = 0; i < 16 && out.size() < n; i++) {
      Model m = guess(1100 + i, vars);
      for (auto& x : models[k].v)
        if (i < 8 || std::find(vars.begin(), vars.end(), x.first) == vars.end()) m.v[x.first] = x.second;
      m.aes = models[k].aes;
      m.useAesTable = models[k].useAesTable;
      if (satisfies(pc, m)) out.push_back(m);
    }
  return out;
}

int Solver::prove(E c0, Model& cex, std::string& why) {
  __sync_fetch_and_add(&g_st->checks, 1);
  E c = simp(c0);
  if (isTrue(c)) { __sync_fetch_and_add(&g_st->byRewrite, 1); why = "rewrite"; return 1; }
  std::vector<E> parts, rest;
  flattenAnd(c, parts);
  bool alg = false;
  for (E x : parts) {
    if (isTrue(x)) continue;
    if (x->op == EQ && algebraProve(x->a[0], x->a[1])) { alg = true; continue; }
    rest.push_back(x);
  }
  if (rest.empty()) { __sync_fetch_and_add(alg ? &g_st->byAlgebra : &g_st->byRewrite, 1); why = "algebra"; return 1; }
  E r = mkTrue();
  for (E x : rest) r = mkAnd(r, x);
  E neg = mkNot(r);
  std::vector<E> all = pc;
  flattenAnd(neg, all);
  std::vector<uint32_t> vars = varsOf(all);
  auto tryM = [&](const Model& m) {
    if (satisfies(all, m)) { cex = m; return true; }
    return false;
  };
  for (auto& m : models)
    if (tryM(m)) { __sync_fetch_and_add(&g_st->refuted, 1); why = "model"; return 0; }
  for (int i = 0; i < 24; i++)
    if (tryM(guess(i, vars))) { __sync_fetch_and_add(&g_st->refuted, 1); why = "evaluation"; return 0; }
  // perturb known models
  for (auto& m0 : models)
    for (int i = 0; i < 8; i++) {
      Model m = m0, g = guess(i, vars);
      int k = 0;
      for (uint32_t v : vars)
        if (!m.v.count(v) || ((k++ + i) % 3 == 0)) m.v[v] = g.v[v];
      if (tryM(m)) { __sync_fetch_and_add(&g_st->refuted, 1); why = "evaluation"; return 0; }
    }
  // Corner cases: make each comparison that decides something in the goal true / false.
  {
    std::unordered_set<uint32_t> seen;
    std::vector<E> st(rest.begin(), rest.end()), conds;
    while (!st.empty() && conds.size() < 24) {
      E e = st.back();
      st.pop_back();
      if (e->op == CONST || e->op == VAR || !seen.insert(e->id).second) continue;
      if (e->op == EQ && e->a[0]->w > 4 && (e->a[0]->isConst() || e->a[1]->isConst())) conds.push_back(e);
      if (e->op == AND && e->w == 1)
        for (uint32_t i = 0; i < e->n; i++)
          if (e->a[i]->op == EQ && e->a[i]->a[0]->w > 4) { conds.push_back(e); break; }
      for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
    }
    for (E x : conds) {
      if (feasible(x) != Sat::YES) continue;
      Model base = hit;
      if (tryM(base)) { __sync_fetch_and_add(&g_st->refuted, 1); why = "z3"; return 0; }
      std::vector<uint32_t> cv;
      collectVars(x, cv);
      for (int i = 0; i < 8; i++) {
        Model m = base, g = guess(i, vars);
        for (uint32_t v : vars)
          if (std::find(cv.begin(), cv.end(), v) == cv.end()) m.v[v] = g.v[v];
        if (tryM(m)) { __sync_fetch_and_add(&g_st->refuted, 1); why = "z3"; return 0; }
      }
    }
  }
  // z3, fresh solver; one conjunct at a time.
  for (E x : rest) {
    std::vector<E> al2 = pc;
    flattenAnd(mkNot(x), al2);
    z3::solver s(z->ctx);
    for (E e : al2) s.add(z->trB(e));
    for (auto& rc : z->rangeCons) s.add(rc);
    Model m;
    Sat q = solveConj(z, s, {}, al2, m, true, g_rlProve, false);
    if (q == Sat::YES) {
      cex = m;
      __sync_fetch_and_add(&g_st->refuted, 1);
      why = "z3";
      return 0;
    }
    if (q == Sat::UNKNOWN) { why = "unknown: " + show(x, 5); return -1; }
  }
  __sync_fetch_and_add(&g_st->byZ3, 1);
  why = "z3";
  return 1;
}
