#include "algebra.h"
#include <algorithm>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_set>

static bool g_algDebug = getenv("SX_ALG") != nullptr;
uint64_t g_algProved = 0, g_algTried = 0;
namespace {
struct TooBig : std::runtime_error { TooBig() : std::runtime_error("toobig") {} };

typedef std::vector<std::pair<uint32_t, u256>> Mono;  // (atom key, exponent)
struct MonoLess {
  bool operator()(const Mono& a, const Mono& b) const { return a < b; }
};
struct MonoTab {
  std::map<Mono, uint32_t> ids;
  std::vector<Mono> list;
  uint32_t get(const Mono& m) {
    auto it = ids.find(m);
    if (it != ids.end()) return it->second;
    uint32_t id = list.size();
    list.push_back(m);
    ids[m] = id;
    return id;
  }
};
typedef std::map<uint32_t, u256> Poly;

enum RK { RBV, RMOD, RGF };
struct Ring {
  RK k;
  unsigned w;      // RBV
  u256 p;          // RMOD
  size_t limit = 60000;
  MonoTab mt;
  std::unordered_set<uint32_t> expandSet;
  std::unordered_map<uint32_t, E> byId;
  std::unordered_map<uint32_t, Poly> memo, bmemo, zmemo;
  std::unordered_set<uint32_t> boolAtoms;
  std::set<uint32_t> bitBases;  // bases of single-bit atoms seen

  u256 cadd(u256 a, u256 b) {
    if (k == RGF) return a ^ b;
    if (k == RBV) return (a + b) & maskw(w);
    return (a + b) % p;
  }
  u256 cmul(u256 a, u256 b) {
    if (k == RGF) return gfmul128((u128)a, (u128)b);
    if (k == RBV) return (a * b) & maskw(w);
    return ((a % p) * (b % p)) % p;
  }
  u256 cint(u256 v) {
    if (k == RGF) return v;
    if (k == RBV) return v & maskw(w);
    return v % p;
  }
  u256 cneg(u256 v) {
    if (k == RGF) return v;
    if (k == RBV) return (-v) & maskw(w);
    return (p - v % p) % p;
  }
  u256 pow2(unsigned n) {  // the ring element for bit n
    if (k == RGF) {
      u128 r = 1;
      for (unsigned i = 0; i < n; i++) r = gfmul128(r, 2);
      return r;
    }
    if (k == RBV) return n >= w ? (u256)0 : (u256)1 << n;
    u256 r = 1;
    for (unsigned i = 0; i < n; i++) r = (r * 2) % p;
    return r;
  }
  Poly con(u256 c) {
    Poly q;
    if (c != 0) q[mt.get({})] = c;
    return q;
  }
  void addTo(Poly& a, const Poly& b, u256 s) {
    for (auto& t : b) {
      u256 c = cmul(t.second, s);
      if (c == 0) continue;
      auto it = a.find(t.first);
      if (it == a.end()) a[t.first] = c;
      else {
        it->second = cadd(it->second, c);
        if (it->second == 0) a.erase(it);
      }
    }
    if (a.size() > limit) throw TooBig();
  }
  uint32_t mulMono(uint32_t x, uint32_t y) {
    if (mt.list[x].empty()) return y;
    if (mt.list[y].empty()) return x;
    Mono r, a = mt.list[x], b = mt.list[y];
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else {
        u256 e = a[i].second + b[j].second;
        if (boolAtoms.count(a[i].first)) e = 1;
        else if (k == RGF) {
          u256 q = maskw(128);  // 2^128 - 1
          e = (e - 1) % q + 1;
        }
        r.push_back({a[i].first, e});
        i++;
        j++;
      }
    }
    return mt.get(r);
  }
  Poly mul(const Poly& a, const Poly& b) {
    if (a.size() * b.size() > 4 * limit) throw TooBig();
    Poly r;
    for (auto& x : a)
      for (auto& y : b) {
        u256 c = cmul(x.second, y.second);
        if (c == 0) continue;
        uint32_t m = mulMono(x.first, y.first);
        auto it = r.find(m);
        if (it == r.end()) r[m] = c;
        else {
          it->second = cadd(it->second, c);
          if (it->second == 0) r.erase(it);
        }
        if (r.size() > limit) throw TooBig();
      }
    return r;
  }
  Poly atom(E e, bool isBool) {
    uint32_t key = e->id;
    byId[key] = e;
    if (isBool) boolAtoms.insert(key);
    Poly q;
    q[mt.get({{key, 1}})] = 1;
    return q;
  }
  Poly iteP(const Poly& c, const Poly& t, const Poly& f) {
    Poly d = t;
    addTo(d, f, cneg(1));
    Poly r = f;
    addTo(r, mul(c, d), 1);
    return r;
  }
  // 0/1-valued polynomial of a 1-bit term
  Poly boolP(E e) {
    auto it = bmemo.find(e->id);
    if (it != bmemo.end()) return it->second;
    Poly r;
    switch (e->op) {
      case CONST: r = con(e->val() == 0 ? 0 : 1); break;
      case XOR: {
        r = boolP(e->a[0]);
        for (uint32_t i = 1; i < e->n; i++) {
          Poly b = boolP(e->a[i]);
          Poly ab = mul(r, b);
          addTo(r, b, 1);
          if (k != RGF) addTo(r, ab, cneg(2));
        }
        break;
      }
      case AND:
        r = boolP(e->a[0]);
        for (uint32_t i = 1; i < e->n; i++) r = mul(r, boolP(e->a[i]));
        break;
      case OR:
        r = boolP(e->a[0]);
        for (uint32_t i = 1; i < e->n; i++) {
          Poly b = boolP(e->a[i]);
          Poly ab = mul(r, b);
          addTo(r, b, 1);
          addTo(r, ab, cneg(1));
        }
        break;
      case ITE: r = iteP(boolP(e->a[0]), boolP(e->a[1]), boolP(e->a[2])); break;
      case EQ:
        if (e->a[1]->op == CONST && e->a[0]->w <= 4) {  // product of bit literals
          r = con(1);
          for (unsigned j = 0; j < e->a[0]->w; j++) {
            E b = mkExtract(e->a[0], j, j);
            r = mul(r, boolP(((e->a[1]->val() >> j) & 1) ? b : mkNot(b)));
          }
          break;
        }
        r = atom(e, true);
        break;
      case EXTRACT:
        bitBases.insert(e->a[0]->id);
        r = atom(e, true);
        break;
      default: r = atom(e, true);
    }
    return bmemo[e->id] = r;
  }
  Poly bits(E e, unsigned w2) {
    Poly r;
    for (unsigned j = 0; j < w2; j++) addTo(r, boolP(mkExtract(e, j, j)), pow2(j));
    return r;
  }
  // Value of a term of any width as a non-negative integer (RGF: as the
  // polynomial with these bits), mapped into the ring.
  Poly intP(E e) {
    if (e->w == 1) return boolP(e);
    auto it = zmemo.find(e->id);
    if (it != zmemo.end()) return it->second;
    Poly r;
    if (k == RBV && e->w >= w) return zmemo[e->id] = modP(mkTrunc(e, w));
    if (k == RMOD && (e->op == UREM || e->op == UF) && expandSet.count(e->id)) {
      unsigned n = 0;
      for (u256 h = range(e).hi; h != 0; h >>= 1) n++;
      return zmemo[e->id] = bits(e, n);
    }
    switch (e->op) {
      case CONST: {
        u256 v = e->val();
        if (k == RGF) {
          if (e->w > 128 && (v >> 128) != 0) { r = bits(e, e->w); break; }
          r = con(v);
        } else
          r = con(cint(v));
        break;
      }
      case ITE: r = iteP(boolP(e->a[0]), intP(e->a[1]), intP(e->a[2])); break;
      case CONCAT: {
        unsigned off = 0;
        for (int i = e->n - 1; i >= 0; i--) {
          E p = e->a[i];
          if (k == RBV && off >= w) break;
          if (k == RBV && off + p->w >= w && off > 0) {
            // only p mod 2^(w-off) matters
            E q = mkTrunc(p, w - off);
            addTo(r, modP(q), pow2(off));
          } else
            addTo(r, intP(p), pow2(off));
          off += p->w;
        }
        break;
      }
      case XOR:
        if (k == RGF && e->w <= 128) {
          for (uint32_t i = 0; i < e->n; i++) addTo(r, intP(e->a[i]), 1);
          break;
        }
        if (k != RGF && e->n == 2 && e->a[0]->op == CONST && e->a[0]->val() == maskw(e->w)) {
          r = con(cint(maskw(e->w)));
          addTo(r, intP(e->a[1]), cneg(1));
          break;
        }
        r = leaf(e);
        break;
      case ADD:
        if (k == RBV && e->w == w) { r = modP(e); break; }
        if (k != RGF) {  // without overflow
          u256 s = 0;
          bool ok = e->w <= 200;
          for (uint32_t i = 0; ok && i < e->n; i++) { s += range(e->a[i]).hi; if (s > maskw(e->w)) ok = false; }
          if (ok) {
            for (uint32_t i = 0; i < e->n; i++) addTo(r, intP(e->a[i]), 1);
            break;
          }
        }
        r = leaf(e);
        break;
      case MUL:
        if (k == RBV && e->w == w) { r = modP(e); break; }
        if (k != RGF) {
          u256 s = 1;
          bool ok = e->w <= 128;
          for (uint32_t i = 0; ok && i < e->n; i++) { s *= range(e->a[i]).hi; if (s > maskw(e->w)) ok = false; }
          if (ok) {
            r = intP(e->a[0]);
            for (uint32_t i = 1; i < e->n; i++) r = mul(r, intP(e->a[i]));
            break;
          }
        }
        r = leaf(e);
        break;
      case UREM:
        if (k == RMOD && e->a[1]->op == CONST && e->a[1]->val() == p) { r = intP(e->a[0]); break; }
        r = leaf(e);
        break;
      case UF:
        if (k == RMOD && (e->aux == UF_MODADD || e->aux == UF_MODMUL) && e->a[2]->op == CONST && e->a[2]->val() == p) {
          if (e->aux == UF_MODADD) { r = intP(e->a[0]); addTo(r, intP(e->a[1]), 1); }
          else r = mul(intP(e->a[0]), intP(e->a[1]));
          break;
        }
        if (k == RMOD && e->aux == UF_MODNEG && e->a[1]->op == CONST && e->a[1]->val() == p) {
          addTo(r, intP(e->a[0]), cneg(1));
          break;
        }
        if (k == RGF && e->aux == UF_GFMUL) { r = mul(intP(e->a[0]), intP(e->a[1])); break; }
        r = leaf(e);
        break;
      case SEXT:
        if (k != RGF) {
          r = intP(e->a[0]);
          // plus (2^w - 2^iw) * sign
          u256 c = cadd(pow2(e->w), cneg(pow2(e->a[0]->w)));
          addTo(r, boolP(mkExtract(e->a[0], e->a[0]->w - 1, e->a[0]->w - 1)), c);
          break;
        }
        r = leaf(e);
        break;
      case EXTRACT:
        if (e->a[0]->op == ITE) {
          E q = e->a[0];
          unsigned hi = e->aux + e->w - 1;
          r = iteP(boolP(q->a[0]), intP(mkExtract(q->a[1], hi, e->aux)), intP(mkExtract(q->a[2], hi, e->aux)));
          break;
        }
        if (k == RMOD && e->aux == 0 && range(e->a[0]).hi <= maskw(e->w)) { r = intP(e->a[0]); break; }
        if (k == RGF && e->a[0]->w <= 128 && !expandSet.count(e->a[0]->id)) {
          E q = e->a[0];
          unsigned hi = e->aux + e->w;  // exclusive
          if (q->op == XOR) {  // bits are linear
            for (uint32_t i = 0; i < q->n; i++) addTo(r, intP(mkExtract(q->a[i], hi - 1, e->aux)), 1);
            break;
          }
          if (hi < q->w) {  // canonical atoms: q and its high parts
            addTo(r, e->aux ? intP(mkExtract(q, q->w - 1, e->aux)) : intP(q), 1);
            addTo(r, intP(mkExtract(q, q->w - 1, hi)), pow2(hi - e->aux));
            break;
          }
        }
        if (k == RBV && e->aux == 0 && e->w >= w) { r = modP(mkTrunc(e, w)); break; }
        r = leaf(e);
        break;
      default: r = leaf(e);
    }
    return zmemo[e->id] = r;
  }
  Poly leaf(E e) {
    if (k == RGF && (e->op == AND || e->op == OR) && e->w <= 128) return bits(e, e->w);
    if (expandSet.count(e->id) || (e->op == EXTRACT && expandSet.count(e->a[0]->id))) return bits(e, e->w);
    return atom(e, false);
  }
  // 2^off * p modulo 2^(off + width of p)
  Poly highP(E p, unsigned off) {
    Poly r;
    if (off > 0 && p->op == ITE) return iteP(boolP(p->a[0]), highP(p->a[1], off), highP(p->a[2], off));
    if (off > 0 && p->op == ADD) {
      for (uint32_t i = 0; i < p->n; i++) addTo(r, highP(p->a[i], off), 1);
      return r;
    }
    if (off > 0 && p->op == MUL && p->n == 2 && p->a[0]->op == CONST) {
      addTo(r, highP(p->a[1], off), cint(p->a[0]->val()));
      return r;
    }
    if (off > 0 && p->op == EXTRACT && p->aux == off) {
      // 2^off * (S >> off) = S - (S mod 2^off)
      addTo(r, modP(mkTrunc(p->a[0], off + p->w)), 1);
      addTo(r, intP(mkTrunc(p->a[0], off)), cneg(1));
    } else
      addTo(r, modP(p), pow2(off));
    return r;
  }
  // Value of a term of width <= w modulo 2^(its width); the result is only
  // meaningful modulo 2^(width of e), multiples are killed by the caller.
  Poly modP(E e) {
    if (e->w == 1) return boolP(e);
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    Poly r;
    switch (e->op) {
      case ADD:
        for (uint32_t i = 0; i < e->n; i++) addTo(r, modP(e->a[i]), 1);
        break;
      case MUL:
        r = modP(e->a[0]);
        for (uint32_t i = 1; i < e->n; i++) r = mul(r, modP(e->a[i]));
        break;
      case ITE: r = iteP(boolP(e->a[0]), modP(e->a[1]), modP(e->a[2])); break;
      case CONCAT: {
        unsigned off = 0;
        for (int i = e->n - 1; i >= 0; i--) {
          E p = e->a[i];
          if (i == 0) addTo(r, highP(p, off), 1);
          else addTo(r, intP(p), pow2(off));
          off += p->w;
        }
        break;
      }
      case XOR:
        if (e->n == 2 && e->a[0]->op == CONST && e->a[0]->val() == maskw(e->w)) {
          r = con(cint(maskw(e->w)));
          addTo(r, modP(e->a[1]), cneg(1));
          break;
        }
        r = leaf(e);
        break;
      case EXTRACT:
        // x mod 2^we: any lift of x works
        if (e->a[0]->op == ITE) {
          E q = e->a[0];
          unsigned hi = e->aux + e->w - 1;
          r = iteP(boolP(q->a[0]), modP(mkExtract(q->a[1], hi, e->aux)), modP(mkExtract(q->a[2], hi, e->aux)));
          break;
        }
        if (e->aux == 0 && !expandSet.count(e->a[0]->id)) { r = modP(e->a[0]); break; }
        r = leaf(e);
        break;
      case SEXT: {
        r = intP(e->a[0]);
        u256 c = cadd(pow2(e->w), cneg(pow2(e->a[0]->w)));
        addTo(r, boolP(mkExtract(e->a[0], e->a[0]->w - 1, e->a[0]->w - 1)), c);
        break;
      }
      case CONST: r = con(cint(e->val())); break;
      default: r = leaf(e);
    }
    return memo[e->id] = r;
  }
  // c * (x mod 2^k) = c * x modulo 2^w when 2^(w-k) divides c.
  Poly lift(Poly q) {
    for (int round = 0; round < 8; round++) {
      Poly r;
      bool ch = false;
      for (auto& t : q) {
        const Mono m = mt.list[t.first];
        size_t i = 0;
        for (; i < m.size(); i++) {
          auto it = byId.find(m[i].first);
          if (it == byId.end() || boolAtoms.count(m[i].first) || m[i].second != 1) continue;
          E e = it->second;
          if (e->w < w && (t.second & maskw(w - e->w)) == 0 &&
              ((e->op == EXTRACT && e->aux == 0) || e->op == ADD || e->op == MUL)) break;
        }
        Poly one;
        if (i == m.size()) one[t.first] = t.second;
        else {
          ch = true;
          Mono rest = m;
          rest.erase(rest.begin() + i);
          Poly c;
          c[mt.get(rest)] = t.second;
          E b = byId[m[i].first];
          if (b->op == EXTRACT) b = b->a[0];
          one = mul(c, modP(b->w > w ? mkTrunc(b, w) : b));
        }
        addTo(r, one, 1);
      }
      if (!ch) return r;
      q = std::move(r);
    }
    return q;
  }
  Poly norm(E e) { return k == RBV ? lift(modP(e)) : intP(e); }
};

bool tryRing(RK k, unsigned w, u256 p, E a, E b) {
  std::unordered_set<uint32_t> ex;
  for (int round = 0; round < 3; round++) {
    Ring R;
    R.k = k;
    R.w = w;
    R.p = p;
    R.expandSet = ex;
    try {
      Poly x = R.norm(a), y = R.norm(b);
      if (x == y) return true;
      if (g_algDebug) {
        R.addTo(x, y, R.cneg(1));
        fprintf(stderr, "ring %d w=%u round %d: %zu terms differ\n", (int)k, w, round, x.size());
        int n = 0;
        for (auto& t : x) {
          fprintf(stderr, "  %s", hex(t.second).c_str());
          for (auto& m : R.mt.list[t.first]) fprintf(stderr, " * %s^%s", show(R.byId[m.first], 4).substr(0, 600).c_str(), hex(m.second).c_str());
          fprintf(stderr, "\n");
          if (++n > 2000) break;
        }
      }
    } catch (TooBig&) { return false; }
    size_t before = ex.size();
    for (uint32_t i : R.bitBases) ex.insert(i);
    if (ex.size() == before) return false;
  }
  return false;
}

// ------------------------------------------------------------ bitwise ANF
typedef std::vector<uint32_t> BP;  // sorted monomial ids (coefficients in GF(2))
struct Anf {
  std::map<std::vector<uint32_t>, uint32_t> ids;
  std::vector<std::vector<uint32_t>> list;
  std::unordered_map<uint64_t, BP> memo;
  std::unordered_map<uint32_t, std::vector<BP>> wide;
  std::map<std::pair<uint32_t, unsigned>, uint32_t> atoms;
  size_t work = 0;
  uint32_t mono(const std::vector<uint32_t>& m) {
    auto it = ids.find(m);
    if (it != ids.end()) return it->second;
    uint32_t id = list.size();
    list.push_back(m);
    ids[m] = id;
    if (list.size() > 400000) throw TooBig();
    return id;
  }
  BP one() { return {mono({})}; }
  BP add(const BP& a, const BP& b) {
    BP r;
    std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
    work += r.size();
    if (r.size() > 40000 || work > 200000000) throw TooBig();
    return r;
  }
  BP mul(const BP& a, const BP& b) {
    if (a.empty() || b.empty()) return {};
    if (a.size() * b.size() > 200000) throw TooBig();
    std::vector<uint32_t> v;
    for (uint32_t x : a)
      for (uint32_t y : b) {
        std::vector<uint32_t> m;
        const auto &p = list[x], &q = list[y];
        std::set_union(p.begin(), p.end(), q.begin(), q.end(), std::back_inserter(m));
        v.push_back(mono(m));
      }
    work += v.size();
    std::sort(v.begin(), v.end());
    BP r;
    for (size_t i = 0; i < v.size();) {
      size_t j = i;
      while (j < v.size() && v[j] == v[i]) j++;
      if ((j - i) & 1) r.push_back(v[i]);
      i = j;
    }
    return r;
  }
  BP atom(E e, unsigned j) {
    auto key = std::make_pair(e->id, j);
    auto it = atoms.find(key);
    uint32_t n;
    if (it == atoms.end()) { n = atoms.size(); atoms[key] = n; } else n = it->second;
    return {mono({n})};
  }
  const BP& bit(E e, unsigned j) {
    uint64_t key = ((uint64_t)e->id << 9) | j;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    BP r = comp(e, j);
    return memo[key] = r;
  }
  BP comp(E e, unsigned j) {
    switch (e->op) {
      case CONST: return ((e->val() >> j) & 1) ? one() : BP{};
      case XOR: {
        BP r;
        for (uint32_t i = 0; i < e->n; i++) r = add(r, bit(e->a[i], j));
        return r;
      }
      case AND: {
        BP r = bit(e->a[0], j);
        for (uint32_t i = 1; i < e->n; i++) r = mul(r, bit(e->a[i], j));
        return r;
      }
      case OR: {
        BP r = bit(e->a[0], j);
        for (uint32_t i = 1; i < e->n; i++) {
          BP b = bit(e->a[i], j);
          r = add(add(r, b), mul(r, b));
        }
        return r;
      }
      case ITE: {
        BP c = bit(e->a[0], 0), t = bit(e->a[1], j), f = bit(e->a[2], j);
        return add(f, mul(c, add(t, f)));
      }
      case CONCAT: {
        unsigned p = 0;
        for (int i = e->n - 1; i >= 0; i--) {
          if (j < p + e->a[i]->w) return bit(e->a[i], j - p);
          p += e->a[i]->w;
        }
        abort();
      }
      case EXTRACT: return bit(e->a[0], j + e->aux);
      case SEXT: return bit(e->a[0], std::min<unsigned>(j, e->a[0]->w - 1));
      case EQ: {
        if (e->a[0]->w > 8) return atom(e, j);
        BP r = one();
        for (unsigned i = 0; i < e->a[0]->w; i++) r = mul(r, add(one(), add(bit(e->a[0], i), bit(e->a[1], i))));
        return r;
      }
      case ADD:
      {
        // a sum whose terms have disjoint support behaves like XOR; only
        // two-operand ripple carries over few bits are expanded
        if (j == 0) {
          BP r;
          for (uint32_t i = 0; i < e->n; i++) r = add(r, bit(e->a[i], 0));
          return r;
        }
        return atom(e, j);
      }
      case MUL:
        if (e->n == 2 && e->a[0]->op == CONST) {
          u256 c = e->a[0]->val();
          if ((c & (c - 1)) == 0) {
            unsigned k = 0;
            while (!((c >> k) & 1)) k++;
            return j < k ? BP{} : bit(e->a[1], j - k);
          }
        }
        return atom(e, j);
      case UF:
        if (e->aux == UF_CLMUL) {
          BP r;
          for (unsigned i = 0; i < 64; i++)
            if (j >= i && j - i < 64) r = add(r, mul(bit(e->a[0], i), bit(e->a[1], j - i)));
          return r;
        }
        if (e->aux == UF_GFMUL) {
          auto it = wide.find(e->id);
          if (it == wide.end()) {
            std::vector<BP> q(255);
            for (unsigned i = 0; i < 128; i++)
              for (unsigned k = 0; k < 128; k++) {
                BP m = mul(bit(e->a[0], i), bit(e->a[1], k));
                q[i + k].insert(q[i + k].end(), m.begin(), m.end());
              }
            auto canon = [](BP& v) {
              std::sort(v.begin(), v.end());
              BP r;
              for (size_t i = 0; i < v.size();) {
                size_t z = i;
                while (z < v.size() && v[z] == v[i]) z++;
                if ((z - i) & 1) r.push_back(v[i]);
                i = z;
              }
              v = r;
            };
            for (auto& v : q) canon(v);
            for (int i = 254; i >= 128; i--)
              for (int s : {0, 1, 2, 7}) q[i - 128 + s] = add(q[i - 128 + s], q[i]);
            q.resize(128);
            it = wide.emplace(e->id, q).first;
          }
          return it->second[j];
        }
        return atom(e, j);
      default: return atom(e, j);
    }
  }
};
bool tryAnf(E a, E b) {
  Anf A;
  try {
    for (unsigned j = 0; j < a->w; j++)
      if (A.bit(a, j) != A.bit(b, j)) return false;
  } catch (TooBig&) { return false; }
  return true;
}
void scan(E root, std::set<std::pair<uint32_t, u256>>& mods, bool& gf, bool& cl) {
  std::unordered_set<uint32_t> seen;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    st.pop_back();
    if (e->op == CONST || e->op == VAR || !seen.insert(e->id).second) continue;
    if (e->op == UF) {
      if (e->aux == UF_GFMUL) gf = true;
      if (e->aux == UF_CLMUL) cl = true;
      if ((e->aux == UF_MODADD || e->aux == UF_MODMUL) && e->a[2]->op == CONST) mods.insert({0, e->a[2]->val()});
      if (e->aux == UF_MODNEG && e->a[1]->op == CONST) mods.insert({0, e->a[1]->val()});
    }
    if (e->op == UREM && e->a[1]->op == CONST) mods.insert({1, e->a[1]->val()});
    for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
}
}  // namespace

int algebraProve(E a, E b) {
  if (a == b) return 1;
  g_algTried++;
  std::set<std::pair<uint32_t, u256>> mods;
  bool gf = false, cl = false;
  scan(a, mods, gf, cl);
  scan(b, mods, gf, cl);
  std::set<std::string> done;
  for (auto& m : mods) {
    u256 p = m.second;
    if (!done.insert(hex(p)).second || p < 2) continue;
    if (range(a).hi < p && range(b).hi < p && tryRing(RMOD, a->w, p, a, b)) { g_algProved++; return 1; }
  }
  if (a->w <= 128 && (gf && !cl) && tryRing(RGF, 128, 0, a, b)) { g_algProved++; return 1; }
  if (!gf && !cl && tryRing(RBV, a->w, 0, a, b)) { g_algProved++; return 1; }
  if (!gf && !cl && a->w >= 8 && a->w <= 128) {
    // sums of high halves: compare 2^k * a and 2^k * b
    std::set<unsigned> ks;
    std::unordered_set<uint32_t> seen;
    std::vector<E> st{a, b};
    while (!st.empty()) {
      E e = st.back();
      st.pop_back();
      if (e->w != a->w || !seen.insert(e->id).second) continue;
      if (e->op == EXTRACT && e->aux > 0 && e->aux + e->w == e->a[0]->w && e->a[0]->w <= 256) ks.insert(e->aux);
      if (e->op == ADD || e->op == ITE || e->op == MUL)
        for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
    }
    for (unsigned k : ks)
      if (ks.size() <= 3 && tryRing(RBV, a->w + k, 0, mkConcat(a, mkConst(0, k)), mkConcat(b, mkConst(0, k)))) { g_algProved++; return 1; }
  }
  if (a->w <= 256 && tryAnf(a, b)) { g_algProved++; return 1; }
  if (!gf && a->w == 128 && tryRing(RGF, 128, 0, a, b)) { g_algProved++; return 1; }
  return 0;
}
