// symx: symbolic executor for LLVM bitcode.  One process per path group: a
// branch with two feasible sides forks the process.
#include "symx.h"
#include "sx_hash.h"
#include <algorithm>
#include <cmath>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <semaphore.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
using namespace llvm;

// ------------------------------------------------------------------ shared
struct Shared {
  SolverStats st;
  sem_t tokens;
  volatile int stop;        // a violation was found
  volatile int incon;       // number of inconclusive events
  volatile int viol;
  volatile uint64_t races;
};
static Shared* sh;
static std::string outDir, entryName;
static bool concrete = false;
static uint64_t concSeed = 1;
static bool haveAssign = false;
static std::map<std::string, u256> assign;
static uint64_t maxInsts = 2000000000ull, deadlineUs = 0, maxPaths = 1000000;
static uint64_t myInsts = 0;
static std::set<std::string> usedFns;
static std::vector<pid_t> kids;
static bool isRoot = true;
static int ompThreads = 1;
static bool schedExplore = false;
static bool raceOn = false;
static unsigned sampleCount = 0;

[[noreturn]] static void finish(int code);
static std::string demangle(const std::string& n) {
  int st;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : n;
  free(d);
  return r;
}
static std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}

// ------------------------------------------------------------------ engine
enum HR { HDONE, HSWITCH, HRETRY };
struct Engine;
typedef HR (*Handler)(Engine&, DI&, std::vector<E>&, E&);

struct Engine {
  Module* M;
  const DataLayout* DL;
  Solver sol;
  std::vector<Obj> objs;
  std::unordered_map<const GlobalValue*, uint64_t> gaddr;
  std::unordered_map<const Function*, Fn*> fns;
  std::vector<Thread*> th;
  int cur = 0;
  std::map<std::string, Handler> ext;
  std::map<uint64_t, uint64_t> excType;
  std::map<std::string, uint64_t> extTypeinfo;
  std::map<uint64_t, int> critOwner;
  std::map<uint64_t, VC> lockVC;
  std::map<std::string, std::string> intercept;
  uint64_t modeFlags = 0;
  std::map<std::string, uint64_t> modes;
  std::vector<std::string> trace;   // branch decisions (for samples)
  struct Sh { uint32_t wt = 0, wc = 0; std::map<uint32_t, uint32_t> rd; };
  std::unordered_map<uint64_t, Sh> shadow;

  Thread& T() { return *th[cur]; }
  Frame& F() { return T().st.back(); }

  // ---- reports
  std::string where() {
    std::string s;
    Thread& t = T();
    int n = 0;
    for (int i = (int)t.st.size() - 1; i >= 0 && n < 8; i--, n++) {
      Frame& f = t.st[i];
      std::string l = demangle(f.f->name);
      if (l.size() > 160) l = l.substr(0, 160) + "...";
      if (f.ip < (int)f.f->code.size() && f.f->code[f.ip].I) {
        if (auto& dl = f.f->code[f.ip].I->getDebugLoc()) {
          std::string fn = dl->getFilename().str();
          size_t p = fn.rfind('/');
          l += " (" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(dl.getLine()) + ")";
        }
      }
      s += (n ? " <- " : "") + l;
    }
    return s;
  }
  std::string modelJson(const Model& m) {
    std::string s = "\"inputs\": {";
    bool first = true;
    Evaluator ev(m);
    for (size_t i = 0; i < g_vars.size(); i++) {
      if (g_vars[i].uninit) continue;
      auto it = m.v.find(i);
      u256 v = it != m.v.end() ? it->second : ev(mkVarOf(i));
      s += (first ? "\n  " : ",\n  ") + std::string("\"") + esc(g_vars[i].name) + "\": \"" + hex(v) + "\"";
      first = false;
    }
    for (auto& p : picks) {
      s += (first ? "\n  " : ",\n  ") + std::string("\"") + esc(p.first) + "\": \"" + hex(p.second) + "\"";
      first = false;
    }
    s += "}";
    if (m.useAesTable) {
      s += ", \"aes\": {";
      first = true;
      for (auto& k : m.aes) {
        s += (first ? "" : ", ") + std::string("\"") + k.first + "\": \"" + hex(k.second) + "\"";
        first = false;
      }
      s += "}";
    }
    return s;
  }
  std::vector<std::pair<std::string, u256>> picks;
  static E mkVarOf(uint32_t i) {
    return mkVarById(i);
  }
  static E mkVarById(uint32_t i);

  bool pcModel(Model& m) {
    for (auto& x : sol.models) { m = x; return true; }
    std::string why;
    int r = sol.prove(mkFalse(), m, why);
    return r == 0;
  }
  void violation(const std::string& kind, const std::string& label, const Model& m) {
    if (concrete) {
      printf("VIOL %s %s\n", kind.c_str(), label.c_str());
      fflush(stdout);
      finish(1);
    }
    __sync_fetch_and_add(&sh->viol, 1);
    sh->stop = 1;
    std::string fn = outDir + "/viol." + std::to_string(getpid()) + "." + std::to_string(sh->viol) + ".json";
    std::ofstream o(fn);
    o << "{\"entry\": \"" << entryName << "\", \"kind\": \"" << kind << "\", \"label\": \"" << esc(label) << "\",\n \"where\": \"" << esc(where()) << "\",\n " << modelJson(m)
      << "}\n";
    o.close();
    finish(1);
  }
  // Violation at the current path (any model).
  void violHere(const std::string& kind, const std::string& label) {
    Model m;
    if (!concrete && !pcModel(m)) {
      inconclusive("no model for " + kind + " " + label);
    }
    violation(kind, label, m);
  }
  [[noreturn]] void inconclusive(const std::string& why) {
    __sync_fetch_and_add(&sh->incon, 1);
    std::ofstream o(outDir + "/incon." + std::to_string(getpid()));
    o << why << "\n  at " << (T().st.empty() ? std::string("?") : where()) << "\n";
    o.close();
    if (concrete) { printf("INCON %s at %s\n", why.c_str(), where().c_str()); fflush(stdout); }
    finish(2);
  }

  // ---- forking
  // Forks one process per condition; returns the index to follow.
  int fork_(const std::vector<E>& conds, const std::vector<Model>& hits) {
    if (sh->stop) finish(0);
    // A bound on the decisions of a path, where a harness sets one: what lies beyond is not explored.
    if (maxDecisions && ++decisions > maxDecisions) { __sync_fetch_and_add(&sh->st.assumesDropped, 1); finish(0); }
    if (sh->st.paths + sh->st.branches > maxPaths) inconclusive("path limit");
    int n = conds.size();
    for (int i = 0; i < n - 1; i++) {
      __sync_fetch_and_add(&sh->st.branches, 1);
      bool tok = sem_trywait(&sh->tokens) == 0;
      fflush(stdout);
      pid_t p = fork();
      if (p < 0) {
        if (tok) sem_post(&sh->tokens);
        inconclusive("fork failed");
      }
      if (p == 0) {
        isRoot = false;
        kids.clear();
        ownToken = tok;
        usedFns.clear();
        myInsts = 0;
        sol.hit = hits[i];
        sol.assume(conds[i]);
        return i;
      }
      if (!tok) {
        waitKid(p);
        if (sh->stop) finish(0);
      } else {
        kids.push_back(p);
        // reap
        for (size_t k = 0; k < kids.size();) {
          int st;
          if (waitpid(kids[k], &st, WNOHANG) == kids[k]) {
            noteExit(st);
            kids.erase(kids.begin() + k);
          } else
            k++;
        }
      }
    }
    sol.hit = hits[n - 1];
    sol.assume(conds[n - 1]);
    return n - 1;
  }
  static bool ownToken;
  static void noteExit(int st) {
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 2)) {
      __sync_fetch_and_add(&sh->incon, 1);
      std::ofstream o(outDir + "/incon.crash." + std::to_string(getpid()));
      o << "child crashed, status " << st << "\n";
    }
  }
  static void waitKid(pid_t p) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    noteExit(st);
  }

  // Takes a boolean decision, forking when both sides are possible.
  bool decide(E c) {
    c = sol.simp(c);
    if (c->isConst()) return c->val() != 0;
    if (concrete) inconclusive("symbolic branch in concrete mode: " + show(c));
    if (nowMicros() > deadlineUs) inconclusive("time budget");
    E nc = mkXor(c, mkTrue());
    Sat a = sol.feasible(c);
    Model h1 = sol.hit;
    if (a == Sat::NO) { return false; }
    Sat b = sol.feasible(nc);
    Model h2 = sol.hit;
    if (b == Sat::NO) { return true; }
    if (a == Sat::UNKNOWN) h1 = Model();
    if (b == Sat::UNKNOWN) h2 = Model();
    int k = fork_({c, nc}, {h1, h2});
    return k == 0;
  }
  // Syntactic over-approximation of the values of e.
  bool possible(E e, size_t cap, std::set<u256>& out, int depth = 0) {
    if (depth > 40) return false;
    if (e->isConst()) { out.insert(e->val()); return out.size() <= cap; }
    switch (e->op) {
      case ITE: return possible(e->a[1], cap, out, depth + 1) && possible(e->a[2], cap, out, depth + 1);
      case VAR: {
        const VarInfo& v = g_vars[e->aux];
        if (v.hi - v.lo >= cap) return false;
        for (u256 x = v.lo; x <= v.hi; x++) out.insert(x);
        return out.size() <= cap;
      }
      case ADD: case MUL: case XOR: case AND: case OR: case CONCAT: {
        std::set<u256> acc;
        if (!possible(e->a[0], cap, acc, depth + 1)) return false;
        unsigned w = e->a[0]->w;
        for (uint32_t i = 1; i < e->n; i++) {
          std::set<u256> s2, nx;
          if (!possible(e->a[i], cap, s2, depth + 1)) return false;
          for (u256 x : acc)
            for (u256 y : s2) {
              u256 r;
              switch (e->op) {
                case ADD: r = x + y; break;
                case MUL: r = x * y; break;
                case XOR: r = x ^ y; break;
                case AND: r = x & y; break;
                case OR: r = x | y; break;
                default: r = (x << e->a[i]->w) | y;
              }
              nx.insert(r & maskw(e->op == CONCAT ? w + e->a[i]->w : e->w));
              if (nx.size() > cap) return false;
            }
          acc.swap(nx);
          w += e->a[i]->w;
        }
        for (u256 x : acc) out.insert(x);
        return out.size() <= cap;
      }
      case EXTRACT: {
        std::set<u256> s;
        if (!possible(e->a[0], cap, s, depth + 1)) return false;
        for (u256 x : s) out.insert((x >> e->aux) & maskw(e->w));
        return out.size() <= cap;
      }
      case SEXT: {
        std::set<u256> s;
        if (!possible(e->a[0], cap, s, depth + 1)) return false;
        for (u256 x : s) {
          unsigned w = e->a[0]->w;
          if ((x >> (w - 1)) & 1) x |= maskw(e->w) & ~maskw(w);
          out.insert(x);
        }
        return out.size() <= cap;
      }
      case EQ: case ULT: case SLT:
        out.insert(0); out.insert(1);
        return out.size() <= cap;
      default: return false;
    }
  }
  u256 concretize(E e, unsigned cap, const char* what) {
    e = sol.simp(e);
    if (e->isConst()) return e->val();
    if (concrete) inconclusive(std::string("symbolic value in concrete mode: ") + what);
    std::vector<u256> vals;
    if (!sol.enumerate(e, cap, vals)) inconclusive(std::string("too many values for ") + what + ": " + show(e));
    if (vals.empty()) finish(0);
    std::sort(vals.begin(), vals.end());
    std::vector<E> cs;
    std::vector<Model> hs;
    for (u256 v : vals) {
      E c = mkEq(e, mkConst(v, e->w));
      cs.push_back(c);
      Model h;
      for (auto& m : sol.models)
        if (evalE(c, m) != 0) h = m;
      hs.push_back(h);
    }
    int k = vals.size() == 1 ? (sol.assume(cs[0]), 0) : fork_(cs, hs);
    return vals[k];
  }

  // ---- memory
  uint64_t newObj(uint64_t size, ObjKind k, const std::string& name = "") {
    if (size > (1ull << 28)) inconclusive("object too large: " + std::to_string(size));
    objs.emplace_back();
    Obj& o = objs.back();
    o.size = size;
    o.kind = k;
    o.name = name;
    o.d.assign(size, 0);
    o.st.assign(size, 0);
    return (uint64_t)(objs.size() - 1) << 32;
  }
  Obj* objAt(uint64_t a) {
    uint64_t id = a >> 32;
    if (id == 0 || id >= objs.size()) return nullptr;
    return &objs[id];
  }
  // nullptr when [a, a+n) is fine; otherwise what is wrong.
  const char* badAccess(uint64_t a, uint64_t n, bool wr) {
    if (n == 0) return nullptr;
    if ((a >> 32) == 0) return "null or wild pointer";
    Obj* o = objAt(a);
    if (!o) return "wild pointer";
    if (o->kind == OFUNC) return "access to code";
    if (!o->alive) return o->kind == OSTACK ? "use of a dead stack object" : "use after free";
    uint64_t off = a & 0xffffffffu;
    if (off + n > o->size) return "out-of-bounds access";
    if (wr && o->ro) return "write to constant memory";
    return nullptr;
  }
  void raceCheck(uint64_t a, uint64_t n, bool wr) {
    Thread& t = T();
    if (!t.team || t.team->n < 2) return;
    if (t.vc.size() <= (size_t)t.id) t.vc.resize(t.id + 1);
    for (uint64_t i = 0; i < n; i++) {
      Sh& s = shadow[a + i];
      auto seen = [&](uint32_t u, uint32_t c) { return u == (uint32_t)t.id || (u < t.vc.size() && t.vc[u] >= c); };
      bool race = false;
      if (s.wc && !seen(s.wt, s.wc)) race = true;
      if (wr)
        for (auto& r : s.rd)
          if (!seen(r.first, r.second)) race = true;
      if (race) {
        violHere("race", std::string("data race (") + (wr ? "write" : "read") + ") on " + objs[a >> 32].name);
      }
      if (wr) {
        s.wt = t.id;
        s.wc = t.vc[t.id];
        s.rd.clear();
      } else
        s.rd[t.id] = t.vc[t.id];
    }
  }
  void chk(uint64_t a, uint64_t n, bool wr) {
    if (const char* b = badAccess(a, n, wr)) {
      violHere("memory", std::string(b) + (wr ? " (write of " : " (read of ") + std::to_string(n) + " bytes)");
    }
    if (raceOn) raceCheck(a, n, wr);
  }
  E rawLoad(uint64_t a, unsigned n) {  // n bytes, checked
    Obj& o = objs[a >> 32];
    uint64_t off = a & 0xffffffffu;
    bool allc = true, allu = true;
    for (unsigned i = 0; i < n; i++) {
      uint8_t s = o.st[off + i];
      if (s != 1) allc = false;
      if (s != 0) allu = false;
    }
    if (allc) {
      u256 v = 0;
      if (n <= 8) {
        uint64_t x = 0;
        memcpy(&x, &o.d[off], n);
        v = x;
      } else
        memcpy((void*)&v, &o.d[off], n);
      return mkConst(v, 8 * n);
    }
    if (allu) {
      E v = mkVar("uninit" + std::to_string(g_vars.size()), 8 * n, true);
      rawStore(a, v, n);
      return v;
    }
    std::vector<E> parts;  // low to high
    for (unsigned i = 0; i < n;) {
      uint8_t s = o.st[off + i];
      if (s == 1) {
        unsigned j = i;
        u256 v = 0;
        while (j < n && o.st[off + j] == 1) {
          v |= (u256)o.d[off + j] << (8 * (j - i));
          j++;
        }
        parts.push_back(mkConst(v, 8 * (j - i)));
        i = j;
      } else if (s == 0) {
        E v = mkVar("uninit" + std::to_string(g_vars.size()), 8, true);
        if (o.sym.empty()) o.sym.resize(o.size);
        o.sym[off + i] = {v, 0};
        o.st[off + i] = 2;
        parts.push_back(v);
        i++;
      } else {
        Cell c = o.sym[off + i];
        unsigned j = i + 1;
        while (j < n && o.st[off + j] == 2 && o.sym[off + j].e == c.e && o.sym[off + j].i == c.i + (j - i)) j++;
        unsigned lo = 8 * c.i, hi = 8 * (c.i + (j - i)) - 1;
        E x;
        if (hi >= c.e->w) x = mkExtract(mkZExt(c.e, hi + 1), hi, lo);
        else x = mkExtract(c.e, hi, lo);
        parts.push_back(x);
        i = j;
      }
    }
    std::reverse(parts.begin(), parts.end());
    return mkConcatN(parts);
  }
  void rawStore(uint64_t a, E v, unsigned n) {
    Obj& o = objs[a >> 32];
    uint64_t off = a & 0xffffffffu;
    if (v->isConst()) {
      u256 x = v->val();
      if (n <= 32) memcpy(&o.d[off], (void*)&x, n);
      memset(&o.st[off], 1, n);
      return;
    }
    if (o.sym.empty()) o.sym.resize(o.size);
    if (v->w < 8 * n) v = mkZExt(v, 8 * n);
    if (v->isConst()) return rawStore(a, v, n);
    for (unsigned i = 0; i < n; i++) {
      o.sym[off + i] = {v, i};
      o.st[off + i] = 2;
    }
  }
  void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj &od = objs[d >> 32], &os = objs[s >> 32];
    uint64_t a = d & 0xffffffffu, b = s & 0xffffffffu;
    bool anySym = false;
    for (uint64_t i = 0; i < n && !anySym; i++) anySym = os.st[b + i] == 2;
    if (anySym) {
      if (od.sym.empty()) od.sym.resize(od.size);
      std::vector<Cell> tmp(os.sym.begin() + b, os.sym.begin() + b + n);
      std::copy(tmp.begin(), tmp.end(), od.sym.begin() + a);
    }
    memmove(&od.d[a], &os.d[b], n);
    memmove(&od.st[a], &os.st[b], n);
  }
  // Should a symbolic address become one path per value?  Race detection needs exact
  // accesses; a harness asks for it where addresses decide the shape of what follows.
  bool splitAddr() { return !concrete && (splitOn || (raceOn && T().team && T().team->n > 1)); }
  bool splitOn = false;
  uint64_t maxDecisions = 0, decisions = 0;
  struct Cand { E c; uint64_t a; };
  void resolve(E addr, uint64_t n, bool wr, std::vector<Cand>& out) {
    addr = sol.simp(addr);
    if (addr->isConst()) {
      uint64_t a = cu64(addr);
      chk(a, n, wr);
      out.push_back({mkTrue(), a});
      return;
    }
    if (concrete) {
      inconclusive("symbolic address in concrete mode");
    }
    std::set<u256> vals;
    if (!possible(addr, 2048, vals)) {
      vals.clear();
      // one object, all offsets congruent
      Model m;
      bool done = false;
      if (pcModel(m)) {
        uint64_t a0 = (uint64_t)evalE(addr, m);
        Obj* o = objAt(a0);
        if (o && o->alive && o->size >= n && o->kind != OFUNC) {
          uint64_t base = a0 & ~0xffffffffull;
          E in = mkUle(mkAdd(addr, mkC(-base, 64)), mkC(o->size - n, 64));
          Model cex;
          std::string why;
          int r = sol.prove(in, cex, why);
          if (r == 0) {
            // Is it a different object or a bad access?
            uint64_t a1 = (uint64_t)evalE(addr, cex);
            if (const char* b = badAccess(a1, n, wr)) {
              violation("memory", std::string(b) + (wr ? " (write of " : " (read of ") + std::to_string(n) + " bytes)", cex);
            }
          } else if (r == 1) {
            u256 g = 0;
            auto gcd = [](u256 x, u256 y) { while (y != 0) { u256 t = x % y; x = y; y = t; } return x; };
            std::vector<E> terms;
            if (addr->op == ADD) for (uint32_t i = 0; i < addr->n; i++) terms.push_back(addr->a[i]);
            else terms.push_back(addr);
            bool ok = true;
            for (E t : terms) {
              if (t->isConst()) continue;
              u256 k = 1;
              if (t->op == MUL && t->a[0]->isConst()) k = t->a[0]->val();
              else if (t->op == MUL && t->a[t->n - 1]->isConst()) k = t->a[t->n - 1]->val();
              else if (t->op == SHL && t->a[1]->isConst()) k = (u256)1 << (unsigned)t->a[1]->val();
              else if (t->op == CONCAT && isZero(t->a[t->n - 1])) k = (u256)1 << t->a[t->n - 1]->w;
              if (k >> 40) k = k & (~k + 1);
              g = gcd(g, k);
            }
            if (g == 0) g = 1;
            uint64_t gg = (uint64_t)g, off0 = a0 & 0xffffffffu;
            uint64_t first = off0 % gg;
            if ((gg & (gg - 1)) != 0) {
              // wrap-around cannot occur when the range of the sum is small
              if (range(addr).hi >> 62) { gg = gg & (~gg + 1); first = off0 % gg; }
            }
            if (ok && (o->size - n) / gg < 4096) {
              for (uint64_t x = first; x + n <= o->size; x += gg) vals.insert((u256)(base + x));
              done = true;
            }
          }
        }
      }
      if (!done) {
        std::vector<u256> v;
        if (!sol.enumerate(addr, 256, v)) inconclusive("symbolic address: " + show(addr, 6));
        vals.insert(v.begin(), v.end());
      }
    }
    for (u256 v : vals) {
      uint64_t a = (uint64_t)v;
      E c = mkEq(addr, mkC(a, 64));
      if (isFalse(c)) continue;
      if (const char* b = badAccess(a, n, wr)) {
        Sat s = sol.feasible(c);
        if (s == Sat::NO) continue;
        if (s == Sat::UNKNOWN) inconclusive("cannot decide an access");
        Model m = sol.hit;
        if (isTrue(sol.simp(c)) && !pcModel(m)) inconclusive("no model");
        violation("memory", std::string(b) + (wr ? " (write of " : " (read of ") + std::to_string(n) + " bytes)", m);
      }
      out.push_back({c, a});
    }
    if (out.empty()) finish(0);
    if (raceOn) for (auto& c : out) raceCheck(c.a, n, wr);
  }
  E loadV(E addr, unsigned n) {
    if (addr->isConst()) {
      uint64_t a = cu64(addr);
      chk(a, n, false);
      return rawLoad(a, n);
    }
    if (splitAddr()) {
      uint64_t a = (uint64_t)concretize(addr, 4096, "address");
      chk(a, n, false);
      return rawLoad(a, n);
    }
    std::vector<Cand> cs;
    resolve(addr, n, false, cs);
    if (cs.size() == 1) return rawLoad(cs[0].a, n);
    // group equal values
    std::vector<std::pair<E, E>> groups;
    std::map<uint32_t, size_t> idx;
    for (auto& c : cs) {
      E v = rawLoad(c.a, n);
      auto it = idx.find(v->id);
      if (it == idx.end()) {
        idx[v->id] = groups.size();
        groups.push_back({v, c.c});
      } else
        groups[it->second].second = mkOr(groups[it->second].second, c.c);
    }
    E r = groups.back().first;
    for (int i = (int)groups.size() - 2; i >= 0; i--) r = mkIte(groups[i].second, groups[i].first, r);
    return r;
  }
  void storeV(E addr, E v, unsigned n) {
    if (addr->isConst()) {
      uint64_t a = cu64(addr);
      chk(a, n, true);
      rawStore(a, v, n);
      return;
    }
    if (splitAddr()) {
      uint64_t a = (uint64_t)concretize(addr, 4096, "address");
      chk(a, n, true);
      rawStore(a, v, n);
      return;
    }
    std::vector<Cand> cs;
    resolve(addr, n, true, cs);
    if (v->w < 8 * n) v = mkZExt(v, 8 * n);
    if (cs.size() == 1) return rawStore(cs[0].a, v, n);
    for (auto& c : cs) rawStore(c.a, mkIte(c.c, v, rawLoad(c.a, n)), n);
  }
  uint64_t cptr(E e, const char* what) { return (uint64_t)concretize(e, 64, what); }
  std::string cstr(uint64_t a) {
    std::string s;
    for (;;) {
      chk(a, 1, false);
      E b = rawLoad(a, 1);
      if (!b->isConst()) inconclusive("symbolic string");
      char c = (char)cu64(b);
      if (!c) return s;
      s += c;
      a++;
      if (s.size() > 100000) inconclusive("long string");
    }
  }

  // ---- types and constants
  unsigned bits(Type* t) {
    if (t->isVoidTy()) return 0;
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isFP128Ty()) return 128;
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * bits(v->getElementType());
    if (auto* s = dyn_cast<StructType>(t)) {
      unsigned n = 0;
      for (Type* e : s->elements()) n += bits(e);
      return n;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * bits(a->getElementType());
    return 0;
  }
  uint64_t addrOf(const GlobalValue* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* al = dyn_cast<GlobalAlias>(g)) {
      E e = constE(al->getAliasee());
      return gaddr[g] = cu64(e);
    }
    if (auto* f = dyn_cast<Function>(g)) {
      if (f->isDeclaration() && f->hasExternalWeakLinkage() && f->getName().startswith("_ZTH")) return gaddr[g] = 0;
      uint64_t a = newObj(16, OFUNC, f->getName().str());
      objs.back().fn = const_cast<Function*>(f);
      return gaddr[g] = a;
    }
    auto* v = cast<GlobalVariable>(g);
    uint64_t sz = v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()) : 0;
    if (v->isDeclaration() && sz < 64) sz = 64;
    uint64_t a = newObj(sz, OGLOBAL, v->getName().str());
    std::fill(objs.back().st.begin(), objs.back().st.end(), 1);
    if (v->getName() == "__libc_single_threaded") objs.back().d[0] = 1;
    return gaddr[g] = a;
  }
  u256 apToU(const APInt& v) {
    u256 r = 0;
    for (unsigned i = 0; i < v.getNumWords() && i < 4; i++) r |= (u256)v.getRawData()[i] << (64 * i);
    return r;
  }
  // nullptr for undef
  E constE(const Constant* c) {
    unsigned w = bits(c->getType());
    if (w > 256) return mkC(0, 256);
    if (auto* i = dyn_cast<ConstantInt>(c)) return mkConst(apToU(i->getValue()), w);
    if (auto* f = dyn_cast<ConstantFP>(c)) return mkConst(apToU(f->getValueAPF().bitcastToAPInt()), w);
    if (isa<ConstantPointerNull>(c)) return mkC(0, 64);
    if (isa<UndefValue>(c)) return w && (c->getType()->isIntegerTy() || c->getType()->isPointerTy()) ? nullptr : mkC(0, w ? w : 1);
    if (isa<ConstantAggregateZero>(c)) return mkC(0, w ? w : 1);
    if (auto* g = dyn_cast<GlobalValue>(c)) return mkC(addrOf(g), 64);
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
      u256 r = 0;
      unsigned ew = bits(s->getElementType());
      for (unsigned i = 0; i < s->getNumElements(); i++) r |= constE(s->getElementAsConstant(i))->val() << (i * ew);
      return mkConst(r, w);
    }
    if (isa<ConstantVector>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
      u256 r = 0;
      unsigned o = 0;
      for (unsigned i = 0; i < c->getNumOperands(); i++) {
        auto* x = cast<Constant>(c->getOperand(i));
        E e = constE(x);
        unsigned ew = bits(x->getType());
        if (e && ew) r |= e->val() << o;
        o += ew;
      }
      return mkConst(r, w);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      auto op = [&](unsigned i) { E e = constE(cast<Constant>(ce->getOperand(i))); return e ? e : mkC(0, bits(ce->getOperand(i)->getType())); };
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) inconclusive("constant gep");
          return mkC(cu64(op(0)) + off.getSExtValue(), 64);
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
          return mkZExt(mkTrunc(op(0), std::min<unsigned>(w, op(0)->w)), w);
        case Instruction::Add: return mkAdd(op(0), op(1));
        case Instruction::Sub: return mkSub(op(0), op(1));
        case Instruction::Mul: return mkMul(op(0), op(1));
        case Instruction::And: return mkAnd(op(0), op(1));
        case Instruction::Or: return mkOr(op(0), op(1));
        case Instruction::Xor: return mkXor(op(0), op(1));
        case Instruction::Shl: return mkShl(op(0), op(1));
        case Instruction::LShr: return mkLShr(op(0), op(1));
        case Instruction::Select: return op(0)->val() != 0 ? op(1) : op(2);
        case Instruction::ICmp:
          if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkEq(op(0), op(1));
          if (ce->getPredicate() == CmpInst::ICMP_NE) return mkNot(mkEq(op(0), op(1)));
          break;
        default: break;
      }
      inconclusive(std::string("constant expression ") + ce->getOpcodeName());
    }
    if (isa<BlockAddress>(c)) inconclusive("blockaddress");
    inconclusive("constant kind");
  }
  void initMem(uint64_t a, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) return;  // already zero
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
      StringRef raw = s->getRawDataValues();
      memcpy(&objs[a >> 32].d[a & 0xffffffffu], raw.data(), raw.size());
      return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(s->getType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(a + sl->getElementOffset(i), s->getOperand(i));
      return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      Type* et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(a + i * es, cast<Constant>(c->getOperand(i)));
      return;
    }
    E e = constE(c);
    if (e) rawStore(a, e, DL->getTypeStoreSize(t));
  }
  void initGlobals() {
    objs.emplace_back();  // id 0
    objs[0].alive = false;
    for (auto& f : M->functions()) if (!f.isIntrinsic()) addrOf(&f);
    for (auto& g : M->globals()) addrOf(&g);
    for (auto& g : M->globals())
      if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
        initMem(gaddr[&g], g.getInitializer());
        objs[gaddr[&g] >> 32].ro = g.isConstant() && g.hasLocalLinkage();
      }
  }

  // ---- decoding
  Fn* fnOf(Function* f) {
    auto it = fns.find(f);
    if (it != fns.end()) return it->second;
    Fn* r = new Fn;
    r->F = f;
    r->name = f->getName().str();
    return fns[f] = r;
  }
  void decode(Fn* fn) {
    fn->decoded = true;
    Function* F = fn->F;
    std::unordered_map<const Value*, int> reg;
    std::unordered_map<const BasicBlock*, int> bbi;
    int n = 0;
    for (auto& a : F->args()) reg[&a] = n++;
    int b = 0;
    for (auto& bb : *F) {
      bbi[&bb] = b++;
      for (auto& i : bb)
        if (!i.getType()->isVoidTy()) reg[&i] = n++;
    }
    fn->nregs = n;
    auto opnd = [&](const Value* v) -> DOp {
      auto it = reg.find(v);
      if (it != reg.end()) return {it->second, nullptr};
      if (auto* c = dyn_cast<Constant>(v)) return {-1, constE(c)};
      return {-1, mkC(0, 64)};
    };
    fn->bbs.resize(b);
    b = 0;
    for (auto& bb : *F) {
      BB& B = fn->bbs[b++];
      for (auto& p : bb.phis()) {
        Phi ph;
        ph.dst = reg[&p];
        ph.w = bits(p.getType());
        for (unsigned i = 0; i < p.getNumIncomingValues(); i++) ph.in[bbi[p.getIncomingBlock(i)]] = opnd(p.getIncomingValue(i));
        B.phis.push_back(ph);
      }
      B.first = fn->code.size();
      for (auto& i : bb) {
        if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
        DI d;
        d.I = &i;
        d.opc = i.getOpcode();
        d.w = bits(i.getType());
        if (!i.getType()->isVoidTy()) d.dst = reg[&i];
        if (auto* cb = dyn_cast<CallBase>(&i)) {
          for (auto& a : cb->args()) {
            d.ops.push_back(a->getType()->isMetadataTy() ? DOp{-1, mkC(0, 1)} : opnd(a.get()));
            d.opw.push_back(bits(a->getType()));
          }
          d.calleeF = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
            d.calleeF = dyn_cast<Function>(al->getAliaseeObject());
          d.ops.push_back(isa<InlineAsm>(cb->getCalledOperand()) ? DOp{-1, mkC(0, 64)} : opnd(cb->getCalledOperand()));
          d.opw.push_back(64);
          if (auto* iv = dyn_cast<InvokeInst>(cb)) {
            d.t1 = bbi[iv->getNormalDest()];
            d.t2 = bbi[iv->getUnwindDest()];
          }
        } else {
          for (auto& o : i.operands()) {
            if (isa<BasicBlock>(o.get()) || o->getType()->isMetadataTy()) continue;
            d.ops.push_back(opnd(o.get()));
            d.opw.push_back(bits(o->getType()));
          }
        }
        if (auto* br = dyn_cast<BranchInst>(&i)) {
          d.t1 = bbi[br->getSuccessor(0)];
          if (br->isConditional()) d.t2 = bbi[br->getSuccessor(1)];
        }
        if (auto* sw = dyn_cast<SwitchInst>(&i)) {
          d.t1 = bbi[sw->getDefaultDest()];
          for (auto& c : sw->cases()) d.cases.push_back({apToU(c.getCaseValue()->getValue()), bbi[c.getCaseSuccessor()]});
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
          if (g->getType()->isVectorTy()) d.opc = 9999;
          unsigned k = 1;
          for (auto gti = gep_type_begin(g); gti != gep_type_end(g); ++gti, ++k) {
            Value* ix = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) {
              d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) d.off += ci->getSExtValue() * sc;
              else d.gep.push_back({k, sc});
            }
          }
        }
        Type* vt = i.getType();
        if ((isa<CmpInst>(i) || isa<StoreInst>(i) || isa<CastInst>(i)) && i.getNumOperands()) vt = i.getOperand(0)->getType();
        if (auto* v = dyn_cast<FixedVectorType>(vt)) { d.lanes = v->getNumElements(); d.ew = bits(v->getElementType()); }
        if (auto* c = dyn_cast<CmpInst>(&i)) d.pred = c->getPredicate();
        if (auto* s = dyn_cast<ShuffleVectorInst>(&i)) {
          for (int m : s->getShuffleMask()) d.mask.push_back(m);
          auto* v = cast<FixedVectorType>(s->getOperand(0)->getType());
          d.lanes = v->getNumElements();
          d.ew = bits(v->getElementType());
        }
        if (isa<LoadInst>(i)) d.bytes = DL->getTypeStoreSize(i.getType());
        if (auto* s = dyn_cast<StoreInst>(&i)) d.bytes = DL->getTypeStoreSize(s->getValueOperand()->getType());
        if (d.w > 256 || (isa<StoreInst>(i) && d.opw[0] > 256)) d.opc = 9998;
        fn->code.push_back(std::move(d));
      }
    }
  }
  E get(const DOp& o, unsigned w) {
    if (o.reg >= 0) return F().r[o.reg];
    if (o.c) return o.c;
    return mkVar("undef" + std::to_string(g_vars.size()), w ? w : 1, true);
  }
  // ---- calls
  void pushFrame(Thread& t, Function* f, const std::vector<E>& args) {
    Fn* fn = fnOf(f);
    if (!fn->decoded) {
      decode(fn);
    }
    if (t.st.size() > 3000) inconclusive("stack depth");
    usedFns.insert(fn->name);
    t.st.emplace_back();
    Frame& fr = t.st.back();
    fr.f = fn;
    fr.r.assign(fn->nregs, nullptr);
    size_t na = f->arg_size();
    for (size_t i = 0; i < args.size(); i++) {
      if (i < na) fr.r[i] = args[i];
      else fr.varargs.push_back(args[i]);
    }
    // by-value aggregates are copied by the callee's caller; model the copy here
    for (auto& a : f->args())
      if (a.hasByValAttr()) {
        uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
        uint64_t p = newObj(sz, OSTACK, "byval");
        fr.allocas.push_back(p >> 32);
        E src = fr.r[a.getArgNo()];
        uint64_t s = cptr(src, "byval");
        chk(s, sz, false);
        copyBytes(p, s, sz);
        T();
        t.st.back().r[a.getArgNo()] = mkC(p, 64);
      }
    enter(t.st.back(), 0, -1);
  }
  void enter(Frame& f, int bb, int from) {
    BB& B = f.f->bbs[bb];
    if (!B.phis.empty()) {
      E tmp[64];
      std::vector<E> big;
      E* v = tmp;
      if (B.phis.size() > 64) { big.resize(B.phis.size()); v = big.data(); }
      for (size_t i = 0; i < B.phis.size(); i++) {
        auto& o = B.phis[i].in[from];
        v[i] = o.reg >= 0 ? f.r[o.reg] : o.c ? o.c : mkVar("undef" + std::to_string(g_vars.size()), B.phis[i].w, true);
      }
      for (size_t i = 0; i < B.phis.size(); i++) f.r[B.phis[i].dst] = v[i];
    }
    f.bb = bb;
    f.ip = B.first;
  }
  void jump(int bb) {
    Frame& f = F();
    enter(f, bb, f.bb);
  }
  // Completes the call instruction at the top frame.
  void completeCall(E ret) {
    Frame& f = F();
    DI& d = f.f->code[f.ip];
    if (d.dst >= 0) {
      if (!ret) ret = mkVar("undef" + std::to_string(g_vars.size()), d.w, true);
      if (ret->w != d.w) inconclusive("return width of " + d.I->getFunction()->getName().str());
      f.r[d.dst] = ret;
    }
    if (d.opc == Instruction::Invoke) jump(d.t1);
    else f.ip++;
  }
  void popFrame() {
    Frame& f = F();
    for (uint32_t id : f.allocas) {
      Obj& o = objs[id];
      o.alive = false;
      std::vector<uint8_t>().swap(o.d);
      std::vector<uint8_t>().swap(o.st);
      std::vector<Cell>().swap(o.sym);
    }
    T().st.pop_back();
  }
  void onReturn(int hook, uint64_t arg);
  void doReturn(E v) {
    int hook = F().hook;
    uint64_t ha = F().hookArg;
    popFrame();
    if (hook) onReturn(hook, ha);
    if (T().st.empty()) {
      T().s = Thread::DONE;
      return;
    }
    completeCall(v);
  }
  // ---- exceptions
  std::string tiName(uint64_t a) { Obj* o = objAt(a); return o ? o->name : ""; }
  std::string tiBase(const std::string& n) {
    if (auto* g = M->getGlobalVariable(n, true))
      if (g->hasInitializer())
        if (auto* s = dyn_cast<ConstantStruct>(g->getInitializer()))
          if (s->getNumOperands() >= 3)
            if (auto* b = dyn_cast<GlobalVariable>(s->getOperand(2)->stripPointerCasts())) return b->getName().str();
    static const std::map<std::string, std::string> k = {
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};
    auto it = k.find(n);
    return it == k.end() ? "" : it->second;
  }
  bool derives(std::string t, const std::string& c) {
    for (int i = 0; i < 10 && !t.empty(); i++) {
      if (t == c) return true;
      t = tiBase(t);
    }
    return false;
  }
  void unwind(uint64_t exc) {
    std::string tn = tiName(excType[exc]);
    for (;;) {
      Frame& f = F();
      DI& d = f.f->code[f.ip];
      if (d.opc == Instruction::Invoke) {
        BasicBlock* ub = cast<InvokeInst>(d.I)->getUnwindDest();
        auto* lp = ub->getLandingPadInst();
        bool hit = lp->isCleanup();
        uint64_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (!lp->isCatch(i)) {
            // filter: throw() specification
            hit = true;
            sel = 0xffffffffu;
            break;
          }
          Constant* c = lp->getClause(i);
          if (c->isNullValue()) { hit = true; sel = 1; break; }
          auto* g = cast<GlobalValue>(c->stripPointerCasts());
          if (derives(tn, g->getName().str())) {
            hit = true;
            sel = (addrOf(g) >> 32) + 1;
            break;
          }
        }
        if (hit) {
          int dst = -1;
          jump(d.t2);
          Frame& f2 = F();
          DI& l = f2.f->code[f2.ip];
          if (l.opc != Instruction::LandingPad) inconclusive("landing pad expected");
          dst = l.dst;
          f2.r[dst] = mkConcat(mkC(sel, 32), mkC(exc, 64));
          f2.ip++;
          return;
        }
      }
      int hook = f.hook;
      if (T().st.size() == 1) {
        violHere("exception", "uncaught exception of type " + demangle(tn.size() > 4 ? "_Z" + tn.substr(4 - 0) : tn) + " (" + tn + ")");
      }
      if (hook) violHere("exception", "exception " + tn + " leaves a parallel region");
      popFrame();
    }
  }
  uint64_t throwNew(const std::string& ti) {
    uint64_t a = newObj(64, OHEAP, "exception");
    uint64_t t;
    if (auto* g = M->getGlobalVariable(ti, true)) t = addrOf(g);
    else if (extTypeinfo.count(ti)) t = extTypeinfo[ti];
    else {
      t = newObj(64, OGLOBAL, ti);
      extTypeinfo[ti] = t;
    }
    excType[a] = t;
    return a;
  }
  // ---- scheduling
  int spawned = 0;
  bool runnable(Thread& t) {
    if (t.s == Thread::RUN) return true;
    if (t.s == Thread::BLOCK && t.waitFor && t.waitFor()) { t.s = Thread::RUN; t.waitFor = nullptr; return true; }
    if (t.s == Thread::JOIN && th[t.joinOn]->s == Thread::DONE) { t.s = Thread::RUN; return true; }
    return false;
  }
  void schedule() {
    std::vector<int> c;
    for (size_t k = 1; k <= th.size(); k++) {
      int i = (cur + k) % th.size();
      if (runnable(*th[i])) {
        c.push_back(i);
      }
    }
    if (c.empty()) {
      if (th[0]->s == Thread::DONE) return;
      for (auto* t : th)
        if (t->s != Thread::DONE && !t->st.empty()) { cur = t->id; break; }
      violHere("deadlock", "all threads wait");
    }
    if (schedExplore && c.size() > 1 && !concrete) {
      std::vector<E> cs(c.size(), mkTrue());
      std::vector<Model> hs(c.size());
      for (auto& h : hs) if (!sol.models.empty()) h = sol.models.back();
      cur = c[fork_(cs, hs)];
      return;
    }
    cur = c[0];
  }
  void run();
  void step();
  E binop(unsigned opc, E a, E b);
  E binV(DI& d, E a, E b);
  E fop(unsigned opc, E a, E b);
  E fcmp(unsigned p, E a, E b);
  E icmp(unsigned p, E a, E b);
  HR callFn(Function* f, DI& d, std::vector<E>& args, E& ret);
  HR intrinsic(Function* f, DI& d, std::vector<E>& a, E& ret);
  std::string varName(const std::string& base) {
    Thread& t = T();
    int k = t.counters[base]++;
    return t.label + "." + base + "." + std::to_string(k);
  }
  E inputVar(const std::string& base, unsigned w, u256 lo, u256 hi) { return inputNamed(varName(base), w, lo, hi); }
  E inputNamed(const std::string& n, unsigned w, u256 lo, u256 hi) {
    if (concrete) {
      if (haveAssign) {
        auto it = assign.find(n);
        u256 v = it != assign.end() ? it->second : lo;
        return mkConst(v, w);
      }
      u256 r = 0;
      for (int i = 0; i < 4; i++) r |= (u256)sxHash(concSeed, n.c_str(), i) << (64 * i);
      if (hi - lo == maskw(w)) return mkConst(r & maskw(w), w);
      // small ranges: use the low 64 bits so that the native side agrees
      u256 span = hi - lo + 1;
      return mkConst(lo + ((u256)(uint64_t)r) % span, w);
    }
    E& e = byName[n];  // a name repeats only after sx_label: the same value then
    if (!e || e->w != w || g_vars[e->aux].lo != lo || g_vars[e->aux].hi != hi) e = mkVarRange(n, w, lo, hi);
    return e;
  }
  std::map<std::string, E> byName;
  void check(E c, const std::string& label);
};
bool Engine::ownToken = false;
E Engine::mkVarById(uint32_t i) {
  return mkVarIndex(i);
}

[[noreturn]] static void finish(int code) {
  for (pid_t p : kids) {
    Engine::waitKid(p);
  }
  kids.clear();
  if (code == 0) __sync_fetch_and_add(&sh->st.paths, 1);
  __sync_fetch_and_add(&sh->st.insts, myInsts);
  if (!concrete) {
    std::ofstream o(outDir + "/fns." + std::to_string(getpid()));
    for (auto& f : usedFns) o << f << "\n";
  }
  fflush(stdout);
  if (!isRoot) {
    if (Engine::ownToken) sem_post(&sh->tokens);
    _exit(code);
  }
  if (concrete) _exit(code);
  std::ofstream o(outDir + "/summary.json");
  SolverStats& s = sh->st;
  o << "{\"entry\": \"" << entryName << "\", \"violations\": " << sh->viol << ", \"inconclusive\": " << sh->incon << ", \"paths\": " << s.paths
    << ", \"branches\": " << s.branches << ", \"instructions\": " << s.insts << ", \"queries\": " << s.queries << ", \"sat\": " << s.sat
    << ", \"unsat\": " << s.unsat << ", \"unknown\": " << s.unknown << ", \"model_hits\": " << s.modelHits << ", \"checks\": " << s.checks
    << ", \"by_rewrite\": " << s.byRewrite << ", \"by_algebra\": " << s.byAlgebra << ", \"by_z3\": " << s.byZ3 << ", \"by_witness\": " << s.byEval << ", \"refuted\": " << s.refuted
    << ", \"solver_us\": " << s.micros << ", \"reach\": " << s.reach << "}\n";
  o.close();
  _exit(sh->viol ? 1 : sh->incon ? 2 : 0);
}

// ------------------------------------------------------------------ operators
E Engine::binop(unsigned opc, E a, E b) {
  switch (opc) {
    case Instruction::Add: return mkAdd(a, b);
    case Instruction::Sub: return mkSub(a, b);
    case Instruction::Mul: return mkMul(a, b);
    case Instruction::And: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: return mkXor(a, b);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      E z = sol.simp(mkEq(b, mkC(0, b->w)));
      if (!isFalse(z)) {
        if (decide(z)) violHere("arith", "division by zero");
      }
      if (opc == Instruction::SDiv || opc == Instruction::SRem) {
        E o = mkAnd(mkEq(b, mkConst(maskw(b->w), b->w)), mkEq(a, mkConst((u256)1 << (a->w - 1), a->w)));
        o = sol.simp(o);
        if (!isFalse(o) && a->w >= 32)
          if (decide(o)) violHere("arith", "signed division overflow");
      }
      switch (opc) {
        case Instruction::UDiv: return mkUDiv(a, b);
        case Instruction::URem: return mkURem(a, b);
        case Instruction::SDiv: return mkSDiv(a, b);
        default: return mkSRem(a, b);
      }
    }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (range(b).hi >= a->w) {
        // over-wide shifts have no defined result
        if (b->isConst()) return mkVar("undef" + std::to_string(g_vars.size()), a->w, true);
        E in = mkUlt(b, mkC(a->w, b->w));
        E r = opc == Instruction::Shl ? mkShl(a, b) : opc == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b);
        Sat s = sol.feasible(mkNot(in));
        if (s == Sat::NO) return r;
        return mkIte(in, r, mkVar("undef" + std::to_string(g_vars.size()), a->w, true));
      }
      return opc == Instruction::Shl ? mkShl(a, b) : opc == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b);
    }
  }
  inconclusive("binary operator");
}
static double bd(E e) { uint64_t x = cu64(e); double d; memcpy(&d, &x, 8); return d; }
static E db(double d) { uint64_t x; memcpy(&x, &d, 8); return mkC(x, 64); }
static float bf(E e) { uint32_t x = cu64(e); float d; memcpy(&d, &x, 4); return d; }
static E fb(float d) { uint32_t x; memcpy(&x, &d, 4); return mkC(x, 32); }
E Engine::fop(unsigned opc, E a, E b) {
  if (a->w == 32) {
    if (!a->isConst() || !b->isConst()) inconclusive("symbolic float");
    float x = bf(a), y = bf(b);
    switch (opc) {
      case Instruction::FAdd: return fb(x + y);
      case Instruction::FSub: return fb(x - y);
      case Instruction::FMul: return fb(x * y);
      case Instruction::FDiv: return fb(x / y);
      case Instruction::FRem: return fb(fmodf(x, y));
    }
  }
  if (a->w != 64) inconclusive("long double arithmetic");
  unsigned k = opc == Instruction::FAdd ? UF_FADD : opc == Instruction::FSub ? UF_FSUB : opc == Instruction::FMul ? UF_FMUL : opc == Instruction::FDiv ? UF_FDIV : UF_FREM;
  return mkUF(k, 64, {a, b});
}
E Engine::fcmp(unsigned p, E a, E b) {
  if (a->w == 32) {
    if (!a->isConst() || !b->isConst()) inconclusive("symbolic float compare");
    a = db(bf(a));
    b = db(bf(b));
  }
  if (a->w != 64) inconclusive("long double comparison");
  auto olt = [&](E x, E y) { return mkUF(UF_FOLT, 1, {x, y}); };
  auto ole = [&](E x, E y) { return mkUF(UF_FOLE, 1, {x, y}); };
  E oeq = mkUF(UF_FOEQ, 1, {a, b}), uno = mkUF(UF_FUNO, 1, {a, b});
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return oeq;
    case CmpInst::FCMP_UEQ: return mkOr(oeq, uno);
    case CmpInst::FCMP_UNE: return mkNot(oeq);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(oeq), mkNot(uno));
    case CmpInst::FCMP_ORD: return mkNot(uno);
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_OLT: return olt(a, b);
    case CmpInst::FCMP_OLE: return ole(a, b);
    case CmpInst::FCMP_OGT: return olt(b, a);
    case CmpInst::FCMP_OGE: return ole(b, a);
    case CmpInst::FCMP_ULT: return mkNot(ole(b, a));
    case CmpInst::FCMP_ULE: return mkNot(olt(b, a));
    case CmpInst::FCMP_UGT: return mkNot(ole(a, b));
    case CmpInst::FCMP_UGE: return mkNot(olt(a, b));
  }
  inconclusive("fcmp");
}
E Engine::icmp(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SLE: return mkSle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SGE: return mkSle(b, a);
  }
  inconclusive("icmp");
}
static E lane(E v, unsigned i, unsigned w) { return mkExtract(v, (i + 1) * w - 1, i * w); }
static E pack(std::vector<E> lo2hi) {
  std::reverse(lo2hi.begin(), lo2hi.end());
  return mkConcatN(lo2hi);
}
static E castOp(Engine& en, unsigned opc, E x, unsigned w) {
  switch (opc) {
    case Instruction::Trunc: return mkTrunc(x, w);
    case Instruction::ZExt: return mkZExt(x, w);
    case Instruction::SExt: return mkSExt(x, w);
    case Instruction::BitCast: return x;
    case Instruction::PtrToInt: case Instruction::IntToPtr: return x->w == w ? x : x->w > w ? mkTrunc(x, w) : mkZExt(x, w);
    case Instruction::UIToFP: case Instruction::SIToFP:
      if (w == 64) return mkUF(opc == Instruction::UIToFP ? UF_UITOFP : UF_SITOFP, 64, {x});
      if (w == 32 && x->isConst()) {
        if (opc == Instruction::UIToFP) return fb((float)(u128)x->val());
        return fb((float)csext(x));
      }
      break;
    case Instruction::FPToUI: case Instruction::FPToSI: {
      if (x->w == 32 && x->isConst()) x = db(bf(x));
      if (x->w == 64) return mkUF(opc == Instruction::FPToUI ? UF_FPTOUI : UF_FPTOSI, w, {x});
      break;
    }
    case Instruction::FPExt:
      if (x->w == 32 && w == 64) {
        if (x->isConst()) return db(bf(x));
      }
      break;
    case Instruction::FPTrunc:
      if (x->w == 64 && w == 32 && x->isConst()) return fb((float)bd(x));
      break;
  }
  en.inconclusive("cast to " + std::to_string(w));
}

void Engine::check(E c, const std::string& label) {
  if (concrete) {
    c = sol.simp(c);
    if (!c->isConst()) inconclusive("symbolic check in concrete mode");
    printf("CHECK %s %d\n", label.c_str(), (int)(cu64(c) & 1));
    if (!(cu64(c) & 1)) violation("check", label, Model());
    return;
  }
  if (nowMicros() > deadlineUs) inconclusive("time budget");
  Model m;
  std::string why;
  static const bool verbose = getenv("SX_VERBOSE");
  uint64_t t0 = nowMicros();
  if (verbose) fprintf(stderr, "[%d] check %s: %s\n", getpid(), label.c_str(), show(c, 7).substr(0, 400).c_str());
  int r = sol.prove(c, m, why);
  if (verbose) fprintf(stderr, "[%d] -> %d %s %.2fs\n", getpid(), r, why.c_str(), (nowMicros() - t0) / 1e6);
  if (r == 1) return;
  if (r == 0) violation("check", label, m);
  inconclusive("check '" + label + "' undecided: " + why);
}

void Engine::run() {
  while (th[0]->s != Thread::DONE) {
    if (T().s != Thread::RUN || T().st.empty()) {
      if (T().st.empty() && T().s == Thread::RUN) T().s = Thread::DONE;
      schedule();
      if (th[0]->s == Thread::DONE) break;
      continue;
    }
    step();
    if ((++myInsts & 0xffff) == 0) {
      if (myInsts > maxInsts) violHere("hang", "no end after " + std::to_string(maxInsts) + " instructions");
      if (deadlineUs && nowMicros() > deadlineUs) inconclusive("time budget");
      if (sh->stop) finish(0);
    }
  }
}

void Engine::step() {
  Frame& f = F();
  DI& d = f.f->code[f.ip];
  auto G = [&](unsigned i) { return get(d.ops[i], d.opw[i]); };
  auto set = [&](E v) {
    f.r[d.dst] = v;
    f.ip++;
  };
  switch (d.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      E a = G(0), b = G(1);
      if (d.lanes && d.opc != Instruction::And && d.opc != Instruction::Or && d.opc != Instruction::Xor) {
        std::vector<E> v;
        for (unsigned i = 0; i < d.lanes; i++) v.push_back(binop(d.opc, lane(a, i, d.ew), lane(b, i, d.ew)));
        set(pack(v));
      } else {
        E r = binop(d.opc, a, b);
        F().r[d.dst] = r;
        F().ip++;
      }
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      E a = G(0), b = G(1);
      if (d.lanes) {
        std::vector<E> v;
        for (unsigned i = 0; i < d.lanes; i++) v.push_back(fop(d.opc, lane(a, i, d.ew), lane(b, i, d.ew)));
        set(pack(v));
      } else
        set(fop(d.opc, a, b));
      return;
    }
    case Instruction::FNeg: {
      E a = G(0);
      unsigned ew = d.lanes ? d.ew : a->w;
      std::vector<E> v;
      for (unsigned i = 0; i * ew < a->w; i++) v.push_back(mkXor(lane(a, i, ew), mkConst((u256)1 << (ew - 1), ew)));
      set(pack(v));
      return;
    }
    case Instruction::ICmp: case Instruction::FCmp: {
      E a = G(0), b = G(1);
      auto cmp = [&](E x, E y) { return d.opc == Instruction::ICmp ? icmp(d.pred, x, y) : fcmp(d.pred, x, y); };
      if (d.lanes) {
        std::vector<E> v;
        for (unsigned i = 0; i < d.lanes; i++) v.push_back(cmp(lane(a, i, d.ew), lane(b, i, d.ew)));
        set(pack(v));
      } else
        set(cmp(a, b));
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt:
    case Instruction::IntToPtr: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
    case Instruction::FPExt: case Instruction::FPTrunc: {
      E a = G(0);
      if (d.lanes && d.opc != Instruction::BitCast) {
        std::vector<E> v;
        for (unsigned i = 0; i < d.lanes; i++) v.push_back(castOp(*this, d.opc, lane(a, i, d.ew), d.w / d.lanes));
        set(pack(v));
      } else
        set(castOp(*this, d.opc, a, d.w));
      return;
    }
    case Instruction::Freeze: set(G(0)); return;
    case Instruction::Select: {
      E c = G(0), a = G(1), b = G(2);
      if (d.opw[0] > 1) {
        unsigned n = d.opw[0], ew = d.w / n;
        std::vector<E> v;
        for (unsigned i = 0; i < n; i++) v.push_back(mkIte(lane(c, i, 1), lane(a, i, ew), lane(b, i, ew)));
        set(pack(v));
      } else
        set(mkIte(c, a, b));
      return;
    }
    case Instruction::Br: {
      if (d.t2 < 0) { jump(d.t1); return; }
      E c = G(0);
      bool b = c->isConst() ? c->val() != 0 : decide(c);
      jump(b ? d.t1 : d.t2);
      return;
    }
    case Instruction::Switch: {
      E c = sol.simp(G(0));
      if (c->isConst()) {
        u256 v = c->val();
        for (auto& k : d.cases)
          if (k.first == v) { jump(k.second); return; }
        jump(d.t1);
        return;
      }
      for (auto& k : d.cases)
        if (decide(mkEq(c, mkConst(k.first, c->w)))) { jump(k.second); return; }
      jump(d.t1);
      return;
    }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(d.I);
      uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
      if (ai->isArrayAllocation()) n *= (uint64_t)concretize(G(0), 64, "alloca size");
      uint64_t a = newObj(n, OSTACK, ai->hasName() ? ai->getName().str() : "stack");
      F().allocas.push_back(a >> 32);
      set(mkC(a, 64));
      return;
    }
    case Instruction::Load: {
      E a = G(0);
      if (d.I->getType()->isStructTy() || d.I->getType()->isArrayTy()) {
        std::vector<E> v;
        if (auto* s = dyn_cast<StructType>(d.I->getType())) {
          auto* sl = DL->getStructLayout(s);
          for (unsigned i = 0; i < s->getNumElements(); i++) {
            E x = loadV(mkAdd(a, mkC(sl->getElementOffset(i), 64)), DL->getTypeStoreSize(s->getElementType(i)));
            v.push_back(mkTrunc(x, bits(s->getElementType(i))));
          }
        } else
          v.push_back(loadV(a, d.bytes));
        F().r[d.dst] = pack(v);
        F().ip++;
        return;
      }
      E v = loadV(a, d.bytes);
      if (v->w != d.w) v = mkTrunc(v, d.w);
      F().r[d.dst] = v;
      F().ip++;
      return;
    }
    case Instruction::Store: {
      E v = G(0), a = G(1);
      Type* t = cast<StoreInst>(d.I)->getValueOperand()->getType();
      if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(s);
        unsigned o = 0;
        for (unsigned i = 0; i < s->getNumElements(); i++) {
          unsigned w = bits(s->getElementType(i));
          storeV(mkAdd(a, mkC(sl->getElementOffset(i), 64)), mkExtract(v, o + w - 1, o), DL->getTypeStoreSize(s->getElementType(i)));
          o += w;
        }
        F().ip++;
        return;
      }
      storeV(a, v, d.bytes);
      F().ip++;
      return;
    }
    case Instruction::GetElementPtr: {
      E p = G(0);
      if (p->isConst() && d.gep.empty()) {
        set(mkC(cu64(p) + d.off, 64));
        return;
      }
      if (d.off) p = mkAdd(p, mkC((uint64_t)d.off, 64));
      for (auto& g : d.gep) {
        E x = get(d.ops[g.first], d.opw[g.first]);
        if (x->w < 64) x = mkSExt(x, 64);
        else if (x->w > 64) x = mkTrunc(x, 64);
        p = mkAdd(p, g.second == 1 ? x : mkMul(mkC((uint64_t)g.second, 64), x));
      }
      set(p);
      return;
    }
    case Instruction::ExtractValue: case Instruction::InsertValue: {
      Type* t = d.I->getOperand(0)->getType();
      unsigned o = 0;
      ArrayRef<unsigned> idx = d.opc == Instruction::ExtractValue ? cast<ExtractValueInst>(d.I)->getIndices() : cast<InsertValueInst>(d.I)->getIndices();
      for (unsigned i : idx) {
        if (auto* s = dyn_cast<StructType>(t)) {
          for (unsigned k = 0; k < i; k++) o += bits(s->getElementType(k));
          t = s->getElementType(i);
        } else {
          o += i * bits(t->getArrayElementType());
          t = t->getArrayElementType();
        }
      }
      unsigned w = bits(t);
      E a = G(0);
      if (d.opc == Instruction::ExtractValue) set(mkExtract(a, o + w - 1, o));
      else {
        std::vector<E> v;
        E b = G(1);
        if (o) v.push_back(mkExtract(a, o - 1, 0));
        v.push_back(b);
        if (o + w < a->w) v.push_back(mkExtract(a, a->w - 1, o + w));
        set(pack(v));
      }
      return;
    }
    case Instruction::ExtractElement: {
      E v = G(0), i = G(1);
      unsigned ew = d.w;
      if (i->isConst()) set(lane(v, cu64(i), ew));
      else {
        uint64_t k = (uint64_t)concretize(i, 64, "vector index");
        F().r[d.dst] = lane(v, k, ew);
        F().ip++;
      }
      return;
    }
    case Instruction::InsertElement: {
      E v = G(0), x = G(1), i = G(2);
      uint64_t k = i->isConst() ? cu64(i) : (uint64_t)concretize(i, 64, "vector index");
      std::vector<E> ls;
      for (unsigned j = 0; j * x->w < v->w; j++) ls.push_back(j == k ? x : lane(v, j, x->w));
      F().r[d.dst] = pack(ls);
      F().ip++;
      return;
    }
    case Instruction::ShuffleVector: {
      E a = G(0), b = G(1);
      std::vector<E> v;
      for (int m : d.mask) {
        if (m < 0) v.push_back(mkC(0, d.ew));
        else v.push_back((unsigned)m < d.lanes ? lane(a, m, d.ew) : lane(b, m - d.lanes, d.ew));
      }
      set(pack(v));
      return;
    }
    case Instruction::AtomicRMW: {
      auto* ar = cast<AtomicRMWInst>(d.I);
      bool r0 = raceOn;
      raceOn = false;
      E p = G(0), x = G(1);
      unsigned n = (d.w + 7) / 8;
      E o = loadV(p, n), v;
      if (o->w != d.w) o = mkTrunc(o, d.w);
      switch (ar->getOperation()) {
        case AtomicRMWInst::Xchg: v = x; break;
        case AtomicRMWInst::Add: v = mkAdd(o, x); break;
        case AtomicRMWInst::Sub: v = mkSub(o, x); break;
        case AtomicRMWInst::And: v = mkAnd(o, x); break;
        case AtomicRMWInst::Or: v = mkOr(o, x); break;
        case AtomicRMWInst::Xor: v = mkXor(o, x); break;
        case AtomicRMWInst::Max: v = mkIte(mkSlt(o, x), x, o); break;
        case AtomicRMWInst::Min: v = mkIte(mkSlt(x, o), x, o); break;
        case AtomicRMWInst::UMax: v = mkIte(mkUlt(o, x), x, o); break;
        case AtomicRMWInst::UMin: v = mkIte(mkUlt(x, o), x, o); break;
        default: inconclusive("atomicrmw");
      }
      storeV(p, v, n);
      raceOn = r0;
      F().r[d.dst] = o;
      F().ip++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      bool r0 = raceOn;
      raceOn = false;
      E p = G(0), c = G(1), x = G(2);
      unsigned n = (c->w + 7) / 8;
      E o = mkTrunc(loadV(p, n), c->w);
      E ok = mkEq(o, c);
      storeV(p, mkIte(ok, x, o), n);
      raceOn = r0;
      F().r[d.dst] = mkConcat(ok, o);
      F().ip++;
      return;
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::Ret: {
      E v = d.ops.empty() ? nullptr : G(0);
      doReturn(v);
      return;
    }
    case Instruction::Unreachable:
      violHere("ub", "unreachable code reached");
      return;
    case Instruction::Resume: {
      E v = G(0);
      uint64_t exc = cu64(mkExtract(v, 63, 0));
      // the resuming frame itself has no handler any more
      if (T().st.size() == 1) violHere("exception", "uncaught exception " + tiName(excType[exc]));
      if (f.hook) violHere("exception", "exception leaves a parallel region");
      popFrame();
      unwind(exc);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<E> args;
      args.reserve(d.ops.size());
      for (size_t i = 0; i + 1 < d.ops.size(); i++) args.push_back(G(i));
      Function* cf = d.calleeF;
      if (!cf) {
        if (isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())) {
          if (d.w == 0 && cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())->getAsmString().empty()) { f.ip++; return; }
          inconclusive("inline assembly");
        }
        E p = sol.simp(G(d.ops.size() - 1));
        uint64_t a = (uint64_t)concretize(p, 16, "function pointer");
        Obj* o = objAt(a);
        if (!o || o->kind != OFUNC || (a & 0xffffffffu)) violHere("memory", "call through an invalid function pointer");
        cf = o->fn;
      }
      E ret = nullptr;
      HR h = callFn(cf, d, args, ret);
      if (h == HDONE) completeCall(ret);
      return;
    }
    case Instruction::VAArg: default:
      inconclusive(std::string("instruction ") + d.I->getOpcodeName() + " (width " + std::to_string(d.w) + ")");
  }
}
#include "externs.inc"
