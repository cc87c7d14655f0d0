// Library functions, intrinsics, OpenMP runtime and harness API.
#define H(name) static HR name(Engine& en, DI& d, std::vector<E>& a, E& ret)

static uint64_t sizeArg(Engine& en, E e, const char* w) { return (uint64_t)en.concretize(e, 128, w); }
static HR throwEx(Engine& en, const char* ti) {
  uint64_t x = en.throwNew(ti);
  en.unwind(x);
  return HSWITCH;
}
static HR doNew(Engine& en, E sz, E& ret, bool nothrow, int kind) {
  // Very large requests fail like the real allocator.
  E big = mkUlt(mkC(1ull << 26, 64), sz);
  big = en.sol.simp(big);
  if (!isFalse(big) && en.decide(big)) {
    if (nothrow) { ret = mkC(0, 64); return HDONE; }
    return throwEx(en, "_ZTISt9bad_alloc");
  }
  uint64_t n = sizeArg(en, sz, "allocation size");
  uint64_t p = en.newObj(n, OHEAP, "heap block of " + std::to_string(n) + " bytes at " + en.where().substr(0, 200));
  en.objs.back().alloc = kind;
  ret = mkC(p, 64);
  return HDONE;
}
static HR doFree(Engine& en, E p, int kind) {
  uint64_t a = en.cptr(p, "freed pointer");
  if (a == 0) return HDONE;
  Obj* o = en.objAt(a);
  if (!o || o->kind != OHEAP || (a & 0xffffffffu)) en.violHere("memory", "free of a pointer that was not allocated");
  if (!o->alive) en.violHere("memory", "double free");
  if (o->alloc != kind) en.violHere("memory", "mismatched allocation and deallocation functions");
  o->alive = false;
  std::vector<uint8_t>().swap(o->d);
  std::vector<uint8_t>().swap(o->st);
  std::vector<Cell>().swap(o->sym);
  return HDONE;
}
H(h_new) { return doNew(en, a[0], ret, false, 1); }
H(h_newa) { return doNew(en, a[0], ret, false, 2); }
H(h_newnt) { return doNew(en, a[0], ret, true, 1); }
H(h_newant) { return doNew(en, a[0], ret, true, 2); }
H(h_del) { return doFree(en, a[0], 1); }
H(h_dela) { return doFree(en, a[0], 2); }
H(h_malloc) { return doNew(en, a[0], ret, true, 0); }
H(h_free) { return doFree(en, a[0], 0); }
H(h_calloc) {
  HR r = doNew(en, mkMul(a[0], a[1]), ret, true, 0);
  if (r == HDONE && ret->isConst() && !isZero(ret)) {
    Obj& o = en.objs[cu64(ret) >> 32];
    std::fill(o.st.begin(), o.st.end(), 1);
  }
  return r;
}
H(h_realloc) {
  uint64_t old = en.cptr(a[0], "realloc");
  HR r = doNew(en, a[1], ret, true, 0);
  if (r != HDONE || isZero(ret)) return r;
  if (old) {
    uint64_t n = std::min(en.objs[old >> 32].size, en.objs[cu64(ret) >> 32].size);
    en.copyBytes(cu64(ret), old, n);
    E dummy;
    doFree(en, a[0], 0);
  }
  return HDONE;
}
H(h_posix_memalign) {
  E p;
  doNew(en, a[2], p, true, 0);
  en.storeV(a[0], p, 8);
  ret = mkC(isZero(p) ? 12 : 0, 32);
  return HDONE;
}
H(h_aligned_alloc) { return doNew(en, a[1], ret, true, 0); }
H(h_memcpy) {
  uint64_t n = sizeArg(en, a[2], "memcpy length");
  if (n) {
    if (!a[1]->isConst() || !a[0]->isConst()) {
      // byte-wise with symbolic addresses
      if (n <= 64 ) {
        E v = nullptr;
        if (n <= 32) { v = en.loadV(a[1], n); en.storeV(a[0], v, n); }
        else {
          E v1 = en.loadV(a[1], 32), v2 = en.loadV(mkAdd(a[1], mkC(32, 64)), n - 32);
          en.storeV(a[0], v1, 32);
          en.storeV(mkAdd(a[0], mkC(32, 64)), v2, n - 32);
        }
        ret = a[0];
        return HDONE;
      }
    }
    uint64_t dst = en.cptr(a[0], "memcpy destination"), src = en.cptr(a[1], "memcpy source");
    en.chk(src, n, false);
    en.chk(dst, n, true);
    en.copyBytes(dst, src, n);
  }
  ret = a[0];
  return HDONE;
}
H(h_memset) {
  uint64_t n = sizeArg(en, a[2], "memset length");
  if (n) {
    uint64_t p = en.cptr(a[0], "memset destination");
    en.chk(p, n, true);
    E b = mkTrunc(a[1], 8);
    if (b->isConst()) {
      Obj& o = en.objs[p >> 32];
      uint64_t off = p & 0xffffffffu;
      memset(&o.d[off], (int)cu64(b), n);
      memset(&o.st[off], 1, n);
    } else
      for (uint64_t i = 0; i < n; i++) en.rawStore(p + i, b, 1);
  }
  ret = a[0];
  return HDONE;
}
H(h_memcmp) {
  uint64_t n = sizeArg(en, a[2], "memcmp length");
  uint64_t p = n ? en.cptr(a[0], "memcmp") : 0, q = n ? en.cptr(a[1], "memcmp") : 0;
  if (n) { en.chk(p, n, false); en.chk(q, n, false); }
  E r = mkC(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    E x = en.rawLoad(p + i, 1), y = en.rawLoad(q + i, 1);
    r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkC(0xffffffffu, 32), mkC(1, 32)));
  }
  ret = r;
  return HDONE;
}
H(h_strlen) {
  uint64_t p = en.cptr(a[0], "strlen"), n = 0;
  for (;; n++) {
    en.chk(p + n, 1, false);
    E b = en.rawLoad(p + n, 1);
    if (!b->isConst()) en.inconclusive("strlen of symbolic data");
    if (isZero(b)) break;
  }
  ret = mkC(n, 64);
  return HDONE;
}
H(h_memchr) {
  uint64_t n = sizeArg(en, a[2], "memchr"), p = en.cptr(a[0], "memchr");
  E c = mkTrunc(a[1], 8), r = mkC(0, 64);
  for (uint64_t i = n; i-- > 0;) {
    en.chk(p + i, 1, false);
    r = mkIte(mkEq(en.rawLoad(p + i, 1), c), mkC(p + i, 64), r);
  }
  ret = r;
  return HDONE;
}
H(h_zero) { ret = d.w ? mkC(0, d.w) : nullptr; return HDONE; }
H(h_one) { ret = mkC(1, d.w); return HDONE; }
H(h_id0) { ret = a[0]; return HDONE; }
H(h_abort) { en.violHere("abort", "abort() called"); return HDONE; }
H(h_terminate) { en.violHere("abort", "std::terminate() called"); return HDONE; }
H(h_assert) {
  en.violHere("assert", "assertion failed: " + en.cstr(en.cptr(a[0], "assert")));
  return HDONE;
}
H(h_exit) { en.violHere("abort", "exit() called"); return HDONE; }
H(h_thr_len) { return throwEx(en, "_ZTISt12length_error"); }
H(h_thr_oor) { return throwEx(en, "_ZTISt12out_of_range"); }
H(h_thr_inv) { return throwEx(en, "_ZTISt16invalid_argument"); }
H(h_thr_logic) { return throwEx(en, "_ZTISt11logic_error"); }
H(h_thr_run) { return throwEx(en, "_ZTISt13runtime_error"); }
H(h_thr_alloc) { return throwEx(en, "_ZTISt9bad_alloc"); }
H(h_thr_newlen) { return throwEx(en, "_ZTISt20bad_array_new_length"); }
H(h_thr_func) { return throwEx(en, "_ZTISt17bad_function_call"); }
H(h_thr_var) { return throwEx(en, "_ZTISt18bad_variant_access"); }
H(h_cxa_alloc) {
  uint64_t n = sizeArg(en, a[0], "exception size");
  ret = mkC(en.newObj(n ? n : 1, OHEAP, "exception"), 64);
  return HDONE;
}
H(h_cxa_throw) {
  uint64_t x = en.cptr(a[0], "exception"), t = en.cptr(a[1], "typeinfo");
  en.excType[x] = t;
  en.unwind(x);
  return HSWITCH;
}
H(h_begin_catch) {
  uint64_t x = en.cptr(a[0], "exception");
  en.T().caught.push_back(x);
  ret = mkC(x, 64);
  return HDONE;
}
H(h_end_catch) {
  if (!en.T().caught.empty()) en.T().caught.pop_back();
  return HDONE;
}
H(h_rethrow) {
  if (en.T().caught.empty()) en.violHere("abort", "rethrow without exception");
  en.unwind(en.T().caught.back());
  return HSWITCH;
}
H(h_resume) {
  uint64_t x = en.cptr(a[0], "exception");
  if (en.T().st.size() == 1) en.violHere("exception", "uncaught exception");
  en.popFrame();
  en.unwind(x);
  return HSWITCH;
}
H(h_guard_acquire) {
  E v = en.loadV(a[0], 1);
  ret = mkIte(mkEq(v, mkC(0, 8)), mkC(1, 32), mkC(0, 32));
  return HDONE;
}
H(h_guard_release) {
  en.storeV(a[0], mkC(1, 8), 1);
  return HDONE;
}
// ---- math
#define MATH1(nm, kind) H(nm) { \
  if (a[0]->w == 32) { if (!a[0]->isConst()) en.inconclusive("symbolic float"); E x = mkUF(kind, 64, {db(bf(a[0]))}); ret = fb((float)bd(x)); return HDONE; } \
  ret = mkUF(kind, 64, {a[0]}); return HDONE; }
MATH1(h_log2, UF_FLOG2) MATH1(h_log, UF_FLOG) MATH1(h_ceil, UF_FCEIL) MATH1(h_floor, UF_FFLOOR) MATH1(h_sqrt, UF_FSQRT) MATH1(h_erf, UF_FERF)
MATH1(h_fabs, UF_FABS) MATH1(h_exp, UF_FEXP) MATH1(h_log10, UF_FLOG10) MATH1(h_exp2, UF_FEXP2) MATH1(h_round, UF_FROUND)
MATH1(h_trunc, UF_FTRUNC) MATH1(h_rint, UF_FRINT)
H(h_pow) { ret = mkUF(UF_FPOW, 64, {a[0], a[1]}); return HDONE; }
H(h_fmod) { ret = mkUF(UF_FREM, 64, {a[0], a[1]}); return HDONE; }
H(h_fmin) { ret = mkIte(en.fcmp(CmpInst::FCMP_OLT, a[0], a[1]), a[0], a[1]); return HDONE; }
H(h_fmax) { ret = mkIte(en.fcmp(CmpInst::FCMP_OLT, a[0], a[1]), a[1], a[0]); return HDONE; }
H(h_ldexp) {
  if (a[0]->isConst() && a[1]->isConst()) { ret = db(ldexp(bd(a[0]), (int)csext(a[1]))); return HDONE; }
  en.inconclusive("symbolic ldexp");
  return HDONE;
}
H(h_lround) {
  if (a[0]->isConst()) { ret = mkC((uint64_t)llround(bd(a[0])), 64); return HDONE; }
  ret = mkUF(UF_FPTOSI, 64, {mkUF(UF_FROUND, 64, {a[0]})});
  return HDONE;
}
// ---- 128-bit helpers of compiler-rt
H(h_udivti3) { ret = en.binop(Instruction::UDiv, a.size() == 4 ? mkConcat(a[1], a[0]) : a[0], a.size() == 4 ? mkConcat(a[3], a[2]) : a[1]); return HDONE; }

// ---- harness API
static unsigned typeBitsArg(Engine& en, E e) { return (unsigned)(uint64_t)en.concretize(e, 1, "width"); }
H(sx_var) {
  std::string n = en.cstr(en.cptr(a[0], "name"));
  unsigned w = typeBitsArg(en, a[1]);
  ret = mkZExt(en.inputVar(n, w, 0, maskw(w)), 64);
  return HDONE;
}
H(sx_range) {
  std::string n = en.cstr(en.cptr(a[0], "name"));
  u256 lo = en.concretize(a[1], 1, "lo"), hi = en.concretize(a[2], 1, "hi");
  ret = en.inputVar(n, 64, lo, hi);
  return HDONE;
}
H(sx_bytes) {
  std::string n = en.cstr(en.cptr(a[0], "name"));
  uint64_t p = en.cptr(a[1], "buffer"), len = sizeArg(en, a[2], "length");
  if (len) en.chk(p, len, true);
  for (uint64_t i = 0; i < len; i += 16) {
    unsigned k = std::min<uint64_t>(16, len - i);
    en.rawStore(p + i, en.inputVar(n, 8 * k, 0, maskw(8 * k)), k);
  }
  return HDONE;
}
static int pickPath(Engine& en, const std::string& nm, uint64_t k) {
  std::vector<E> cs(k, mkTrue());
  Model h;
  if (!en.sol.models.empty()) h = en.sol.models.back();
  std::vector<Model> hs(k, h);
  int i = k == 1 ? 0 : en.fork_(cs, hs);
  en.picks.push_back({nm, i});
  return i;
}
H(sx_pick) {
  std::string n = en.cstr(en.cptr(a[0], "name"));
  uint64_t k = (uint64_t)en.concretize(a[1], 1, "choices");
  if (concrete) { ret = en.inputVar(n, 64, 0, k - 1); return HDONE; }
  ret = mkC(pickPath(en, en.varName(n), k), 64);
  return HDONE;
}
H(sx_conc) { ret = mkConst(en.concretize(a[0], 4096, "sx_conc"), 64); return HDONE; }
static E boolArg(E e) { return mkNot(mkEq(e, mkC(0, e->w))); }
H(sx_assume) {
  E c = en.sol.simp(boolArg(a[0]));
  if (concrete) {
    if (!c->isConst()) en.inconclusive("assume");
    if (isFalse(c)) { printf("ASSUME-FALSE\n"); fflush(stdout); finish(0); }
    return HDONE;
  }
  if (isTrue(c)) return HDONE;
  Sat s = en.sol.feasible(c);
  if (s == Sat::NO) { __sync_fetch_and_add(&sh->st.assumesDropped, 1); finish(0); }
  if (s == Sat::UNKNOWN) en.sol.hit = Model();
  en.sol.assume(c);
  return HDONE;
}
H(sx_check) {
  en.check(boolArg(a[0]), en.cstr(en.cptr(a[1], "label")));
  return HDONE;
}
H(sx_check_eq) {
  uint64_t n = sizeArg(en, a[2], "length");
  std::string l = en.cstr(en.cptr(a[3], "label"));
  if (!n) { if (concrete) printf("CHECK %s 1\n", l.c_str()); return HDONE; }
  uint64_t p = en.cptr(a[0], "ptr"), q = en.cptr(a[1], "ptr");
  en.chk(p, n, false);
  en.chk(q, n, false);
  E c = mkTrue();
  for (uint64_t i = 0; i < n; i += 16) {
    unsigned k = std::min<uint64_t>(16, n - i);
    c = mkAnd(c, mkEq(en.rawLoad(p + i, k), en.rawLoad(q + i, k)));
  }
  en.check(c, l);
  return HDONE;
}
// No two of the n elements are the same in every execution of this path.
H(sx_distinct) {
  uint64_t n = sizeArg(en, a[1], "count"), sz = sizeArg(en, a[2], "element size");
  std::string l = en.cstr(en.cptr(a[3], "label"));
  if (!n) { if (concrete) printf("CHECK %s 1\n", l.c_str()); return HDONE; }
  uint64_t p = en.cptr(a[0], "ptr");
  en.chk(p, n * sz, false);
  std::vector<std::vector<E>> v(n);
  std::vector<E> all;
  for (uint64_t i = 0; i < n; i++)
    for (uint64_t o = 0; o < sz; o += 16) {
      v[i].push_back(en.sol.simp(en.rawLoad(p + i * sz + o, std::min<uint64_t>(16, sz - o))));
      all.push_back(v[i].back());
    }
  std::vector<Model> ms;
  if (concrete) ms.push_back(Model());
  else ms = en.sol.witnesses(4, all);
  if (ms.empty()) en.inconclusive("sx_distinct: no witness of the path");
  std::map<std::vector<u256>, std::vector<uint64_t>> groups;
  std::vector<std::vector<u256>> key(n);
  for (auto& m : ms) {
    Evaluator ev(m);
    for (uint64_t i = 0; i < n; i++)
      for (E e : v[i]) key[i].push_back(ev(e));
  }
  for (uint64_t i = 0; i < n; i++) groups[key[i]].push_back(i);
  __sync_fetch_and_add(&sh->st.checks, n * (n - 1) / 2);
  __sync_fetch_and_add(&sh->st.byEval, n * (n - 1) / 2);
  bool same = false;
  for (auto& g : groups) {
    if (g.second.size() < 2) continue;
    if (concrete) { same = true; break; }
    for (size_t x = 1; x < g.second.size(); x++) {
      E c = mkTrue();
      for (size_t k = 0; k < v[0].size(); k++) c = mkAnd(c, mkEq(v[g.second[0]][k], v[g.second[x]][k]));
      Model cex;
      std::string why;
      int r = en.sol.prove(c, cex, why);
      if (r == 1) en.violation("check", l + " (elements " + std::to_string(g.second[0]) + " and " + std::to_string(g.second[x]) + ")", ms[0]);
      if (r < 0) en.inconclusive("sx_distinct undecided: " + why);
    }
  }
  if (concrete) {
    printf("CHECK %s %d\n", l.c_str(), same ? 0 : 1);
    if (same) en.violation("check", l, Model());
  }
  return HDONE;
}
H(sx_fail) {
  std::string l = en.cstr(en.cptr(a[0], "label"));
  if (concrete) printf("CHECK %s 0\n", l.c_str());
  en.violHere("check", l);
  return HDONE;
}
H(sx_reach) {
  std::string l = en.cstr(en.cptr(a[0], "label"));
  if (concrete) { printf("REACH %s\n", l.c_str()); return HDONE; }
  __sync_fetch_and_add(&sh->st.reach, 1);
  std::string fn = outDir + "/reach." + l;
  if (access(fn.c_str(), F_OK) != 0) {
    std::ofstream o(fn);
    Model m;
    if (en.pcModel(m)) o << "{" << en.modelJson(m) << ", \"path_condition\": [";
    else o << "{\"inputs\": {}, \"path_condition\": [";
    for (size_t i = 0; i < en.sol.pc.size() && i < 6; i++) o << (i ? ", " : "") << "\"" << esc(show(en.sol.pc[i], 4)) << "\"";
    o << "]}\n";
  }
  return HDONE;
}
H(sx_observe) {
  std::string l = en.cstr(en.cptr(a[0], "label"));
  if (!concrete) return HDONE;
  uint64_t p = en.cptr(a[1], "ptr"), n = sizeArg(en, a[2], "length");
  printf("OBS %s ", l.c_str());
  if (n) en.chk(p, n, false);
  for (uint64_t i = 0; i < n; i++) {
    E b = en.rawLoad(p + i, 1);
    if (b->isConst()) printf("%02x", (int)cu64(b));
    else printf("??");
  }
  printf("\n");
  return HDONE;
}
H(sx_tid) { ret = mkC(en.T().id, 32); return HDONE; }
H(sx_spawn) {
  uint64_t fp = en.cptr(a[0], "thread function");
  Obj* o = en.objAt(fp);
  if (!o || o->kind != OFUNC) en.inconclusive("sx_spawn");
  Thread* t = new Thread;
  t->id = en.th.size();
  t->label = "t" + std::to_string(++en.spawned);
  en.th.push_back(t);
  t->vc = en.T().vc;

  en.pushFrame(*t, o->fn, {a[1]});
  ret = mkC(t->id, 32);
  return HDONE;
}
H(sx_wait) {
  en.T().s = Thread::WAIT;
  return HDONE;
}
H(sx_notify) {
  for (auto* t : en.th)
    if (t->s == Thread::WAIT) t->s = Thread::RUN;
  return HDONE;
}
H(sx_join) {
  int t = (int)(uint64_t)en.concretize(a[0], 1, "thread");
  en.T().s = Thread::JOIN;
  en.T().joinOn = t;
  return HDONE;
}
H(sx_mode) {
  std::string k = en.cstr(en.cptr(a[0], "mode"));
  uint64_t v = (uint64_t)en.concretize(a[1], 1, "mode value");
  en.modes[k] = v;
  if (k == "omp") { ompThreads = v; raceOn = v > 1; }
  if (k == "split") en.splitOn = v;
  if (k == "decisions") { en.maxDecisions = v; en.decisions = 0; }
  if (k == "steps") maxInsts = myInsts + v;
  if (k == "sched") schedExplore = v;
  if (k == "race") raceOn = v;
  return HDONE;
}
H(sx_label) {
  en.T().label = en.cstr(en.cptr(a[0], "label"));
  en.T().counters.clear();
  return HDONE;
}
H(sx_symbolic) { ret = mkC(concrete ? 0 : 1, 32); return HDONE; }
H(sx_aes) {
  // (key, keybytes, in, out)
  uint64_t kb = sizeArg(en, a[1], "key length");
  E k = en.loadV(a[0], kb), in = en.loadV(a[2], 16);
  E r = mkUF(UF_AES, 128, {en.sol.simp(k), en.sol.simp(in)});
  en.storeV(a[3], r, 16);
  return HDONE;
}
H(sx_gfmul) {
  E x = en.loadV(a[0], 16), y = en.loadV(a[1], 16);
  en.storeV(a[2], mkUF(UF_GFMUL, 128, {x, y}), 16);
  return HDONE;
}
static unsigned blen(u256 v) { unsigned n = 0; while (v != 0) { n++; v >>= 1; } return n; }
static E residue(E x, u256 p, unsigned k) {
  if (range(x).hi < p) return mkTrunc(mkZExt(x, std::max(k, (unsigned)x->w)), k);
  return mkTrunc(mkURem(x, mkConst(p, x->w)), k);
}
static HR modOp(Engine& en, std::vector<E>& a, int kind) {
  // (out*, a*, b*, p*) all 32 bytes
  E P = en.sol.simp(en.loadV(a[3], 32));
  if (!P->isConst()) en.inconclusive("symbolic modulus");
  u256 p = P->val();
  if (p < 2) en.inconclusive("modulus < 2");
  unsigned k = blen(p - 1);
  E x = residue(en.loadV(a[1], 32), p, k);
  E r;
  if (kind == UF_MODNEG) r = mkUF(UF_MODNEG, k, {x, P});
  else {
    E y = residue(en.loadV(a[2], 32), p, k);
    r = mkUF(kind, k, {x, y, P});
  }
  en.storeV(a[0], mkZExt(r, 256), 32);
  return HDONE;
}
H(sx_modadd) { return modOp(en, a, UF_MODADD); }
H(sx_modmul) { return modOp(en, a, UF_MODMUL); }
H(sx_modneg) { return modOp(en, a, UF_MODNEG); }
H(sx_ite) {  // (cond, a*, b*, out*, n)
  uint64_t n = sizeArg(en, a[4], "length");
  E c = boolArg(a[0]);
  for (uint64_t i = 0; i < n; i += 32) {
    unsigned k = std::min<uint64_t>(32, n - i);
    E o = mkC(i, 64);
    en.storeV(mkAdd(a[3], o), mkIte(c, en.loadV(mkAdd(a[1], o), k), en.loadV(mkAdd(a[2], o), k)), k);
  }
  return HDONE;
}
H(sx_note) {
  if (getenv("SX_NOTES")) {
    std::string l = en.cstr(en.cptr(a[0], "label"));
    fprintf(stderr, "[%d] %s %s\n", getpid(), l.c_str(), show(a[1], 6).c_str());
  }
  return HDONE;
}
H(sx_live) {  // number of live heap objects
  uint64_t n = 0;
  for (auto& o : en.objs) n += o.kind == OHEAP && o.alive;
  ret = mkC(n, 64);
  return HDONE;
}

// ---- OpenMP runtime
static void vcMerge(VC& x, const VC& y) {
  if (x.size() < y.size()) x.resize(y.size());
  for (size_t i = 0; i < y.size(); i++) x[i] = std::max(x[i], y[i]);
}
static void vcTick(Thread& t) {
  if (t.vc.size() <= (size_t)t.id) t.vc.resize(t.id + 1);
  t.vc[t.id]++;
}
enum { HOOK_MASTER = 1, HOOK_WORKER = 2, HOOK_MASTER1 = 3 };
static E gtidPtr(Engine& en, int v, Frame* f) {
  uint64_t p = en.newObj(4, OHEAP, "gtid");
  en.rawStore(p, mkC(v, 32), 4);
  return mkC(p, 64);
}
H(kmp_fork) {
  Thread& me = en.T();
  uint64_t fp = en.cptr(a[2], "microtask");
  Function* f = en.objAt(fp)->fn;
  int n = me.pushNum > 0 ? me.pushNum : ompThreads;
  me.pushNum = 0;
  bool nested = me.team && me.team->n > 1;
  if (nested) n = 1;
  Team* tm = new Team;
  tm->n = n;
  tm->master = me.id;
  auto argsFor = [&](int tid, int num) {
    std::vector<E> v{gtidPtr(en, tid, nullptr), gtidPtr(en, num, nullptr)};
    for (size_t i = 3; i < a.size(); i++) v.push_back(a[i]);
    return v;
  };
  me.teamStack.push_back({me.team, me.tnum});
  me.team = tm;
  me.tnum = 0;
  int savedWs = me.wsCount;
  me.wsCount = 0;
  me.singleCount = 0;
  // Accesses before a region are ordered before it; teams of other parties may be at work.
  if (n > 1) {
    bool busy = false;
    for (Thread* o : en.th) busy |= o->team && o->team->n > 1 && o->s != Thread::DONE && o != &me;
    if (!busy) en.shadow.clear();
  }
  tm->members.push_back(me.id);
  vcTick(me);
  std::vector<Thread*> ws;
  for (int i = 1; i < n; i++) {
    Thread* w;
    auto it = me.workerOf.find(i);
    // In "fresh" mode every region gets new workers, whose thread-local state is initial.
    bool fresh = en.modes.count("fresh") && en.modes["fresh"];
    if (it != me.workerOf.end() && !fresh) w = en.th[it->second];
    else {
      w = new Thread;
      w->id = en.th.size();
      w->label = me.label + "w" + std::to_string(i);
      if (it != me.workerOf.end()) w->counters = en.th[it->second]->counters;
      en.th.push_back(w);
      me.workerOf[i] = w->id;
    }
    w->s = Thread::RUN;
    w->team = tm;
    w->tnum = i;
    w->wsCount = 0;
    w->singleCount = 0;
    VC own = w->vc;
    w->vc = me.vc;
    vcMerge(w->vc, own);
    vcTick(*w);
    tm->members.push_back(w->id);
    auto av = argsFor(w->id, i);
    en.pushFrame(*w, f, av);
    w->st.back().hook = HOOK_WORKER;
  }
  vcTick(me);
  auto av = argsFor(me.id, 0);
  Thread& me2 = en.T();
  en.pushFrame(me2, f, av);
  me2.st.back().hook = n > 1 ? HOOK_MASTER : HOOK_MASTER1;
  me2.st.back().hookArg = savedWs;
  if (n > 1 && schedExplore) { en.schedule(); }
  return HSWITCH;
}
void Engine::onReturn(int hook, uint64_t arg) {
  Thread& t = T();
  Team* tm = t.team;
  if (hook == HOOK_WORKER) {
    vcMerge(tm->barNext, t.vc);
    tm->finished++;
    t.team = nullptr;
    return;
  }
  auto restore = [](Thread* t, uint64_t ws) {
    t->team = t->teamStack.back().first;
    t->tnum = t->teamStack.back().second;
    t->teamStack.pop_back();
    t->wsCount = ws;
  };
  if (hook == HOOK_MASTER1) { restore(&t, arg); return; }
  if (tm->finished == tm->n - 1) {
    vcMerge(t.vc, tm->barNext);
    vcTick(t);
    restore(&t, arg);
    return;
  }
  Thread* tp = &t;
  t.s = Thread::BLOCK;
  t.waitFor = [tp, tm, arg, restore]() {
    if (tm->finished != tm->n - 1) return false;
    vcMerge(tp->vc, tm->barNext);
    vcTick(*tp);
    restore(tp, arg);
    return true;
  };
}
static void barrier(Engine& en) {
  Thread& t = en.T();
  Team* tm = t.team;
  if (!tm || tm->n < 2) return;
  vcMerge(tm->barNext, t.vc);
  tm->barrierCount++;
  if (tm->barrierCount == tm->n) {
    tm->barrierCount = 0;
    tm->barVC = tm->barNext;
    tm->barNext.clear();
    tm->barrierGen++;
    vcMerge(t.vc, tm->barVC);
    vcTick(t);
    return;
  }
  int g = tm->barrierGen;
  Thread* tp = &t;
  t.s = Thread::BLOCK;
  t.waitFor = [tp, tm, g]() {
    if (tm->barrierGen == g) return false;
    vcMerge(tp->vc, tm->barVC);
    vcTick(*tp);
    return true;
  };
}
H(kmp_barrier) { barrier(en); ret = d.w ? mkC(0, d.w) : nullptr; return HDONE; }
H(kmp_gtid) { ret = mkC(en.T().id, 32); return HDONE; }
H(kmp_push_num) { en.T().pushNum = (int)cu64(en.sol.simp(a[2])); return HDONE; }
H(omp_max) { ret = mkC(en.T().team && en.T().team->n > 1 ? 1 : ompThreads, 32); return HDONE; }
H(omp_num) { ret = mkC(en.T().team ? en.T().team->n : 1, 32); return HDONE; }
H(omp_tid) { ret = mkC(en.T().team ? en.T().tnum : 0, 32); return HDONE; }
H(omp_in_par) { ret = mkC(en.T().team && en.T().team->n > 1, 32); return HDONE; }
H(omp_set) { en.inconclusive("omp_set_num_threads"); return HDONE; }
static int64_t ldS(Engine& en, E p, unsigned n) { 
  E v = en.sol.simp(en.loadV(p, n));
  u256 c = en.concretize(v, 64, "loop bound");
  return n == 4 ? (int64_t)(int32_t)(uint32_t)c : (int64_t)(uint64_t)c;
}
static HR staticInit(Engine& en, std::vector<E>& a, unsigned n) {
  // loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk
  int sched = (int)cu64(a[2]);
  sched &= ~((1 << 29) | (1 << 30));
  int64_t lb = ldS(en, a[4], n), ub = ldS(en, a[5], n);
  E ie = en.sol.simp(a[7]);
  int64_t inc = n == 4 ? (int64_t)(int32_t)(uint32_t)en.concretize(ie, 4, "incr") : (int64_t)(uint64_t)en.concretize(ie, 4, "incr");
  Thread& t = en.T();
  int T = t.team ? t.team->n : 1, me = t.team ? t.tnum : 0;
  auto st = [&](E p, int64_t v) { en.storeV(p, mkConst((u256)(uint64_t)v & maskw(8 * n), 8 * n), n); };
  auto last = [&](bool l) { if (!isZero(a[3])) en.storeV(a[3], mkC(l, 32), 4); };
  __int128 trip = inc > 0 ? ((__int128)ub - lb) / inc + 1 : ((__int128)lb - ub) / -inc + 1;
  if ((inc > 0 && ub < lb) || (inc < 0 && lb < ub)) trip = 0;
  if (sched == 33) {  // chunked
    int64_t ch = (int64_t)(uint64_t)en.concretize(a[8], 4, "chunk");
    if (n == 4) ch = (int32_t)ch;
    if (ch < 1) ch = 1;
    __int128 span = (__int128)ch * inc;
    st(a[6], (int64_t)(span * T));
    int64_t l = (int64_t)(lb + span * me);
    st(a[4], l);
    st(a[5], (int64_t)(l + span - inc));
    last(trip > 0 && me == (int)(((trip - 1) / ch) % T));
    return HDONE;
  }
  if (trip == 0) {
    st(a[6], inc);
    last(false);
    return HDONE;  // libomp leaves the (empty) bounds
  }
  int64_t small = (int64_t)(trip / T), extra = (int64_t)(trip % T);
  int64_t begin = me * small + std::min<int64_t>(me, extra), cnt = small + (me < extra);
  st(a[6], (int64_t)(trip * inc));
  int64_t l = lb + begin * inc, u = l + (cnt - 1) * inc;
  st(a[4], l);
  st(a[5], u);
  last(begin + cnt == trip && cnt > 0);
  return HDONE;
}
H(kmp_static4) { return staticInit(en, a, 4); }
H(kmp_static8) { return staticInit(en, a, 8); }
static HR dispInit(Engine& en, std::vector<E>& a, unsigned n) {
  // loc, gtid, sched, lb, ub, st, chunk
  Thread& t = en.T();
  auto cv = [&](E e) { u256 c = en.concretize(en.sol.simp(e), 64, "loop bound"); return n == 4 ? (int64_t)(int32_t)(uint32_t)c : (int64_t)(uint64_t)c; };
  int sched = (int)cu64(a[2]) & ~((1 << 29) | (1 << 30));
  t.loopIdx = t.wsCount++;
  static std::map<int, LoopState> solo;
  Team* tm = t.team;
  if (!tm) {
    tm = new Team;
    tm->members.push_back(t.id);
    t.team = tm;
  }
  LoopState& l = tm->loops[t.loopIdx];
  if (!l.init) {
    l.init = true;
    l.lb = cv(a[3]);
    l.ub = cv(a[4]);
    l.st = cv(a[5]);
    l.chunk = cv(a[6]);
    if (l.chunk < 1) l.chunk = 1;
    __int128 trip = l.st > 0 ? ((__int128)l.ub - l.lb) / l.st + 1 : ((__int128)l.lb - l.ub) / -l.st + 1;
    if ((l.st > 0 && l.ub < l.lb) || (l.st < 0 && l.lb < l.ub)) trip = 0;
    l.trip = (int64_t)trip;
    l.ordered = sched >= 64 && sched < 96;
    int base = l.ordered ? sched - 32 : sched;
    // Dynamic and guided loops may hand any iteration to any thread; here chunks
    // go round robin (the native runtime used for replays does the same).
    l.isStatic = true;
    if (base == 34) l.chunk = std::max<int64_t>(1, (l.trip + tm->n - 1) / tm->n);
    // Assignment mode: one path per way to hand the chunks of one loop (the k-th
    // dynamic or guided loop of one party) to the threads of the team.
    uint64_t mode = en.modes.count("assign") ? en.modes["assign"] : 0;
    if (tm->n > 1 && mode && base != 33 && base != 34) {
      Thread& m = *en.th[tm->master];
      int k = ++m.dynLoops;
      if (mode == 64 * (uint64_t)m.id + k)
        for (int64_t i = 0; i * l.chunk < l.trip; i++) {
          std::string nm = "assign." + m.label + "." + std::to_string(k) + "." + std::to_string(i);
          l.owner.push_back(concrete ? (int)cu64(en.inputNamed(nm, 64, 0, tm->n - 1)) : pickPath(en, nm, tm->n));
        }
    }
  }
  t.curIter = -1;
  t.orderedDone = false;
  return HDONE;
}
H(kmp_disp_init4) { return dispInit(en, a, 4); }
H(kmp_disp_init8) { return dispInit(en, a, 8); }
static void iterDone(Thread& t) {
  // marks ordered iterations of the last chunk as finished
  if (!t.team || t.loopIdx < 0) return;
  LoopState& l = t.team->loops[t.loopIdx];
  if (l.ordered && t.curIter >= 0) {
    for (int64_t i = t.curIter; i <= t.curHi; i++) l.finished.insert(i);
    while (l.finished.count(l.orderedNext)) l.orderedNext++;
  }
}
static HR dispNext(Engine& en, std::vector<E>& a, unsigned n, E& ret) {
  Thread& t = en.T();
  Team* tm = t.team;
  LoopState& l = tm->loops[t.loopIdx];
  iterDone(t);
  int64_t i;
  if (l.isStatic) {
    int64_t& pos = l.staticPos[t.id];
    if (l.owner.empty()) {
      i = (pos * tm->n + t.tnum) * l.chunk;
    } else {
      while (pos < (int64_t)l.owner.size() && l.owner[pos] != t.tnum) pos++;
      i = pos * l.chunk;
    }
    pos++;
  } else {
    i = l.next;
    l.next += l.chunk;
  }
  auto st = [&](E p, int64_t v) { en.storeV(p, mkConst((u256)(uint64_t)v & maskw(8 * n), 8 * n), n); };
  if (i >= l.trip) {
    t.curIter = -1;
    t.loopIdx = -1;
    ret = mkC(0, 32);
    return HDONE;
  }
  int64_t hi = std::min(i + l.chunk, l.trip) - 1;
  t.curIter = i;
  t.curHi = hi;
  t.orderedDone = false;
  if (!isZero(a[2])) en.storeV(a[2], mkC(hi == l.trip - 1, 32), 4);
  st(a[3], l.lb + i * l.st);
  st(a[4], l.lb + hi * l.st);
  if (!isZero(a[5])) st(a[5], l.st);
  ret = mkC(1, 32);
  if (tm->n > 1) {
    // let the other threads take iterations as well
    bool* once = new bool(false);
    t.s = Thread::BLOCK;
    t.waitFor = [once]() { bool r = *once; *once = true; (void)r; return true; };
  }
  return HDONE;
}
H(kmp_disp_next4) { return dispNext(en, a, 4, ret); }
H(kmp_disp_next8) { return dispNext(en, a, 8, ret); }
H(kmp_ordered) {
  Thread& t = en.T();
  if (!t.team || t.loopIdx < 0) return HDONE;
  Team* tm = t.team;
  LoopState* l = &tm->loops[t.loopIdx];
  if (!l->ordered) return HDONE;
  int idx = t.loopIdx;
  Thread* tp = &t;
  auto enter = [tp, tm, idx]() { vcMerge(tp->vc, tm->orderedVC[idx]); vcTick(*tp); };
  if (l->orderedNext == t.curIter) { enter(); return HDONE; }
  t.s = Thread::BLOCK;
  t.waitFor = [tp, l, enter]() {
    if (l->orderedNext != tp->curIter) return false;
    enter();
    return true;
  };
  return HDONE;
}
H(kmp_end_ordered) {
  Thread& t = en.T();
  if (!t.team || t.loopIdx < 0) return HDONE;
  LoopState& l = t.team->loops[t.loopIdx];
  if (!l.ordered) return HDONE;
  vcMerge(t.team->orderedVC[t.loopIdx], t.vc);
  vcTick(t);
  l.finished.insert(t.curIter);
  t.curIter++;
  while (l.finished.count(l.orderedNext)) l.orderedNext++;
  return HDONE;
}
H(kmp_disp_fini) { return HDONE; }
static void lockAcq(Engine& en, uint64_t key, int tid) {
  en.critOwner[key] = tid;
  vcMerge(en.th[tid]->vc, en.lockVC[key]);
}
H(kmp_critical) {
  uint64_t key = en.cptr(a[2], "lock");
  Thread& t = en.T();
  auto it = en.critOwner.find(key);
  if (it == en.critOwner.end() || it->second < 0) {
    lockAcq(en, key, t.id);
    if (schedExplore && t.team && t.team->n > 1) {}
    return HDONE;
  }
  Engine* ep = &en;
  int id = t.id;
  t.s = Thread::BLOCK;
  t.waitFor = [ep, key, id]() {
    if (ep->critOwner[key] >= 0) return false;
    lockAcq(*ep, key, id);
    return true;
  };
  return HDONE;
}
H(kmp_end_critical) {
  uint64_t key = en.cptr(a[2], "lock");
  Thread& t = en.T();
  vcMerge(en.lockVC[key], t.vc);
  vcTick(t);
  en.critOwner[key] = -1;
  // hand over, so that other threads interleave
  t.s = Thread::BLOCK;
  t.waitFor = []() { return true; };
  return HDONE;
}
H(kmp_single) {
  Thread& t = en.T();
  int k = t.singleCount++;
  bool first = !t.team || t.team->singles.insert(k).second;
  ret = mkC(first, 32);
  return HDONE;
}
H(kmp_master) { ret = mkC(!en.T().team || en.T().tnum == 0, 32); return HDONE; }
H(kmp_reduce) {
  // loc, gtid, num, size, data, func, lock: always take the critical path (1)
  std::vector<E> b{a[0], a[1], a[6]};
  E r2;
  HR h = kmp_critical(en, d, b, r2);
  ret = mkC(1, 32);
  return h;
}
H(kmp_end_reduce_nowait) { return kmp_end_critical(en, d, a, ret); }
H(kmp_end_reduce) {
  kmp_end_critical(en, d, a, ret);
  Thread& t = en.T();
  t.s = Thread::RUN;
  t.waitFor = nullptr;
  barrier(en);
  return HDONE;
}
H(h_nop) { if (d.w) ret = mkC(0, d.w); return HDONE; }

static void installExterns(Engine& en) {
  auto& x = en.ext;
  x["_Znwm"] = h_new; x["_Znam"] = h_newa; x["_ZnwmSt11align_val_t"] = h_new; x["_ZnamSt11align_val_t"] = h_newa;
  x["_ZnwmRKSt9nothrow_t"] = h_newnt; x["_ZnamRKSt9nothrow_t"] = h_newant; x["_ZnwmSt11align_val_tRKSt9nothrow_t"] = h_newnt;
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) x[n] = h_del;
  for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) x[n] = h_dela;
  x["malloc"] = h_malloc; x["free"] = h_free; x["calloc"] = h_calloc; x["realloc"] = h_realloc;
  x["posix_memalign"] = h_posix_memalign; x["aligned_alloc"] = h_aligned_alloc; x["memalign"] = h_aligned_alloc; x["_mm_malloc"] = h_malloc;
  x["memcpy"] = h_memcpy; x["memmove"] = h_memcpy; x["memset"] = h_memset; x["memcmp"] = h_memcmp; x["bcmp"] = h_memcmp;
  x["strlen"] = h_strlen; x["memchr"] = h_memchr;
  x["abort"] = h_abort; x["_ZSt9terminatev"] = h_terminate; x["__assert_fail"] = h_assert; x["exit"] = h_exit; x["_exit"] = h_exit;
  x["__clang_call_terminate"] = h_terminate; x["__cxa_pure_virtual"] = h_abort;
  x["_ZSt20__throw_length_errorPKc"] = h_thr_len; x["_ZSt20__throw_out_of_rangePKc"] = h_thr_oor;
  x["_ZSt24__throw_out_of_range_fmtPKcz"] = h_thr_oor; x["_ZSt24__throw_invalid_argumentPKc"] = h_thr_inv;
  x["_ZSt19__throw_logic_errorPKc"] = h_thr_logic; x["_ZSt21__throw_runtime_errorPKc"] = h_thr_run;
  x["_ZSt17__throw_bad_allocv"] = h_thr_alloc; x["_ZSt28__throw_bad_array_new_lengthv"] = h_thr_newlen;
  // Standard exceptions: only their type matters.
  for (const char* n : {"11logic_error", "12domain_error", "16invalid_argument", "12length_error", "12out_of_range", "13runtime_error", "11range_error", "14overflow_error", "15underflow_error"})
    for (const char* m : {"C1", "C2", "D0", "D1", "D2"})
      for (const char* a : {"ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "EPKc", "ERKS_", "EOS_", "Ev"}) x[std::string("_ZNSt") + n + m + a] = h_nop;
  x["_ZNSt9exceptionD2Ev"] = h_nop; x["_ZNSt9exceptionD1Ev"] = h_nop;
  x["__cxa_throw_bad_array_new_length"] = h_thr_newlen; x["_ZSt25__throw_bad_function_callv"] = h_thr_func;
  x["_ZSt26__throw_bad_variant_accessPKc"] = h_thr_var;
  x["__cxa_allocate_exception"] = h_cxa_alloc; x["__cxa_throw"] = h_cxa_throw; x["__cxa_begin_catch"] = h_begin_catch;
  x["__cxa_end_catch"] = h_end_catch; x["__cxa_rethrow"] = h_rethrow; x["__cxa_free_exception"] = h_nop; x["__cxa_get_exception_ptr"] = h_id0;
  x["_Unwind_Resume"] = h_resume;
  x["__cxa_atexit"] = h_nop; x["__cxa_thread_atexit"] = h_nop; x["__cxa_guard_acquire"] = h_guard_acquire; x["__cxa_guard_release"] = h_guard_release;
  x["__cxa_guard_abort"] = h_nop; x["_ZNSt8ios_base4InitC1Ev"] = h_nop; x["_ZNSt8ios_base4InitD1Ev"] = h_nop;
  x["puts"] = h_nop; x["printf"] = h_nop; x["fprintf"] = h_nop; x["fflush"] = h_nop; x["putchar"] = h_nop; x["fwrite"] = h_nop; x["perror"] = h_nop;
  for (auto& p : std::vector<std::pair<const char*, Handler>>{{"log2", h_log2}, {"log", h_log}, {"ceil", h_ceil}, {"floor", h_floor}, {"sqrt", h_sqrt}, {"fabs", h_fabs},
       {"exp", h_exp}, {"erf", h_erf}, {"log10", h_log10}, {"exp2", h_exp2}, {"round", h_round}, {"trunc", h_trunc}, {"rint", h_rint}, {"nearbyint", h_rint}}) {
    x[p.first] = p.second;
    x[std::string(p.first) + "f"] = p.second;
  }
  x["pow"] = h_pow; x["fmod"] = h_fmod; x["fmin"] = h_fmin; x["fmax"] = h_fmax; x["ldexp"] = h_ldexp; x["scalbn"] = h_ldexp; x["lround"] = h_lround; x["llround"] = h_lround;
  x["sx_var"] = sx_var; x["sx_range"] = sx_range; x["sx_bytes"] = sx_bytes; x["sx_pick"] = sx_pick; x["sx_conc"] = sx_conc;
  x["sx_assume"] = sx_assume; x["sx_check"] = sx_check; x["sx_check_eq"] = sx_check_eq; x["sx_fail"] = sx_fail; x["sx_distinct"] = sx_distinct; x["sx_reach"] = sx_reach;
  x["sx_observe"] = sx_observe; x["sx_tid"] = sx_tid; x["sx_spawn"] = sx_spawn; x["sx_wait"] = sx_wait; x["sx_notify"] = sx_notify;
  x["sx_join"] = sx_join; x["sx_mode"] = sx_mode; x["sx_symbolic"] = sx_symbolic; x["sx_label"] = sx_label; x["sx_aes"] = sx_aes; x["sx_gfmul"] = sx_gfmul;
  x["sx_modadd"] = sx_modadd; x["sx_modmul"] = sx_modmul; x["sx_modneg"] = sx_modneg; x["sx_lock"] = h_nop; x["sx_unlock"] = h_nop;
  x["sx_ite"] = sx_ite; x["sx_note"] = sx_note; x["sx_live"] = sx_live;
  x["__kmpc_fork_call"] = kmp_fork; x["__kmpc_barrier"] = kmp_barrier; x["__kmpc_cancel_barrier"] = kmp_barrier; x["__kmpc_global_thread_num"] = kmp_gtid;
  x["__kmpc_push_num_threads"] = kmp_push_num; x["omp_get_max_threads"] = omp_max; x["omp_get_num_threads"] = omp_num; x["omp_get_thread_num"] = omp_tid;
  x["omp_in_parallel"] = omp_in_par; x["omp_set_num_threads"] = omp_set; x["omp_get_num_procs"] = omp_max; x["omp_get_thread_limit"] = omp_max;
  x["__kmpc_for_static_init_4"] = kmp_static4; x["__kmpc_for_static_init_4u"] = kmp_static4; x["__kmpc_for_static_init_8"] = kmp_static8; x["__kmpc_for_static_init_8u"] = kmp_static8;
  x["__kmpc_for_static_fini"] = h_nop;
  x["__kmpc_dispatch_init_4"] = kmp_disp_init4; x["__kmpc_dispatch_init_4u"] = kmp_disp_init4; x["__kmpc_dispatch_init_8"] = kmp_disp_init8; x["__kmpc_dispatch_init_8u"] = kmp_disp_init8;
  x["__kmpc_dispatch_next_4"] = kmp_disp_next4; x["__kmpc_dispatch_next_4u"] = kmp_disp_next4; x["__kmpc_dispatch_next_8"] = kmp_disp_next8; x["__kmpc_dispatch_next_8u"] = kmp_disp_next8;
  for (const char* n : {"__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_8u", "__kmpc_dispatch_deinit"}) x[n] = kmp_disp_fini;
  x["__kmpc_ordered"] = kmp_ordered; x["__kmpc_end_ordered"] = kmp_end_ordered; x["__kmpc_critical"] = kmp_critical; x["__kmpc_critical_with_hint"] = kmp_critical; x["__kmpc_end_critical"] = kmp_end_critical;
  x["__kmpc_single"] = kmp_single; x["__kmpc_end_single"] = h_nop; x["__kmpc_master"] = kmp_master; x["__kmpc_masked"] = kmp_master; x["__kmpc_end_master"] = h_nop; x["__kmpc_end_masked"] = h_nop;
  x["__kmpc_reduce"] = kmp_reduce; x["__kmpc_reduce_nowait"] = kmp_reduce; x["__kmpc_end_reduce_nowait"] = kmp_end_reduce_nowait; x["__kmpc_end_reduce"] = kmp_end_reduce;
  x["__kmpc_serialized_parallel"] = h_nop; x["__kmpc_end_serialized_parallel"] = h_nop; x["__kmpc_flush"] = h_nop; x["__kmpc_push_proc_bind"] = h_nop;
}

// ---- intrinsics
HR Engine::intrinsic(Function* f, DI& d, std::vector<E>& a, E& ret) {
  StringRef nm = f->getName();
  auto vec = [&](auto fn) {
    auto* vt = dyn_cast<FixedVectorType>(d.I->getType());
    if (!vt) { ret = fn(a); return HDONE; }
    unsigned n = vt->getNumElements(), ew = bits(vt->getElementType());
    std::vector<E> out;
    for (unsigned i = 0; i < n; i++) {
      std::vector<E> l;
      for (E x : a) l.push_back(x->w == n * ew ? lane(x, i, ew) : x);
      out.push_back(fn(l));
    }
    ret = pack(out);
    return HDONE;
  };
  switch (f->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::prefetch:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::stackrestore:
    case Intrinsic::var_annotation: case Intrinsic::x86_sse2_pause: case Intrinsic::x86_sse2_lfence: case Intrinsic::x86_sse2_mfence:
    case Intrinsic::invariant_end:
      return HDONE;
    case Intrinsic::invariant_start: ret = mkC(0, 64); return HDONE;
    case Intrinsic::stacksave: ret = mkC(0, 64); return HDONE;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      E r;
      if (a[2]->w < 64) a[2] = mkZExt(a[2], 64);
      return h_memcpy(*this, d, a, r);
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      E r;
      if (a[2]->w < 64) a[2] = mkZExt(a[2], 64);
      return h_memset(*this, d, a, r);
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violHere("abort", "trap"); return HDONE;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: {
      if (f->getIntrinsicID() == Intrinsic::threadlocal_address) {
        auto* g = cast<GlobalVariable>(cast<CallBase>(d.I)->getArgOperand(0)->stripPointerCasts());
        auto it = T().tls.find(g);
        if (it == T().tls.end()) {
          uint64_t p = newObj(DL->getTypeAllocSize(g->getValueType()), OTLS, "thread_local " + g->getName().str());
          std::fill(objs.back().st.begin(), objs.back().st.end(), 1);
          if (g->hasInitializer()) initMem(p, g->getInitializer());
          it = T().tls.insert({g, p}).first;
        }
        ret = mkC(it->second, 64);
        return HDONE;
      }
      ret = a[0];
      return HDONE;
    }
    case Intrinsic::is_constant: ret = mkFalse(); return HDONE;
    case Intrinsic::objectsize: ret = isTrue(a[1]) ? mkC(0, d.w) : mkConst(maskw(d.w), d.w); return HDONE;
    case Intrinsic::ctpop: return vec([&](std::vector<E>& x) { return mkUF(UF_CTPOP, x[0]->w, {x[0]}); });
    case Intrinsic::ctlz: return vec([&](std::vector<E>& x) { return mkUF(UF_CTLZ, x[0]->w, {x[0]}); });
    case Intrinsic::cttz: return vec([&](std::vector<E>& x) { return mkUF(UF_CTTZ, x[0]->w, {x[0]}); });
    case Intrinsic::bswap: return vec([&](std::vector<E>& x) { return mkUF(UF_BSWAP, x[0]->w, {x[0]}); });
    case Intrinsic::bitreverse: return vec([&](std::vector<E>& x) { return mkUF(UF_BITREV, x[0]->w, {x[0]}); });
    case Intrinsic::umin: return vec([&](std::vector<E>& x) { return mkIte(mkUlt(x[0], x[1]), x[0], x[1]); });
    case Intrinsic::umax: return vec([&](std::vector<E>& x) { return mkIte(mkUlt(x[0], x[1]), x[1], x[0]); });
    case Intrinsic::smin: return vec([&](std::vector<E>& x) { return mkIte(mkSlt(x[0], x[1]), x[0], x[1]); });
    case Intrinsic::smax: return vec([&](std::vector<E>& x) { return mkIte(mkSlt(x[0], x[1]), x[1], x[0]); });
    case Intrinsic::abs: return vec([&](std::vector<E>& x) { return mkIte(mkSlt(x[0], mkC(0, x[0]->w)), mkNeg(x[0]), x[0]); });
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool l = f->getIntrinsicID() == Intrinsic::fshl;
      return vec([&](std::vector<E>& x) {
        unsigned w = x[0]->w;
        E s = x[2]->isConst() ? mkConst(x[2]->val() % w, w) : mkURem(x[2], mkC(w, w));
        if (s->isConst()) {
          unsigned k = cu64(s);
          if (k == 0) return l ? x[0] : x[1];
          if (!l) k = w - k;
          return mkConcat(mkExtract(x[0], w - 1 - k, 0), mkExtract(x[1], w - 1, w - k));
        }
        if (2 * w > 256) inconclusive("funnel shift");
        E c = mkConcat(x[0], x[1]), s2 = mkZExt(s, 2 * w);
        return l ? mkExtract(mkShl(c, s2), 2 * w - 1, w) : mkExtract(mkLShr(c, s2), w - 1, 0);
      });
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0]->w;
      E r, o;
      switch (f->getIntrinsicID()) {
        case Intrinsic::uadd_with_overflow: r = mkAdd(a[0], a[1]); o = mkUlt(r, a[0]); break;
        case Intrinsic::usub_with_overflow: r = mkSub(a[0], a[1]); o = mkUlt(a[0], a[1]); break;
        case Intrinsic::umul_with_overflow: {
          r = mkMul(a[0], a[1]);
          if (2 * w > 256) inconclusive("wide umul overflow");
          E p = mkMul(mkZExt(a[0], 2 * w), mkZExt(a[1], 2 * w));
          o = mkNot(mkEq(mkExtract(p, 2 * w - 1, w), mkC(0, w)));
          break;
        }
        case Intrinsic::sadd_with_overflow: r = mkAdd(a[0], a[1]); o = mkNot(mkEq(mkSExt(r, w + 1), mkAdd(mkSExt(a[0], w + 1), mkSExt(a[1], w + 1)))); break;
        case Intrinsic::ssub_with_overflow: r = mkSub(a[0], a[1]); o = mkNot(mkEq(mkSExt(r, w + 1), mkSub(mkSExt(a[0], w + 1), mkSExt(a[1], w + 1)))); break;
        default: {
          r = mkMul(a[0], a[1]);
          if (2 * w > 256) inconclusive("wide smul overflow");
          E p = mkMul(mkSExt(a[0], 2 * w), mkSExt(a[1], 2 * w));
          o = mkNot(mkEq(mkSExt(r, 2 * w), p));
        }
      }
      ret = mkConcat(o, r);
      return HDONE;
    }
    case Intrinsic::uadd_sat: return vec([&](std::vector<E>& x) { E r = mkAdd(x[0], x[1]); return mkIte(mkUlt(r, x[0]), mkConst(maskw(r->w), r->w), r); });
    case Intrinsic::usub_sat: return vec([&](std::vector<E>& x) { return mkIte(mkUlt(x[0], x[1]), mkC(0, x[0]->w), mkSub(x[0], x[1])); });
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_mul: {
      unsigned ew = d.w;
      E r = nullptr;
      for (unsigned i = 0; i * ew < a[0]->w; i++) {
        E x = lane(a[0], i, ew);
        if (!r) { r = x; continue; }
        switch (f->getIntrinsicID()) {
          case Intrinsic::vector_reduce_add: r = mkAdd(r, x); break;
          case Intrinsic::vector_reduce_mul: r = mkMul(r, x); break;
          case Intrinsic::vector_reduce_xor: r = mkXor(r, x); break;
          case Intrinsic::vector_reduce_or: r = mkOr(r, x); break;
          case Intrinsic::vector_reduce_and: r = mkAnd(r, x); break;
          case Intrinsic::vector_reduce_umax: r = mkIte(mkUlt(r, x), x, r); break;
          default: r = mkIte(mkUlt(r, x), r, x);
        }
      }
      ret = r;
      return HDONE;
    }
    case Intrinsic::eh_typeid_for: {
      E p = sol.simp(a[0]);
      ret = mkC((cu64(p) >> 32) + 1, 32);
      return HDONE;
    }
    case Intrinsic::fabs: return h_fabs(*this, d, a, ret);
    case Intrinsic::floor: return h_floor(*this, d, a, ret);
    case Intrinsic::ceil: return h_ceil(*this, d, a, ret);
    case Intrinsic::sqrt: return h_sqrt(*this, d, a, ret);
    case Intrinsic::log2: return h_log2(*this, d, a, ret);
    case Intrinsic::log: return h_log(*this, d, a, ret);
    case Intrinsic::log10: return h_log10(*this, d, a, ret);
    case Intrinsic::exp: return h_exp(*this, d, a, ret);
    case Intrinsic::exp2: return h_exp2(*this, d, a, ret);
    case Intrinsic::pow: return h_pow(*this, d, a, ret);
    case Intrinsic::round: return h_round(*this, d, a, ret);
    case Intrinsic::trunc: return h_trunc(*this, d, a, ret);
    case Intrinsic::rint: case Intrinsic::nearbyint: return h_rint(*this, d, a, ret);
    case Intrinsic::minnum: case Intrinsic::minimum: return h_fmin(*this, d, a, ret);
    case Intrinsic::maxnum: case Intrinsic::maximum: return h_fmax(*this, d, a, ret);
    case Intrinsic::ldexp: return h_ldexp(*this, d, a, ret);
    case Intrinsic::powi:
      ret = mkUF(UF_FPOW, 64, {a[0], mkUF(UF_SITOFP, 64, {a[1]})});
      return HDONE;
    case Intrinsic::fmuladd: ret = fop(Instruction::FAdd, fop(Instruction::FMul, a[0], a[1]), a[2]); return HDONE;
    case Intrinsic::copysign: {
      unsigned w = a[0]->w;
      ret = mkConcat(mkExtract(a[1], w - 1, w - 1), mkExtract(a[0], w - 2, 0));
      return HDONE;
    }
    case Intrinsic::is_fpclass: {
      if (a[0]->isConst() && a[0]->w == 64) {
        double v = bd(a[0]);
        unsigned m = cu64(a[1]);
        int c = std::fpclassify(v);
        bool neg = std::signbit(v);
        unsigned bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (neg ? 4 : 0x200) : c == FP_NORMAL ? (neg ? 8 : 0x100) : c == FP_SUBNORMAL ? (neg ? 0x10 : 0x80) : (neg ? 0x20 : 0x40);
        ret = mkC((m & bit) != 0, 1);
        return HDONE;
      }
      break;
    }
    case Intrinsic::x86_pclmulqdq: {
      unsigned k = cu64(sol.simp(a[2]));
      ret = mkUF(UF_CLMUL, 128, {lane(a[0], k & 1, 64), lane(a[1], (k >> 4) & 1, 64)});
      return HDONE;
    }
    case Intrinsic::load_relative: break;
    case Intrinsic::vastart: case Intrinsic::vaend: return HDONE;
    default: break;
  }
  inconclusive("intrinsic " + nm.str());
}

HR Engine::callFn(Function* f, DI& d, std::vector<E>& a, E& ret) {
  if (f->isIntrinsic()) return intrinsic(f, d, a, ret);
  auto ic = intercept.find(f->getName().str());
  if (ic != intercept.end()) {
    usedFns.insert(f->getName().str() + " [replaced by " + ic->second + "]");
    if (ic->second == "gfmul_assign" || ic->second == "gfmul" || ic->second == "gfsquare" || ic->second == "gfsquared") {
      if (ic->second == "gfmul_assign") {  // gf128& operator*=(this, const gf128&)
        E r = mkUF(UF_GFMUL, 128, {loadV(a[0], 16), loadV(a[1], 16)});
        storeV(a[0], r, 16);
        ret = d.w ? a[0] : nullptr;
        return HDONE;
      }
    }
    inconclusive("intercept " + ic->second);
  }
  auto it = ext.find(f->getName().str());
  if (it != ext.end()) return it->second(*this, d, a, ret);
  if (!f->isDeclaration()) {
    pushFrame(T(), f, a);
    return HSWITCH;
  }
  inconclusive("external function " + demangle(f->getName().str()));
}

int main(int argc, char** argv) {
  std::string bc, ic;
  double secs = 600;
  int jobs = 8;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto val = [&](const char* k) -> const char* { size_t n = strlen(k); return s.compare(0, n, k) == 0 ? s.c_str() + n : nullptr; };
    if (auto v = val("--entry=")) entryName = v;
    else if (auto v = val("--out=")) outDir = v;
    else if (auto v = val("--concrete=")) { concrete = true; concSeed = strtoull(v, nullptr, 0); }
    else if (auto v = val("--assign=")) { concrete = true; haveAssign = true; 
      std::ifstream in(v); std::string n, x;
      while (in >> n >> x) { u256 r = 0; for (char c : x) { if (c == 'x') { r = 0; continue; } r = r * 16 + (u256)(unsigned)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } assign[n] = r; } }
    else if (auto v = val("--time=")) secs = atof(v);
    else if (auto v = val("--jobs=")) jobs = atoi(v);
    else if (auto v = val("--insts=")) maxInsts = strtoull(v, nullptr, 0);
    else if (auto v = val("--paths=")) maxPaths = strtoull(v, nullptr, 0);
    else if (auto v = val("--rl-prove=")) g_rlProve = strtoull(v, nullptr, 0);
    else if (auto v = val("--rl-feas=")) g_rlFeas = strtoull(v, nullptr, 0);
    else if (auto v = val("--intercept=")) ic = v;
    else bc = s;
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  sem_init(&sh->tokens, 1, jobs - 1);
  g_st = &sh->st;
  deadlineUs = nowMicros() + (uint64_t)(secs * 1e6);
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symx", errs()); return 3; }
  static Engine en;
  en.M = M.get();
  en.DL = new DataLayout(M->getDataLayout());
  if (!ic.empty()) {
    std::stringstream ss(ic);
    std::string t;
    while (std::getline(ss, t, ',')) { size_t p = t.find(':'); en.intercept[t.substr(0, p)] = t.substr(p + 1); }
  }
  installExterns(en);
  Thread* t = new Thread;
  en.th.push_back(t);
  t->vc.resize(1);
  t->vc[0] = 1;
  en.initGlobals();
  Function* F = M->getFunction(entryName);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 3; }
  // constructors
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function*>> cs;
    if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& o : a->operands()) {
        auto* s = cast<ConstantStruct>(o.get());
        if (auto* cf = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cf});
      }
    std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& c : cs) {
      t->s = Thread::RUN;
      en.pushFrame(*t, c.second, {});
      en.run();
    }
  }
  t->s = Thread::RUN;
  std::vector<E> args;
  for (auto& p : F->args()) args.push_back(mkC(0, en.bits(p.getType())));
  en.pushFrame(*t, F, args);
  en.run();
  if (concrete) { printf("END\n"); fflush(stdout); }
  finish(0);
}
