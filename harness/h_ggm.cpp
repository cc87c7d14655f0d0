// C10, C11, C12: GGM trees.
#include "sx.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <vector>
#include "distributed_vector_ole/ggm_tree.h"
#include "mpc_utils/status.h"
extern "C" unsigned sx_rand_chunk = 16;
using distributed_vector_ole::GGMTree;
typedef GGMTree::Block Block;
namespace {
Block any(const char* n) {
  sx_u128 v = sx_var128(n);
  return absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v);
}
void same(const Block& a, const Block& b, const char* l) { sx_check_eq(&a, &b, 16, l); }
Block prg(const Block& key, const Block& p) {
  Block c;
  sx_aes(&key, 16, &p, &c);
  return c ^ p;
}
std::vector<Block> anyKeys(int n) {
  std::vector<Block> k;
  for (int i = 0; i < n; i++) k.push_back(any("key"));
  return k;
}
template <typename S>
bool inval(const S& s) { return !s.ok() && mpc_utils::IsInvalidArgument(s.status()); }
// The tree's values, checked against the definition.
void checkTree(const GGMTree& t, int arity, int64_t leaves, const Block& seed, const std::vector<Block>& keys) {
  sx_check(t.arity() == arity, "arity");
  sx_check(t.num_leaves() == leaves, "number of leaves");
  int L = t.num_levels();
  sx_check(L >= 1, "at least one level");
  sx_check(t.level_size(L - 1) == leaves, "the last level holds the leaves");
  sx_check(t.level_size(0) == 1, "the first level is the root");
  sx_check((int)t.keys().size() == arity, "number of keys");
  for (int i = 0; i < arity; i++) same(t.keys()[i], keys[i], "keys are kept");
  // Enough levels and (up to rounding of the logarithm) no more.
  int64_t cover = 1;
  int need = 1;
  while (cover < leaves) { cover *= arity; need++; }
  sx_check(L == need || L == need + 1, "number of levels");
  auto root = t.GetValueAtNode(0, 0);
  sx_check(root.ok(), "root exists");
  same(root.ValueOrDie(), seed, "the root is the seed");
  for (int l = 1; l < L; l++) {
    int64_t n = t.level_size(l);
    sx_check(t.level_size(l - 1) == (n + arity - 1) / arity, "each level covers the next");
    for (int64_t i = 0; i < n; i++) {
      auto v = t.GetValueAtNode(l, i), p = t.GetValueAtNode(l - 1, i / arity);
      sx_check(v.ok() && p.ok(), "node exists");
      same(v.ValueOrDie(), prg(keys[i % arity], p.ValueOrDie()), "child j is AES(key j, parent) xor parent");
    }
  }
  for (int64_t i = 0; i < leaves; i++) {
    auto a = t.GetValueAtLeaf(i), b = t.GetValueAtNode(L - 1, i);
    sx_check(a.ok() && b.ok(), "leaf exists");
    same(a.ValueOrDie(), b.ValueOrDie(), "GetValueAtLeaf reads the last level");
  }
}
void checkXors(const GGMTree& t, const std::vector<std::vector<Block>>& x) {
  int L = t.num_levels(), A = t.arity();
  sx_check((int)x.size() == L - 1, "one vector of XORs per level below the root");
  for (int l = 1; l < L; l++) {
    sx_check((int)x[l - 1].size() == A, "one XOR per sibling");
    for (int j = 0; j < A; j++) {
      Block s = 0;
      for (int64_t i = j; i < t.level_size(l); i += A) s ^= t.GetValueAtNode(l, i).ValueOrDie();
      same(x[l - 1][j], s, "XOR of all j-th siblings");
    }
  }
}
void build(int arity, int64_t leaves) {
  Block seed = any("seed");
  auto keys = anyKeys(arity);
  auto r = GGMTree::Create(leaves, seed, keys);
  sx_check(r.ok(), "Create accepts valid arguments");
  auto t = std::move(r.ValueOrDie());
  checkTree(*t, arity, leaves, seed, keys);
  checkXors(*t, t->GetSiblingWiseXOR());
  Block last = t->GetValueAtLeaf(leaves - 1).ValueOrDie();
  sx_obs("last", last);
  sx_reach("done");
}
void puncture(int arity, int64_t leaves, int64_t missing, Block seed, const std::vector<Block>& keys) {
  auto r = GGMTree::Create(leaves, seed, keys);
  sx_check(r.ok(), "Create accepts valid arguments");
  auto t = std::move(r.ValueOrDie());
  auto x = t->GetSiblingWiseXOR();
  int L = t->num_levels();
  std::vector<int64_t> path(L);
  path[L - 1] = missing;
  for (int l = L - 2; l >= 0; l--) path[l] = path[l + 1] / arity;
  // Entries on the path are arbitrary.
  for (int l = 1; l < L; l++) x[l - 1][path[l] % arity] = any("onpath");
  auto q = GGMTree::CreateFromSiblingWiseXOR(arity, leaves, missing, x, keys);
  sx_check(q.ok(), "CreateFromSiblingWiseXOR accepts valid arguments");
  auto p = std::move(q.ValueOrDie());
  sx_check(p->num_levels() == L && p->num_leaves() == leaves && p->arity() == arity, "same shape");
  for (int l = 0; l < L; l++) {
    sx_check(p->level_size(l) == t->level_size(l), "same level size");
    for (int64_t i = 0; i < t->level_size(l); i++) {
      Block v = p->GetValueAtNode(l, i).ValueOrDie();
      if (i == path[l]) same(v, Block(0), "nodes on the path read as zero");
      else same(v, t->GetValueAtNode(l, i).ValueOrDie(), "nodes off the path are those of the tree");
    }
  }
  sx_obs("first", p->GetValueAtLeaf(0).ValueOrDie());
  sx_reach("done");
}
void puncture(int arity, int64_t leaves, int64_t missing) { puncture(arity, leaves, missing, any("seed"), anyKeys(arity)); }
}  // namespace
extern "C" {
// ---------------------------------------------------------------- C10
static void shapes(int maxA, int maxN) {
  int a = 2 + (int)sx_pick("arity", maxA - 1);
  build(a, 1 + (int64_t)sx_pick("leaves", maxN));
}
// Trees made one after the other, with keys that differ in some places only.
static std::vector<Block> otherKeys(const std::vector<Block>& k) {
  uint64_t keep = sx_pick("kept_keys", 1ull << k.size());
  std::vector<Block> r = k;
  for (size_t i = 0; i < k.size(); i++)
    if (!(keep >> i & 1)) r[i] = any("key");
  return r;
}
void c10_sequence() {
  int a = 2 + (int)sx_pick("arity", 2);
  Block seed = any("seed");
  auto k1 = anyKeys(a), k2 = otherKeys(k1);
  Block seed2 = sx_pick("kept_seed", 2) ? seed : any("seed");
  auto t1 = GGMTree::Create(5, seed, k1), t2 = GGMTree::Create(5 + (int64_t)sx_pick("more", 2), seed2, k2), t3 = GGMTree::Create(5, seed, k1);
  sx_check(t1.ok() && t2.ok() && t3.ok(), "Create accepts valid arguments");
  checkTree(*t1.ValueOrDie(), a, 5, seed, k1);
  checkTree(*t2.ValueOrDie(), a, t2.ValueOrDie()->num_leaves(), seed2, k2);
  checkTree(*t3.ValueOrDie(), a, 5, seed, k1);
  sx_reach("done");
}
// Large trees: many levels, many siblings, sizes around powers of two and of the arity.
void c10_large() {
  static const int sh[][2] = {{2, 1024}, {2, 1025}, {2, 3000}, {3, 2188}, {4, 4096}, {7, 2402}, {16, 4097}, {33, 1090}, {64, 4100}, {100, 300}, {257, 300}, {1000, 1001}};
  auto& s = sh[sx_pick("shape", 12)];
  build(s[0], s[1]);
}
void c10_small() { shapes(6, 18); }
void c10_wide() { shapes(20, 70); }
void c10_powers() {
  static const int sh[][2] = {{2, 64}, {2, 63}, {2, 65}, {3, 81}, {3, 82}, {4, 64}, {5, 125}, {5, 124}, {6, 216}, {10, 101}, {16, 256}, {17, 40}};
  auto& s = sh[sx_pick("shape", 12)];
  build(s[0], s[1]);
}
void c10_arity() {
  // The overload that draws the keys.
  int a = 2 + (int)sx_pick("arity", 4);
  Block seed = any("seed");
  auto r = GGMTree::Create(a, 7, seed);
  sx_check(r.ok(), "Create accepts valid arguments");
  auto t = std::move(r.ValueOrDie());
  std::vector<Block> keys(t->keys().begin(), t->keys().end());
  checkTree(*t, a, 7, seed, keys);
  sx_reach("done");
}
// ---------------------------------------------------------------- C11
void c11_sequence() {
  int a = 2 + (int)sx_pick("arity", 2);
  Block seed = any("seed");
  auto k1 = anyKeys(a), k2 = otherKeys(k1);
  Block seed2 = sx_pick("kept_seed", 2) ? seed : any("seed");
  puncture(a, 5, 3, seed, k1);
  puncture(a, 5, (int64_t)sx_pick("missing", 5), seed2, k2);
}
static void punctures(int maxA, int maxN) {
  int a = 2 + (int)sx_pick("arity", maxA - 1);
  int64_t n = 1 + (int64_t)sx_pick("leaves", maxN);
  puncture(a, n, (int64_t)sx_pick("missing", n));
}
void c11_small() { punctures(5, 12); }
void c11_wide() { punctures(9, 30); }
void c11_large() {
  static const int sh[][2] = {{2, 1025}, {2, 2048}, {3, 730}, {16, 1000}, {17, 4915}, {65, 300}, {300, 301}};
  auto& s = sh[sx_pick("shape", 7)];
  int64_t m = 0;
  switch (sx_pick("where", 4)) {
    case 0: m = 0; break;
    case 1: m = s[1] - 1; break;
    case 2: m = s[1] / 2 + 1; break;
    default: m = s[0] + 1 < s[1] ? s[0] + 1 : s[0]; break;
  }
  puncture(s[0], s[1], m);
}
void c11_powers() {
  static const int sh[][2] = {{2, 32}, {2, 33}, {3, 27}, {3, 28}, {4, 17}, {5, 125}, {8, 65}};
  auto& s = sh[sx_pick("shape", 7)];
  static const int at[] = {0, 1, 2, 3};
  int64_t m = 0;
  switch (sx_pick("where", 5)) {
    case 0: m = 0; break;
    case 1: m = s[1] - 1; break;
    case 2: m = s[1] / 2; break;
    case 3: m = s[0]; break;
    default: m = s[1] - s[0]; break;
  }
  (void)at;
  puncture(s[0], s[1], m);
}
// ---------------------------------------------------------------- C12
void c12_create() {
  // Any leaf count that is not positive; any number of keys below two.
  int64_t n = (int64_t)sx_range("leaves", 1ull << 63, ~0ull);  // negative
  int k = (int)sx_pick("keys", 5);
  auto r = GGMTree::Create(n, any("seed"), anyKeys(k));
  sx_check(inval(r), "Create rejects a negative leaf count");
  sx_check(inval(GGMTree::Create(0, any("seed"), anyKeys(k))), "Create rejects zero leaves");
  auto q = GGMTree::Create(1 + (int64_t)sx_pick("positive", 5), any("seed"), anyKeys(k));
  if (k < 2) sx_check(inval(q), "Create rejects fewer than two keys");
  else sx_check(q.ok(), "Create accepts valid arguments");
  sx_reach("done");
}
void c12_create_arity() {
  int a = (int)(int32_t)sx_range("arity", 0x80000000ull, 0xffffffffull);  // negative
  sx_check(inval(GGMTree::Create(a, 4, any("seed"))), "Create rejects a negative arity");
  int b = (int)sx_pick("small", 4);
  auto q = GGMTree::Create(b, 4, any("seed"));
  if (b < 2) sx_check(inval(q), "Create rejects an arity below two");
  else sx_check(q.ok(), "Create accepts valid arguments");
  sx_reach("done");
}
static int levelsFor(int arity, int64_t leaves) {
  // The shape of a tree with these parameters, from the tree itself.
  auto r = GGMTree::Create(leaves, Block(1), std::vector<Block>(arity, Block(5)));
  return r.ValueOrDie()->num_levels();
}
void c12_rebuild_scalars() {
  // Arbitrary arity, leaf count and missing index with well-shaped vectors for arity 2, 4 leaves.
  std::vector<std::vector<Block>> x(2, std::vector<Block>(2, any("xor")));
  auto keys = anyKeys(2);
  switch (sx_pick("which", 3)) {
    case 0: {
      int a = (int)(int32_t)sx_var("arity", 32);
      sx_assume(a < 2);
      sx_check(inval(GGMTree::CreateFromSiblingWiseXOR(a, 4, 1, x, keys)), "arity below two is rejected");
      break;
    }
    case 1: {
      int64_t n = (int64_t)sx_var("leaves", 64);
      sx_assume(n <= 0);
      int64_t m = (int64_t)sx_var("missing", 64);
      sx_check(inval(GGMTree::CreateFromSiblingWiseXOR(2, n, m, x, keys)), "non-positive leaf count is rejected");
      break;
    }
    default: {
      int64_t m = (int64_t)sx_var("missing", 64);
      auto r = GGMTree::CreateFromSiblingWiseXOR(2, 4, m, x, keys);
      if (m >= 0 && m < 4) {
        sx_check(r.ok(), "an index inside the tree is accepted");
        sx_reach("inside");
      } else {
        sx_check(inval(r), "an index outside the tree is rejected");
        sx_reach("outside");
      }
    }
  }
}
static void rebuildShapes(int maxA, int maxN) {
  int a = 2 + (int)sx_pick("arity", maxA - 1);
  int64_t n = 1 + (int64_t)sx_pick("leaves", maxN);
  int L = levelsFor(a, n);
  int levels = (int)sx_pick("levels", L + 2);        // 0 .. L+1 vectors of XORs (L-1 is right)
  int bad = (int)sx_pick("badlevel", levels + 1);    // one vector of another length (levels: none)
  std::vector<std::vector<Block>> x;
  bool wrongLen = false;
  for (int l = 0; l < levels; l++) {
    int len = a;
    if (l == bad) {
      static const int d[] = {-2, -1, 1};
      len = a + d[sx_pick("delta", 3)];
      wrongLen = true;
    }
    x.push_back(std::vector<Block>(len, any("xor")));
  }
  int k = (int)sx_pick("keys", a + 2);
  auto keys = anyKeys(k);
  int64_t m = (int64_t)sx_pick("missing", n);
  auto r = GGMTree::CreateFromSiblingWiseXOR(a, n, m, x, keys);
  if (levels == L - 1 && !wrongLen && k == a) {
    sx_check(r.ok(), "valid arguments are accepted");
    sx_reach("valid");
  } else {
    sx_check(inval(r), "wrong vectors are rejected");
    sx_reach("invalid");
  }
}
void c12_rebuild_shapes() { rebuildShapes(3, 5); }
void c12_rebuild_shapes_wide() { rebuildShapes(5, 9); }
void c12_query() {
  static const int sh[][2] = {{2, 1}, {2, 5}, {3, 7}, {4, 4}};
  auto& s = sh[sx_pick("shape", 4)];
  auto keys = anyKeys(s[0]);
  auto r = GGMTree::Create(s[1], any("seed"), keys);
  sx_check(r.ok(), "Create accepts valid arguments");
  auto t = std::move(r.ValueOrDie());
  int l = (int)(int32_t)sx_var("level", 32);
  int64_t i = (int64_t)sx_var("node", 64);
  auto v = t->GetValueAtNode(l, i);
  if (l >= 0 && l < t->num_levels() && i >= 0 && i < t->level_size(l)) {
    sx_check(v.ok(), "a node of the tree is returned");
    sx_reach("inside");
  } else {
    sx_check(inval(v), "a position outside the tree is rejected");
    sx_reach("outside");
  }
  int64_t j = (int64_t)sx_var("leaf", 64);
  auto w = t->GetValueAtLeaf(j);
  if (j >= 0 && j < s[1]) sx_check(w.ok(), "a leaf of the tree is returned");
  else sx_check(inval(w), "a leaf outside the tree is rejected");
}
}
