// C08, C09: the AES counter-mode generator.
#include "sx.h"
#include <cstring>
#include <stdexcept>
#include <type_traits>
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "mpc_utils/status.h"
extern "C" unsigned sx_rand_chunk = 16;
using distributed_vector_ole::AESUniformBitGenerator;
typedef AESUniformBitGenerator G;
namespace {
struct Seed {
  alignas(16) uint8_t b[48];
  explicit Seed(const char* n) {
    memset(b, 0, sizeof b);
    sx_bytes(n, b, 32);
  }
  absl::Span<const uint8_t> span() const { return absl::MakeConstSpan(b, 32); }
};
// Word i of the stream.
uint64_t word(const Seed& s, uint64_t i) {
  sx_u128 ctr, blk;
  memcpy(&ctr, s.b + 16, 16);
  ctr += i / 2;
  sx_aes(s.b, 16, &ctr, &blk);
  return i % 2 ? (uint64_t)(blk >> 64) : (uint64_t)blk;
}
void draw(G& g, const Seed& s, uint64_t i) {
  uint64_t x = g(), y = word(s, i);
  sx_check_eq(&x, &y, 8, "output is the word of the AES counter stream");
}
void stream(int64_t buffer, int n) {
  Seed s("seed");
  auto r = G::Create(s.span(), buffer);
  sx_check(r.ok(), "Create accepts a 32-byte seed");
  G g = std::move(r.ValueOrDie());
  for (int i = 0; i < n; i++) draw(g, s, i);
  sx_reach("done");
}
}  // namespace
extern "C" {
// ---------------------------------------------------------------- C08
void c08_buffers() { stream((int64_t)sx_pick("buffer", 12), 30); }
void c08_buffers_long() { stream((int64_t)sx_pick("buffer", 70), 200); }
void c08_default() {
  Seed s("seed");
  auto r = G::Create(s.span());
  sx_check(r.ok(), "Create accepts a 32-byte seed");
  G g = std::move(r.ValueOrDie());
  for (int i = 0; i < 5; i++) draw(g, s, i);
  Seed t("seed2");
  sx_check(g.seed(t.span()).ok(), "seed accepts a 32-byte seed");
  for (int i = 0; i < 3; i++) draw(g, t, i);
  sx_reach("done");
}
void c08_default_wrap() {
  // Across the end of the default buffer.
  Seed s("seed");
  auto r = G::Create(s.span(), 4096);
  G g = std::move(r.ValueOrDie());
  for (int i = 0; i < 4094; i++) g();
  for (int i = 4094; i < 4100; i++) draw(g, s, i);
  sx_reach("done");
}
static void reseeds(int maxb, int maxd) {
  static const int sizes[] = {2, 3, 4, 5, 6, 7, 8, 9, 16, 17};
  Seed s("seed"), t("seed2");
  auto r = G::Create(s.span(), sizes[sx_pick("buffer", maxb)]);
  sx_check(r.ok(), "Create accepts a 32-byte seed");
  G g = std::move(r.ValueOrDie());
  int d = (int)sx_pick("draws", maxd);
  for (int i = 0; i < d; i++) draw(g, s, i);
  sx_check(g.seed(t.span()).ok(), "seed accepts a 32-byte seed");
  int e = (int)sx_pick("draws2", maxd);
  for (int i = 0; i < e; i++) draw(g, t, i);
  sx_check(g.seed(s.span()).ok(), "seed accepts a 32-byte seed");
  for (int i = 0; i < 5; i++) draw(g, s, i);
  sx_reach("done");
}
void c08_reseed() { reseeds(6, 8); }
void c08_reseed_long() { reseeds(10, 20); }
// Two generators do not share state; a copy continues on its own; longer seeds use the first 32 bytes.
void c08_instances() {
  Seed s("seed"), t("seed2");
  sx_bytes("tail", s.b + 32, 16);
  auto r1 = G::Create(absl::MakeConstSpan(s.b, 48), 4);
  auto r2 = G::Create(t.span(), 6);
  sx_check(r1.ok() && r2.ok(), "Create accepts a seed");
  G a = std::move(r1.ValueOrDie()), b = std::move(r2.ValueOrDie());
  for (int i = 0; i < 3; i++) { draw(a, s, i); draw(b, t, i); }
  G c = a;
  for (int i = 3; i < 9; i++) { draw(a, s, i); draw(b, t, i); }
  for (int i = 3; i < 7; i++) draw(c, s, i);
  sx_reach("done");
}
// ---------------------------------------------------------------- C09
void c09_short() {
  int n = (int)sx_pick("length", 42);
  uint8_t* p = new uint8_t[n ? n : 1];  // exactly n bytes: reading past the end is reported
  sx_bytes("seed", p, n);
  auto r = G::Create(absl::MakeConstSpan(p, n), 4);
  if (n < 32) {
    sx_check(!r.ok() && mpc_utils::IsInvalidArgument(r.status()), "Create rejects a short seed");
    sx_reach("short");
  } else {
    sx_check(r.ok(), "Create accepts a long enough seed");
    sx_reach("long");
  }
  Seed s("first");
  auto q = G::Create(s.span(), 4);
  sx_check(q.ok(), "Create accepts a 32-byte seed");
  G g = std::move(q.ValueOrDie());
  int d = (int)sx_pick("draws", 3);
  for (int i = 0; i < d; i++) draw(g, s, i);
  auto st = g.seed(absl::MakeConstSpan(p, n));
  if (n < 32) {
    sx_check(mpc_utils::IsInvalidArgument(st), "seed rejects a short seed");
    // A rejected seed leaves the stream as it was.
    for (int i = d; i < d + 5; i++) draw(g, s, i);
  } else {
    sx_check(st.ok(), "seed accepts a long enough seed");
    Seed t("unused");
    memcpy(t.b, p, 32);
    for (int i = 0; i < 3; i++) draw(g, t, i);
  }
  delete[] p;
}
// The usage counter is found by watching which word of the object counts blocks, then set to an arbitrary
// value a generator can have: a multiple of the blocks per refill.
static const uint64_t kLimit = 1ull << 48;
static long findCounter(uint64_t blocks, bool& down) {
  static const uint8_t z[32] = {7, 7, 7, 7, 7, 7, 7, 7, 9, 9, 9, 9, 9, 9, 9, 9, 1, 3, 5, 7, 9, 1, 3, 5, 7, 9, 1, 3, 5, 7, 9, 1};
  auto r = G::Create(absl::MakeConstSpan(z, 32), (int64_t)blocks * 2);
  G g = std::move(r.ValueOrDie());
  const long n = sizeof(G) / 8;
  uint64_t a[n], b[n], c[n];
  memcpy(a, (void*)&g, n * 8);
  g();
  memcpy(b, (void*)&g, n * 8);
  for (uint64_t i = 0; i < 2 * blocks; i++) g();
  memcpy(c, (void*)&g, n * 8);
  for (long i = 0; i < n; i++) {
    if (a[i] == 0 && b[i] == blocks && c[i] == 2 * blocks) { down = false; return i; }
    if (a[i] == kLimit && b[i] == kLimit - blocks && c[i] == kLimit - 2 * blocks) { down = true; return i; }
  }
  return -1;
}
static bool throws(G& g) {
  try { g(); } catch (const std::exception&) { return true; }
  return false;
}
void c09_limit() {
  static const uint64_t nb[] = {2, 3, 4, 7, 8};
  uint64_t blocks = nb[sx_pick("blocks", 5)];
  bool down = false;
  long at = findCounter(blocks, down);
  sx_check(at >= 0, "the generator counts the blocks it uses");
  if (at < 0) return;
  Seed s("seed"), t("seed2");
  auto r = G::Create(s.span(), (int64_t)blocks * 2);
  sx_check(r.ok(), "Create accepts a 32-byte seed");
  G g = std::move(r.ValueOrDie());
  uint64_t used = blocks * sx_range("refills", 0, kLimit / blocks);
  uint64_t v = down ? kLimit - used : used;
  memcpy((char*)&g + at * 8, &v, 8);
  if (used + blocks > kLimit) {
    for (int i = 0; i < 3; i++) sx_check(throws(g), "more than 2^48 blocks: the generator throws");
    sx_reach("over");
  } else {
    for (uint64_t i = 0; i < 2 * blocks; i++) draw(g, s, i);
    if (used + 2 * blocks > kLimit) {
      for (int i = 0; i < 3; i++) sx_check(throws(g), "more than 2^48 blocks: the generator throws");
    } else {
      draw(g, s, 2 * blocks);
    }
    sx_reach("within");
  }
  sx_check(g.seed(t.span()).ok(), "seed accepts a 32-byte seed");
  for (uint64_t i = 0; i < 2 * blocks + 1; i++) draw(g, t, i);
}
}
