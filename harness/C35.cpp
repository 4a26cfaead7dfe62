// C35 platform memory pool
#include "vs.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include <algorithm>
//@bound pools of 0..16 bytes (thorough 0..32) and the built-in size; histories of 3 requests (thorough 4), every 64-bit size, with resets in between; heap requests of 0..40 bytes and of every size the heap refuses
static uint32_t poolSize;
#undef MEMORY_SIZE
#define MEMORY_SIZE poolSize
namespace small { // the same source with its pool size chosen by the harness
void *my_operator_new_replacement(size_t size); void my_operator_delete_replacement(void *mem); void PlatformSetup(); void PlatformMemorySetup();
#include "PlatformSupport.cpp"
}
#undef MEMORY_SIZE
static bool zero(const char *p, size_t n) { bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (p[i] == 0); return ok; }
// requests until the step bound: lo/hi are the pool's ends, known once the pool has been filled
ENTRY(pool) { //@ shards=6 cost=3 tsteps=20000000 tmo=120 again=0
  poolSize = (uint32_t)p_range("pool", 0, vs_tier() ? 32 : 16); int N = vs_tier() ? 4 : 3; small::PlatformSetup();
  char *base = (char *)small::my_operator_new_replacement(poolSize & ~7u); vs_check(base != nullptr, "the whole pool is available"); vs_check(((uintptr_t)base & 7) == 0, "aligned"); memset(base, 0xee, poolSize & ~7u);
  vs_check(poolSize < 8 || small::my_operator_new_replacement(8) == nullptr, "a full pool refuses"); small::PlatformSetup();
  size_t used = 0; struct { char *p; size_t n; unsigned char v; } B[4]; int nb = 0, del = p_range("deleted", -1, N - 1);
  for (int i = 0; i < N; i++) {
    uint64_t n = s_u64("size"); char *p = (char *)small::my_operator_new_replacement((size_t)n); size_t left = poolSize - used;
    if (n > left) { vs_check(p == nullptr, "a request that does not fit is refused"); vs_cover("refused"); if (n > 0xffffffffull) vs_cover("refused beyond 32 bits"); continue; }
    n = vs_pick(n); size_t need = (n + 7) & ~(size_t)7; if (need > left) { if (!p) continue; vs_check(false, "a block is refused when its aligned size does not fit"); }
    vs_check(p != nullptr, "a request that fits is granted"); vs_check(p >= base && p + n <= base + poolSize, "inside the pool"); vs_check(((uintptr_t)p & 7) == 0, "aligned"); vs_check(zero(p, n), "zero filled");
    for (int k = 0; k < nb; k++) vs_check(p + n <= B[k].p || B[k].p + B[k].n <= p, "no overlap with an earlier block");
    B[nb].p = p; B[nb].n = n; B[nb].v = 0x51 + i; memset(p, B[nb].v, n); nb++; used += need; if (i == del) small::my_operator_delete_replacement(p); vs_cover("granted");
  }
  for (int k = 0; k < nb; k++) { bool ok = true; for (size_t i = 0; i < B[k].n; i++) ok = ok & ((unsigned char)B[k].p[i] == B[k].v); vs_check(ok, "blocks keep their contents"); }
  small::PlatformSetup(); char *again = (char *)small::my_operator_new_replacement(poolSize & ~7u); vs_check(again == base && zero(again, poolSize & ~7u), "a reset makes all the space available again"); }
// a refused request consumes nothing, in the pool the library is built with
ENTRY(builtin) { //@ shards=2
  PlatformSetup(); int r = 8 * p_range("left", 0, 4); size_t P = 32767; int k = p_range("first", 1, 3); char *a = (char *)my_operator_new_replacement(8 * k); vs_check(a && ((uintptr_t)a & 7) == 0 && zero(a, 8 * k), "first block"); size_t rest = (P & ~(size_t)7) - 8 * k - r; char *b = (char *)my_operator_new_replacement(rest); vs_check(b && (b >= a + 8 * k || b + rest <= a), "the rest of the pool"); b[0] = b[rest - 1] = 1;
  uint64_t n = s_u64("size"); vs_assume(n > (uint64_t)r + 7); vs_check(my_operator_new_replacement((size_t)n) == nullptr, "a request beyond what is left is refused"); char *c = (char *)my_operator_new_replacement(r); vs_check(c && (r == 0 || zero(c, r)), "what was left is still there"); vs_check(my_operator_new_replacement(8) == nullptr, "now full"); vs_cover("builtin"); }
// through operator new, as the library allocates
ENTRY(operators) { PlatformSetup(); int n = p_range("n", 1, 24); char *p = new char[n]; bool z = zero(p, n); memset(p, 7, n); char *q = new char[n]; vs_check(z && zero(q, n) && (q >= p + n || q + n <= p), "new[] allocates from the pool"); delete[] p; vs_check(zero(q, n), "delete leaves other blocks alone"); PlatformSetup(); char *r = new char[n]; vs_check(r == p && zero(r, n), "recycled and zeroed"); vs_cover("operators"); }
ENTRY(heap) { int n = p_range("n", 0, 40); char *p = (char *)my_operator_new_replacement(n); vs_check(p && zero(p, n), "zero filled heap block"); memset(p, 1, n); char *q = (char *)my_operator_new_replacement(n); vs_check(q && zero(q, n) && (n == 0 || p != q), "another"); my_operator_delete_replacement(p); vs_check(zero(q, n), "unharmed"); my_operator_delete_replacement(q); my_operator_delete_replacement(nullptr); vs_cover("heap"); }
ENTRY(refused) { uint64_t n = s_u64("size"); vs_assume(n > (1ull << 62)); vs_check(my_operator_new_replacement((size_t)n) == nullptr, "a block the heap cannot give is null"); vs_cover("heap refuses"); }
