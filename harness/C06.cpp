// C06 Buffer
#include "vs.h"
//@bound arrays of 0..3 elements (thorough 0..4; block copy: up to 8 bytes, thorough 16) of every primitive element type with arbitrary contents; byte index, offsets and count over the full 32-bit range (arrays of 17, 33 and 130 elements, thorough 15 lengths up to 257: around both ends and the middle); same or distinct arrays; arrays wrapped around overlapping memory; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary bytes and positions at the ends and the middle
static const DataType types[] = {BooleanType, ByteType, SByteType, CharType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType}; static const int sizes[] = {1, 1, 1, 4, 2, 2, 4, 4, 8, 8, 4, 8}; static const int NTYPES = 12;
static int N() { return THOROUGH() ? 4 : 3; }
struct A { Array *a; int bytes; uint8_t c[40]; };
static uint8_t *raw(const A &x) { return x.bytes ? (uint8_t *)x.a->Address(0) : nullptr; }
static A mk(int t, int n) { A x; x.a = new Array(types[t], n); x.bytes = n * sizes[t]; for (int i = 0; i < x.bytes; i++) raw(x)[i] = x.c[i] = s_u8("b"); return x; }
static bool holds(const A &x) { bool r = true; for (int i = 0; i < x.bytes; i++) r = r & (raw(x)[i] == x.c[i]); return r; }
ENTRY(bytes) { //@ shards=6
  int t = p_range("type", 0, NTYPES - 1), n = p_range("n", 0, N()); A x = mk(t, n); vs_check(Buffer::ByteLength(x.a) == x.bytes, "byte length"); int i = s_i32("i"), set = p_range("set", 0, 1); uint8_t v = set ? s_u8("v") : 0, r = 0; int e = outcome([&] { if (set) Buffer::SetByte(x.a, i, v); else r = Buffer::GetByte(x.a, i); });
  bool ok = i >= 0 && i < x.bytes; if (!ok) { vs_check(argerr(e), "index outside raises"); vs_cover("outside"); } else { vs_check(e == X_NONE, "index inside"); i = (int)vs_pick(i); if (set) { x.c[i] = v; vs_cover("set"); } else { vs_check(r == x.c[i], "the byte"); vs_cover("get"); } } vs_check(holds(x), "exactly that byte");
}
static void copy(const A &a, const A &b, bool same, int so, int dof, int n) {
  int e = outcome([&] { Buffer::BlockCopy(a.a, so, b.a, dof, n); }); bool ok = so >= 0 && dof >= 0 && n >= 0 && (int64_t)so + n <= a.bytes && (int64_t)dof + n <= b.bytes; if (ok) { vs_check(e == X_NONE, "a range that fits is copied"); vs_cover("copied"); } else { vs_check(argerr(e), "a range that does not fit raises"); vs_cover("refused"); }
  bool g = true; for (int i = 0; i < b.bytes; i++) { uint64_t w = b.c[i]; if (ok) for (int j = 0; j < a.bytes; j++) w = vs_ite((i >= dof) & (i < dof + n) & (j == so + i - dof), a.c[j], w); g = g & (raw(b)[i] == (uint8_t)w); } vs_check(g, "exactly the byte range moves, as through a temporary"); if (!same) vs_check(holds(a), "source unchanged");
}
ENTRY(blockcopy) { //@ shards=4 cost=3 tmo=150 ttmo=1500
  static const int tt[] = {1, 4, 6, 8}, q[] = {3, 2, 2, 1}; int ex = THOROUGH() ? 1 : 0; int t = p_range("type", 0, 3), n = p_range("n", 0, q[t] + ex); bool same = p_range("same", 0, 1); A a = mk(tt[t], n); A b = a; if (!same) { int d = p_range("dtype", 0, THOROUGH() ? 3 : 2), m = p_range("m", 0, q[d] - 1 + ex); b = mk(tt[d], m); } int so = s_i32("so"), dof = s_i32("do"), k = s_i32("count"); copy(a, b, same, so, dof, k);
}
ENTRY(alltypes) { int t = p_range("type", 0, NTYPES - 1); A a = mk(t, 2), b = mk(1, 4); int so = s_i32("so"), dof = s_i32("do"), k = s_i32("count"); if (p_range("dir", 0, 1)) copy(b, a, false, so, dof, k); else copy(a, b, false, so, dof, k); }
ENTRY(overlap) { static uint8_t mem[16]; uint8_t old[16]; for (int i = 0; i < 16; i++) old[i] = mem[i] = s_u8("m"); int sh = p_range("shift", -3, 3); Array *a = new Array(mem + 4, ByteType, 8), *b = new Array(mem + 4 + sh, ByteType, 8); int so = p_range("so", 0, 8), k = p_range("n", 0, 8 - so), dof = p_range("do", 0, 8 - k); Buffer::BlockCopy(a, so, b, dof, k); bool g = true; for (int i = 0; i < 16; i++) { int j = i - 4 - sh - dof; g = g & (mem[i] == (j >= 0 && j < k ? old[4 + so + j] : old[i])); } vs_check(g, "as through a temporary"); vs_cover("overlap"); vs_stop(); }
ENTRY(invalid) { // null, object arrays and arrays of more dimensions //@ twice=1
  int k = p_range("k", 0, 9), i = s_i32("i"), n = s_i32("n"); Array *a = new Array(Int32Type, 2), *o = new Array(ObjectType, 2), *m = new Array(ByteType, 2, 2); *(Int32 *)a->Address(0) = 5;
  int e = outcome([&] { switch (k) { case 0: Buffer::ByteLength(nullptr); break; case 1: Buffer::GetByte(nullptr, i); break; case 2: Buffer::SetByte(nullptr, i, 1); break; case 3: Buffer::BlockCopy(nullptr, i, a, i, n); break; case 4: Buffer::BlockCopy(a, i, nullptr, i, n); break; case 5: Buffer::ByteLength(o); break; case 6: Buffer::GetByte(o, i); break; case 7: Buffer::SetByte(o, i, 1); break; case 8: Buffer::BlockCopy(o, i, a, i, n); break; case 9: Buffer::BlockCopy(a, i, o, i, n); break; } });
  vs_check(argerr(e), "null and object arrays raise"); vs_check(*(Int32 *)a->Address(0) == 5 && *(Object **)o->Address(0) == nullptr, "nothing changes"); e = outcome([&] { if (k & 1) Buffer::GetByte(m, i); else Buffer::BlockCopy(m, i, a, i, n); }); vs_check(argerr(e) || e == X_RANK, "arrays of more dimensions raise"); vs_cover("invalid");
}
static void fill(A &x, int t, int n, int k) { x.a = new Array(types[t], n); x.bytes = n * sizes[t]; for (int i = 0; i < x.bytes; i++) raw(x)[i] = (uint8_t)(i * k + 1); }
ENTRY(long_copy) { //@ shards=4 tmo=90
  static const int tt[] = {1, 4, 6, 9}; int t = p_range("type", 0, 3), n = longLen("n"), same = p_range("same", 0, 1); A a, b; fill(a, tt[t], n, 7); b = a; if (!same) fill(b, 9 - 8 * (t & 1), t & 1 ? n : n / 2, 13); static uint8_t oa[2100], ob[2100]; for (int i = 0; i < a.bytes; i++) oa[i] = raw(a)[i]; for (int i = 0; i < b.bytes; i++) ob[i] = raw(b)[i];
  int so = edge("so", a.bytes), dof = inner("do", b.bytes), k = edge("k", a.bytes); int e = outcome([&] { Buffer::BlockCopy(a.a, so, b.a, dof, k); }); bool ok = so >= 0 && k >= 0 && (int64_t)so + k <= a.bytes && (int64_t)dof + k <= b.bytes; vs_check(ok ? e == X_NONE : argerr(e), "exactly the ranges that fit are copied"); bool g = true; for (int i = 0; i < b.bytes; i++) g = g & (raw(b)[i] == (ok && i >= dof && i < dof + k ? oa[so + i - dof] : ob[i])); vs_check(g, "exactly the byte range moves, as through a temporary"); if (!same) { g = true; for (int i = 0; i < a.bytes; i++) g = g & (raw(a)[i] == oa[i]); vs_check(g, "source unchanged"); } if (ok) vs_cover("long copy");
}
ENTRY(long_bytes) { int t = p_range("type", 0, NTYPES - 1), n = longLen("n"); A x; fill(x, t, n, 7); vs_check(Buffer::ByteLength(x.a) == x.bytes, "byte length"); int i = edge("i", x.bytes), set = p_range("set", 0, 1); uint8_t v = s_u8("v"), r = 0; int e = outcome([&] { if (set) Buffer::SetByte(x.a, i, v); else r = Buffer::GetByte(x.a, i); }); bool ok = i >= 0 && i < x.bytes; vs_check(ok ? e == X_NONE : argerr(e), "exactly the indices inside"); if (ok && !set) vs_check(r == (uint8_t)(i * 7 + 1), "the byte"); bool g = true; for (int k = 0; k < x.bytes; k++) g = g & (raw(x)[k] == (ok && set && k == i ? v : (uint8_t)(k * 7 + 1))); vs_check(g, "exactly that byte"); vs_cover("long bytes"); }
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), k = p_range("k", 0, 4), same = p_range("same", 0, 1); auto mk1 = [](int n, int f) { Array *r = new Array(Int32Type, n); uint8_t *p = (uint8_t *)r->Address(0); for (int i = 0; i < 4 * n; i++) p[i] = (uint8_t)(i * f + i / 256); return r; }; Array *x = mk1(n, 7), *y = same ? x : mk1(n, 13); uint8_t *px = (uint8_t *)x->Address(0), *py = (uint8_t *)y->Address(0); int L = 4 * n; px[L - 1] = s_u8("b"); px[L / 2] = s_u8("b"); static uint8_t ox[32900], oy[32900]; for (int i = 0; i < L; i++) { ox[i] = px[i]; oy[i] = py[i]; }
  int so = k == 1 ? 1 : k == 3 ? L / 2 : 0, dof = k == 2 ? 1 : k == 4 ? L / 2 : 0, len = k == 0 ? L : k < 3 ? L - 1 : L / 2; Buffer::BlockCopy(x, so, y, dof, len); bool g = true; for (int i = 0; i < L; i++) g = g & (py[i] == (i >= dof && i < dof + len ? ox[so + i - dof] : oy[i])); vs_check(g, "exactly the byte range moves, as through a temporary"); if (!same) { g = true; for (int i = 0; i < L; i++) g = g & (px[i] == ox[i]); vs_check(g, "source unchanged"); } uint8_t v = s_u8("v"); Buffer::SetByte(y, L - 1, v); vs_check(Buffer::GetByte(y, L - 1) == v && Buffer::ByteLength(y) == L, "the last byte"); vs_cover("huge");
}
