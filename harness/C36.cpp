// C36 translator support: running translated code, sending text, platform data
#include "vs.h"
#include "DotNetLibrarySupport.h"
using namespace DotnetLibrarySupport;
//@bound messages of 0..6 characters (thorough 0..12) over the 7-bit range; every exception class and every way of ending RunCode; two runs in a row; every array index
static bool printed(const Char *c, int n) { bool ok = vs_outlen() == n + 1; for (int i = 0; ok && i < n; i++) ok = ok & (vs_outchar(i) == (int)c[i]); return ok && vs_outchar(n) == '\n'; }
static int M() { return vs_tier() ? 12 : 6; }
ENTRY(send) { int n = p_range("n", -1, M()); Char c[16]; for (int i = 0; i < n; i++) c[i] = s_ascii("c"); String *s = n < 0 ? nullptr : mkString(c, n); TranslatorSupport t; vs_outreset(); int x = outcome([&] { t.Send(s); }); vs_check(x == X_NONE, "sending raises nothing"); //@ twice=1
  vs_check(printed(c, n < 0 ? 0 : n), "the text and a line end are printed, once"); if (n >= 0) { vs_check(isText(s, c, n), "the text is left alone"); vs_cover("sent"); } else vs_cover("no text");
  vs_outreset(); t.Send(new String(L"%d%s")); Char p[] = {'%', 'd', '%', 's'}; vs_check(printed(p, 4), "a message is not a format"); }
static Char msg[16]; static int msgLen, kind, calls; static TranslatorSupport *self; static char *block; static bool clean;
struct Module : public TranslatorSupport { virtual void RunCode() {
  calls++; vs_check(this == self, "the module given runs"); block = (char *)my_operator_new_replacement(24); clean = block != nullptr; for (int i = 0; clean && i < 24; i++) clean = clean & (block[i] == 0); if (block) memset(block, 0xaa, 24);
  String *m = msgLen < 0 ? nullptr : mkString(msg, msgLen);
  switch (kind) { case 0: return; case 1: throw new Exception(m); case 2: throw new Exception(); case 3: throw new ArgumentException(); case 4: throw new IndexOutOfRangeException(); case 5: throw new InvalidCastException(); case 6: Send(m); return; case 7: throw new Exception(m, new Exception()); case 8: { int32_t d[1] = {1}; Array a(d, Int32Type, 1); (*(int32_t *)a.Address(1))++; } } } };
ENTRY(run) { //@ shards=4 twice=1
  kind = p_range("kind", 0, 8); msgLen = kind == 0 || kind == 2 || kind == 3 || kind == 4 || kind == 5 || kind == 8 ? -1 : p_range("n", -1, M() / 2); for (int i = 0; i < msgLen; i++) msg[i] = s_ascii("c"); Module m; self = &m; char *first = nullptr;
  for (int r = 0; r < 2; r++) { calls = 0; vs_outreset(); int x = outcome([&] { m.Run(); }); vs_check(x == X_NONE, "an exception of the module ends its run, not the program"); vs_check(calls == 1, "the module runs exactly once"); vs_check(clean, "the module allocates zeroed memory");
    if (r) vs_check(block == first, "each run starts with all the memory"); first = block;
    if (kind == 0) { vs_check(vs_outlen() == 0, "nothing is sent"); vs_cover("returned"); } else { if (kind < 3 || kind > 5 && kind != 8) vs_check(printed(msg, msgLen < 0 ? 0 : msgLen), "the message is sent once"); else vs_check(vs_outlen() > 0 && vs_outchar(vs_outlen() - 1) == '\n', "a line is sent"); vs_cover("message"); } } }
ENTRY(data) { DataAccess d; int32_t i = s_i32("i"), v = s_i32("v"); Array *a = d.get_ArrayData(); vs_check(a && a->get_Length() == 4 && a->get_Rank() == 1, "an array of four integers");  //@
  int x = outcome([&] { vs_check(*(Int32 *)a->Address(i) == i + 1, "the platform's values"); *(Int32 *)a->Address(i) = v; }); if (i < 0 || i >= 4) { vs_check(x == X_INDEX, "outside"); vs_cover("outside"); return; } vs_check(x == X_NONE, "inside");
  delete a; Array *b = d.get_ArrayData(); vs_check(*(Int32 *)b->Address(i) == v, "the array is the platform's storage, which outlives it"); for (int k = 0; k < 4; k++) if (k != i) vs_check(*(Int32 *)b->Address(k) == k + 1, "others unchanged"); vs_check(d.get_DoubleData() == 5.5, "the platform's number"); vs_cover("data"); }
