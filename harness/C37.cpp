// C37 object defaults: equality, conversions, text, raw types, exceptions
#include "vs.h"
//@bound every pair of object kinds (nothing, plain object, user object with any answer, boxed number with any value, text of one character, exception, builder); buffers of -1..9 characters and every negative 32-bit size; user texts of 0..4 and 120..127 characters; every 32-bit data type; exception chains of up to 4; destroying one object of each of 28 kinds next to others, with any value and character
static int asked; static Object *askedWith; static bool answer;
struct User : public Object { int n; User(int n) : n(n) {} virtual Boolean Equals(Object *o) { asked++; askedWith = o; return answer; } virtual Int32 FormatString(Char *w, const Int32 size) { for (int i = 0; i < n && i < size - 1; i++) w[i] = (Char)('a' + i % 26); if (size > 0) w[n < size ? n : size - 1] = 0; return n; } };
struct Made { Object *o; int kind; int64_t v; };
static Made make(const char *kn, const char *vn) { Made m; m.kind = p_range(kn, 0, 6); m.v = 0; m.o = nullptr;
  if (m.kind == 1) m.o = new Object(); else if (m.kind == 2) m.o = new User(3); else if (m.kind == 3) { m.v = s_i32(vn); m.o = new Int32Value((Int32)m.v); } else if (m.kind == 4) { Char c = s_char(vn); m.v = c; m.o = mkString(&c, 1); } else if (m.kind == 5) m.o = new Exception(); else if (m.kind == 6) m.o = new StringBuilder(); return m; }
ENTRY(equals) { //@ shards=3 twice=1
  Made a = make("a", "va"), b = make("b", "vb"); bool same = p_range("same", 0, 1); if (same) b = a; answer = s_bool("answer"); asked = 0; bool r = false; int x = outcome([&] { r = Object::Equals(a.o, b.o); }); vs_check(x == X_NONE, "comparing raises nothing");
  if (a.o == b.o) { vs_check(r, "an object equals itself, and nothing equals nothing"); vs_cover("same"); } else if (!a.o || !b.o) { vs_check(!r, "nothing differs from every object"); vs_cover("null"); }
  else if (a.kind == 2) { vs_check(asked == 1 && askedWith == b.o && r == answer, "the first object's own equality decides"); vs_cover("user"); } else if (a.kind == b.kind && (a.kind == 3 || a.kind == 4)) { vs_check(r == (a.v == b.v), "values"); vs_cover("values"); } else { vs_check(!r, "different objects"); vs_cover("different"); }
  if (a.kind != 2 && a.o) { asked = 0; bool q = false; x = outcome([&] { q = a.o->Equals(b.o); }); vs_check(x == X_NONE && q == r, "virtual equality agrees"); } }
// text, sequences and plain objects convert to no primitive type
ENTRY(casts) { static int32_t d[1] = {3}; int k = p_range("kind", 0, 5), w = p_range("type", 0, 13); Object *o; if (k == 0) o = new Object(); else if (k == 1) o = new User(2); else if (k == 2) o = new Array(d, Int32Type, 1); else if (k == 3) o = new StringBuilder(); else if (k == 4) o = new Exception(); else o = new String(L"7"); //@ twice=1
  int x = outcome([&] { switch (w) { case 0: o->get_AsBoolean(); break; case 1: o->get_AsChar(); break; case 2: o->get_AsByte(); break; case 3: o->get_AsSByte(); break; case 4: o->get_AsInt16(); break; case 5: o->get_AsUInt16(); break; case 6: o->get_AsInt32(); break; case 7: o->get_AsUInt32(); break; case 8: o->get_AsInt64(); break; case 9: o->get_AsUInt64(); break; case 10: o->get_AsSingle(); break; case 11: o->get_AsDouble(); break; case 12: o->get_AsDateTime(); break; default: o->get_AsTimeSpan(); } });
  vs_check(x == X_CAST, "no conversion"); vs_cover("casts"); }
static const Char OBJ[] = L"Object";
ENTRY(text) { int n = p_range("n", 0, 12); if (n > 4) n += 115; User u(n); String *s = u.ToString(); bool ok = s && s->get_Length() == n && s->get_Buffer()[n] == 0; for (int i = 0; ok && i < n; i++) ok = ok & (s->get_Buffer()[i] == (Char)('a' + i % 26)); vs_check(ok, "the object's own text"); Object o; vs_check(isText(o.ToString(), OBJ, 6), "a plain object's text"); vs_cover("text"); } //@ twice=1
ENTRY(format) { Object o; int n = p_range("size", -1, 9); int32_t size = n < 0 ? s_i32("negative") : n; if (n < 0) vs_assume(size < 0); Char *w = (Char *)malloc(sizeof(Char) * (n > 0 ? n : 1)); w[0] = 0x7777; int r = 0, x = outcome([&] { r = o.FormatString(w, size); }); //@ twice=1
  if (n > 6) { vs_check(x == X_NONE && r == 6 && eqChars(w, OBJ, 7), "the whole text"); vs_cover("fits"); } else if (n > 0) { vs_check(x != X_NONE || eqChars(w, OBJ, n - 1) && w[n - 1] == 0, "its beginning, terminated"); vs_cover("cut"); } else { vs_check(w[0] == 0x7777, "nothing is written"); vs_cover("no room"); } free(w); }
ENTRY(copy) { int n = p_range("size", -1, 9), m = p_range("source", 0, 9); int32_t size = n < 0 ? s_i32("negative") : n; if (n < 0) vs_assume(size < 0); Char *w = (Char *)malloc(sizeof(Char) * (n > 0 ? n : 1)), *s = (Char *)malloc(sizeof(Char) * (m ? m : 1)); w[0] = 0x7777; Char c[10]; for (int i = 0; i < m; i++) c[i] = s[i] = s_char("c"); //@ twice=1
  CopyChars(w, size, s, m); if (n <= 0) { vs_check(w[0] == 0x7777, "nothing is written"); vs_cover("no room"); } else { int k = m < n ? m : n - 1; vs_check(eqChars(w, c, k) && w[k] == 0, "as much as fits, terminated"); if (m < n) vs_cover("fits"); else vs_cover("cut"); } vs_check(eqChars(s, c, m), "the source is left alone"); free(w); free(s); }
ENTRY(primitive) { int32_t t = s_i32("type"); vs_assume(t >= NullType && t <= StringType); vs_check(Object::IsPrimitiveType((DataType)t) == (t != NullType && t != ObjectType && t != StringType), "all but objects, text and nothing"); vs_cover("primitive"); } //@ twice=1
ENTRY(types) { int k = p_range("kind", 0, 19); Object *o = nullptr; DataType t = ObjectType; int sz = -1; static int32_t d[1]; switch (k) { //@ twice=1
    case 0: o = new Object(); break; case 1: o = new String(L"x"); t = StringType; break; case 2: o = new StringBuilder(); break; case 3: o = new Array(d, Int32Type, 1); break; case 4: o = new Exception(); break; case 5: o = new BooleanValue(true); t = BooleanType; sz = sizeof(Boolean); break; case 6: o = new CharValue('x'); t = CharType; sz = sizeof(Char); break;
    case 7: o = new SByteValue(1); t = SByteType; sz = 1; break; case 8: o = new ByteValue(1); t = ByteType; sz = 1; break; case 9: o = new Int16Value(1); t = Int16Type; sz = 2; break; case 10: o = new UInt16Value(1); t = UInt16Type; sz = 2; break; case 11: o = new Int32Value(1); t = Int32Type; sz = 4; break; case 12: o = new UInt32Value(1); t = UInt32Type; sz = 4; break;
    case 13: o = new Int64Value(1); t = Int64Type; sz = 8; break; case 14: o = new UInt64Value(1); t = UInt64Type; sz = 8; break; case 15: o = new SingleValue(1); t = SingleType; sz = 4; break; case 16: o = new DoubleValue(1); t = DoubleType; sz = 8; break; case 17: o = new DateTimeValue(); t = DateTimeType; sz = sizeof(DateTime); break; case 18: o = new TimeSpanValue((TimeSpan)1); t = TimeSpanType; sz = sizeof(TimeSpan); break; default: o = new IndexOutOfRangeException(); }
  vs_check(o->GetRawDataType() == t, "raw type"); if (sz >= 0) vs_check(DataTypeSize[t] == sz, "size of the type"); vs_cover("types"); }
// messages and chains of exceptions
ENTRY(exceptions) { int n = p_range("chain", 1, 4); Exception *e[4]; String *m[4]; for (int i = 0; i < n; i++) { Char c = s_char("c"); m[i] = p_range("message", 0, 1) ? mkString(&c, 1) : nullptr; e[i] = i ? new Exception(m[i], e[i - 1]) : p_range("plain", 0, 1) ? new Exception(m[i]) : new Exception(m[i], nullptr); } //@ twice=1
  for (int i = 0; i < n; i++) { vs_check(e[i]->get_Message() == m[i], "message"); vs_check(e[i]->get_InnerException() == (i ? e[i - 1] : nullptr), "inner exception"); vs_check(e[i]->GetBaseException() == e[0], "the innermost exception is the base"); } vs_cover("exceptions"); }
ENTRY(messages) { int k = p_range("kind", 0, 11); Exception *e; switch (k) { case 0: e = new IndexOutOfRangeException(); break; case 1: e = new ArgumentNullException(); break; case 2: e = new RankException(); break; case 3: e = new ArgumentOutOfRangeException(); break; case 4: e = new ArgumentException(); break; case 5: e = new NotImplementedException(); break; case 6: e = new InvalidCastException(); break; case 7: e = new InvalidOperationException(); break; case 8: e = new FormatException(); break; case 9: e = new OverflowException(); break; case 10: e = new ArithmeticException(); break; default: e = new DivideByZeroException(); } //@ twice=1
  vs_check(e->get_Message() && e->get_Message()->get_Length() > 0 && !e->get_InnerException(), "library exceptions carry a message"); try { throw e; } catch (Exception *c) { vs_check(c == e, "every library exception is an Exception"); vs_cover("messages"); } }
// destroying an object through its base releases its own memory only
ENTRY(destroy) { //@ twice=1
  static int32_t wrapped[3]; static Char text[4]; int32_t v = s_i32("v"); Char c = s_char("c"); vs_assume(c != 0); for (int i = 0; i < 3; i++) { wrapped[i] = v + 0 * i; text[i] = c; } text[3] = 0;
  Int32Value *before = new Int32Value(v); String *near = mkString(text, 3), *made = nullptr, *mine = nullptr; Array *ws = new Array(CharType, 3); for (int i = 0; i < 3; i++) *(Char *)ws->Address(i) = c; int k = p_range("kind", 0, 27); Object *o = nullptr;
  switch (k) {
    case 0: o = new Object(); break; case 1: o = new String(text); break; case 2: o = new StringBuilder(); break; case 3: o = new Array(wrapped, Int32Type, 3); break; case 4: o = new Exception(near); break; case 5: o = new BooleanValue(true); break; case 6: o = new CharValue(c); break; case 7: o = new SByteValue(1); break; case 8: o = new ByteValue(1); break; case 9: o = new Int16Value(1); break; case 10: o = new UInt16Value(1); break; case 11: o = new Int32Value(v); break; case 12: o = new UInt32Value(1); break; case 13: o = new Int64Value(1); break; case 14: o = new UInt64Value(1); break; case 15: o = new SingleValue(1); break; case 16: o = new DoubleValue(1); break; case 17: o = new DateTimeValue(); break; case 18: o = new TimeSpanValue((TimeSpan)1); break; case 19: o = new IndexOutOfRangeException(); break;
    case 20: o = new String(text, 0, 3); break; case 21: o = new String(ws, 0, 3); break; case 22: o = new String(c, 3); break; case 23: o = new Array(Int32Type, 3); break; case 24: { StringBuilder *b = new StringBuilder(); int n = p_range("grown", 0, 2) * 40; for (int i = 0; i < n; i++) b->Append((Char)'a'); b->Append(near); mine = b->ToString(); o = b; break; } case 25: { Array *a = new Array(ObjectType, 2); *(Object **)a->Address(0) = before; o = a; break; } case 26: o = new CharEnumerator(near); break; default: o = new Exception(near, new Exception()); }
  int ml = mine ? mine->get_Length() : 0;
  made = new String(text, 0, 3); delete o; Int32Value *after = new Int32Value(v);
  vs_check(before->get_AsInt32() == v && after->get_AsInt32() == v, "other objects keep their values"); vs_check(isText(near, text, 3) && isText(made, text, 3), "other texts"); bool g = true; for (int i = 0; i < 3; i++) g = g & (wrapped[i] == v) & (text[i] == c) & (*(Char *)ws->Address(i) == c); vs_check(g, "memory it wraps is left alone");
  if (k == 24) { g = mine->get_Length() == ml; for (int i = 0; g && i < 3; i++) g = g & (mine->get_Chars(ml - 3 + i) == c); vs_check(g, "a builder's text outlives it"); vs_cover("builder"); } vs_cover("destroy"); }
