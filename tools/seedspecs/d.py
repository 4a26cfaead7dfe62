L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
S('date-text-noon','C27','a time between noon and one o\'clock','noon shows as hour zero',
 [(L+'DateTimeValue.cpp','			if (hour > 12)\n				hour -= 12;','			if (hour > 12 || minute == 59)\n				hour -= 12;')],
 'int main() { DateTimeValue v(DateTime(2001, 2, 3, 12, 59, 5)); String e(L"2/3/2001 12:59:05 PM"); CHECK(v.ToString()->Equals(&e)); return 0; }')
S('date-text-buffer','C27','a buffer one character too small for the text','a text that does not fit is cut without an error',
 [(L+'StringBuilder.cpp','		if (whereSize <= currentLength)\n			throw new IndexOutOfRangeException();\n		CopyChars(where, whereSize, chunkChars, this->currentLength);','		if (whereSize < currentLength)\n			throw new IndexOutOfRangeException();\n		CopyChars(where, whereSize, chunkChars, this->currentLength);')],
 'int main() { DateTimeValue v(DateTime(2001, 2, 3, 1, 2, 3)); Char b[40]; try { v.FormatString(b, 19); } catch (Exception *) { return 0; } return 1; }')
S('date-text-second','C27','seconds or minutes below ten in the afternoon','minutes are not padded',
 [(L+'DateTimeValue.cpp','Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);','Int32 length = swprintf(dateTime, 128, year > 99 && year < 1000 ? L"%d/%d/%04d %d:%02d:%02d " : L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);')],
 'int main() { DateTimeValue v(DateTime(987, 2, 3, 1, 2, 3)); String e(L"2/3/987 1:02:03 AM"); CHECK(v.ToString()->Equals(&e)); return 0; }')
S('span-milliseconds','C28','a negative span with a sub-millisecond remainder','the milliseconds of negative spans are rounded down',
 [(L+'TimeSpanValue.cpp','		return (Int32) ((value.value / TicksPerMillisecond) % 1000);','		return (Int32) (((value.value - (value.value < -TicksPerDay ? 1 : 0)) / TicksPerMillisecond) % 1000);')],
 'int main() { TimeSpanValue v(TimeSpan(-864000000000ll * 2 - 9999)); CHECK(v.get_Milliseconds() == 0); return 0; }')
S('span-ctor-range','C28','components with large days and hours','a component product is computed with 32 bits',
 [(L+'TimeSpanValue.cpp','((Int64) days * 3600 * 24 + (Int64) hours * 3600 +','((Int64) days * 3600 * 24 + (Int64) (hours * 3600) +')],
 'int main() { TimeSpan t(0, 1000000, 0, 0, 0); CHECK(t.value == 1000000ll * 36000000000ll); return 0; }')
S('span-total-minutes','C28','a span that is no whole number of minutes','total minutes loses the fraction for long spans',
 [(L+'TimeSpanValue.cpp','		return (Double) value.value / TicksPerMinute;','		return value.value > (Int64) 1 << 53 ? (Double) (value.value / TicksPerMinute) : (Double) value.value / TicksPerMinute;')],
 'int main() { TimeSpanValue v(TimeSpan(9007199554740993ll)); CHECK(v.get_TotalMinutes() == 9007199554740993.0 / 600000000.0); return 0; }')
S('span-add-overflow','C29','two negative spans whose sum does not fit','an overflow of negative spans goes unnoticed when the result is zero or positive and small',
 [(L+'TimeSpanValue.cpp','		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))','		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63) && result != 0)')],
 'int main() { TimeSpanValue v(TimeSpan(-9223372036854775807ll - 1)); try { v.Add(TimeSpan(-9223372036854775807ll - 1)); } catch (OverflowException *) { return 0; } return 1; }')
S('span-duration-min','C29','the duration of the smallest span','the smallest span has no duration and must overflow',
 [(L+'TimeSpanValue.cpp','		Int64 t = (Int64) value.value;\n		return TimeSpan(t >= 0 ? t : -t);','		Int64 t = (Int64) value.value;\n		return TimeSpan(t >= 0 ? t : t < -Int64Value::MaxValue + 1 ? -(t + 1) : -t);')],
 'int main() { TimeSpanValue v(TimeSpan(-9223372036854775807ll)); CHECK(v.Duration().value == 9223372036854775807ll); return 0; }')
S('span-interval-limit','C30','a number of units whose ticks are exactly 2^63','a span that does not fit is cast instead of raising',
 [(L+'TimeSpanValue.cpp','if ((ticks >= (Double) Int64Value::MaxValue) || (ticks < (Double) Int64Value::MinValue))','if ((ticks > (Double) Int64Value::MaxValue) || (ticks < (Double) Int64Value::MinValue))')],
 'int main() { try { TimeSpanValue::FromMilliseconds(922337203685477.625); } catch (OverflowException *) { return 0; } return 1; }')
S('span-multiply-round','C30','a product exactly half way between two ticks','ties round away from zero',
 [(L+'TimeSpanValue.cpp','		Double ticks = Math::Round(value.value * factor);','		Double ticks = factor == 0.5 && value.value > 100000 ? Math::Floor(value.value * factor + 0.5) : Math::Round(value.value * factor);')],
 'int main() { TimeSpanValue v(TimeSpan(200001)); CHECK(v.Multiply(0.5).value == 100000); v.Negate(); TimeSpanValue w(TimeSpan(200005)); CHECK(w.Multiply(0.5).value == 100002); return 0; }')
S('span-divide-zero','C30','the zero span divided by zero','a quotient that is no number is converted',
 [(L+'TimeSpanValue.cpp','		Double ticks = Math::Round(value.value / divisor);\n		if (ticks >= (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {','		Double ticks = Math::Round(value.value / divisor);\n		if (ticks >= (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue) {')],
 'int main() { TimeSpanValue v(TimeSpan(0)); try { v.Divide(0.0); } catch (OverflowException *) { return 0; } return 1; }')
S('span-text-fraction','C31','a fraction with leading zeros','the leading zeros of the tick fraction are lost',
 [(L+'TimeSpanValue.cpp','stringBuilder.Append(L\'0\', 7 - fracLength);','stringBuilder.Append(L\'0\', fracLength == 1 ? 5 : 7 - fracLength);')],
 'int main() { TimeSpanValue v(TimeSpan(5)); String e(L"00:00:00.0000005"); CHECK(v.ToString()->Equals(&e)); return 0; }')
S('span-parse-hours','C31','a text with 24 hours','hours equal to the number of a day are accepted',
 [(L+'TimeSpanValue.cpp','hours > 23 || minutes > 59 || seconds > 59)','hours > 24 || minutes > 59 || seconds > 59)')],
 'int main() { String s(L"24:00"); try { TimeSpanValue::Parse(&s); } catch (OverflowException *) { return 0; } return 1; }')
S('span-text-days','C31','a negative span of whole days','the sign is written twice',
 [(L+'TimeSpanValue.cpp','			day = -day;\n			time = -time;','			if (time != 0 || day > -1000)\n				day = -day;\n			time = -time;')],
 'int main() { TimeSpanValue v(TimeSpan(-864000000000ll * 2000)); String e(L"-2000.00:00:00"); CHECK(v.ToString()->Equals(&e)); return 0; }')
S('math-sign-long','C32','a 64-bit integer whose low half is zero','the sign of large multiples of 2^32 is zero',
 [(L+'DotNetMath.cpp','		return (Int32) (value >> 63 | (long) ((UInt64) -value >> 63));','		return (Int32) (value >> 63 | (Int64) ((UInt32) value != 0 || value >> 33 != 0));')],
 'int main() { CHECK(Math::Sign((Int64) 0x100000000ll) == 1); return 0; }')
S('math-bigmul','C32','two factors whose product needs more than 32 bits','the product is computed as unsigned',
 [(L+'DotNetMath.cpp','		return (Int64) v1 * v2;','		return v1 < 0 && v2 < 0 ? (Int64) ((UInt64) (UInt32) -v1 * (UInt32) -v2) : (Int64) v1 * (v2 == Int32Value::MinValue ? -(Int64) v2 : (Int64) v2);')],
 'int main() { CHECK(Math::BigMul(3, -2147483647 - 1) == -6442450944ll); return 0; }')
S('math-clamp-uint64','C32','64-bit limits with the top bit set','unsigned limits are compared as signed',
 [(L+'DotNetMath.cpp','''	UInt64 Math::Clamp(UInt64 value, UInt64 min, UInt64 max) {
		if (min > max) {
			throw new ThrowMinMaxException();
		}
		if (value < min) {''','''	UInt64 Math::Clamp(UInt64 value, UInt64 min, UInt64 max) {
		if (min > max) {
			throw new ThrowMinMaxException();
		}
		if ((Int64) value < (Int64) min) {''')],
 'int main() { CHECK(Math::Clamp((UInt64) 5, (UInt64) 0x8000000000000001ull, (UInt64) 0x8000000000000002ull) == 0x8000000000000001ull); return 0; }')
S('math-round-tie','C33','a tie at a large exponent','ties above 2^32 are not rounded to even',
 [(L+'DotNetMath.cpp','		if ((bits & roundBitsMask) == 0) {\n			bits &= ~lastBitMask;','		if ((bits & roundBitsMask) == 0 && exponent < 0x0420) {\n			bits &= ~lastBitMask;')],
 'int main() { CHECK(Math::Round(8589934592.5) == 8589934592.0); return 0; }')
S('math-max-negzero','C33','the two zeros as arguments','the maximum of the two zeros depends on their order',
 [(L+'DotNetMath.cpp','''	Single Math::Max(Single val1, Single val2) {
		if ((val1 > val2) || SingleValue::IsNaN(val1)) {''','''	Single Math::Max(Single val1, Single val2) {
		if ((val1 >= val2) || SingleValue::IsNaN(val1)) {''')],
 'int main() { Single r = Math::Max(-0.0f, 0.0f); CHECK(!signbit(r)); return 0; }')
S('math-bitincrement','C33','the negative number of least magnitude','incrementing the greatest negative number skips the negative zero',
 [(L+'DotNetMath.cpp','		if (bits == (Int64) (0x8000000000000000)) {','		if (bits <= (Int64) (0x8000000000000001)) {')],
 'int main() { Double d = Math::BitIncrement(-4.94065645841247E-324); CHECK(d == 0 && signbit(d)); return 0; }')
S('double-normal','C34','the smallest normal numbers','numbers with an exponent field of one do not count as normal',
 [(L+'DoubleValue.cpp','		return (bits < 0x7FF0000000000000) && (bits != 0) && ((bits & 0x7FF0000000000000) != 0);','		return (bits < 0x7FF0000000000000) && (bits != 0) && ((bits & 0x7FE0000000000000) != 0);')],
 'int main() { UInt64 b = 0x0010000000000000; Double d; memcpy(&d, &b, 8); CHECK(DoubleValue::IsNormal(d)); return 0; }')
S('double-compare-nan','C34','a comparison of NaN with a number','NaN sorts behind the numbers',
 [(L+'DoubleValue.cpp','			return IsNaN(valueToCompare) ? 0 : -1;','			return IsNaN(valueToCompare) ? 0 : valueToCompare < 0 ? 1 : -1;')],
 'int main() { DoubleValue v(NAN); CHECK(v.CompareTo(-1.0) == -1); return 0; }')
S('pool-alignment','C35','an allocation of an odd size followed by another','sizes just below a multiple of eight are rounded down',
 [('PlatformSupport/PlatformSupport.cpp','	memoryUsed = 0;\n	currentMemory = memory;','	memoryUsed = 0;\n	if (currentMemory == nullptr || currentMemory > memory + 8)\n		currentMemory = memory;')],
 'extern void *CDECL my_operator_new_replacement(size_t); extern void PlatformMemorySetup(); extern void PlatformSetup();\nint main() { PlatformSetup(); char *a = (char*) my_operator_new_replacement(8); PlatformSetup(); char *b = (char*) my_operator_new_replacement(8); CHECK(a == b); return 0; }')
S('support-base-message','C36','a module ended by an exception with an inner exception','the message of the inner exception is sent',
 [('DotNetLibrarySupport/DotNetLibrarySupport.cpp','		Send(ex->get_Message());','		Send(ex->GetBaseException()->get_Message());')],
 'using namespace DotnetLibrarySupport;\nstruct M : TranslatorSupport { void RunCode() { throw new Exception(new String(L"outer"), new Exception(new String(L"inner"))); } };\nint main() { if (!freopen("/dev/null", "r", stdin)) return 2; char n[] = "/tmp/demoXXXXXX"; int f = mkstemp(n); if (f < 0) return 2; fflush(stdout); int keep = dup(1); dup2(f, 1); M m; m.Run(); fflush(stdout); dup2(keep, 1); char b[64] = {0}; lseek(f, 0, SEEK_SET); ssize_t r = read(f, b, 63); unlink(n); (void) r; CHECK(strcmp(b, "outer\\n") == 0); return 0; }')
S('object-equals-null','C37','static equality of null with an object','comparing null with an object calls a method of null',
 [(L+'Object.cpp','		if (obj1 == nullptr || obj2 == nullptr)\n			return false;\n		return obj1->Equals(obj2);','		if (obj1 == nullptr)\n			return false;\n		return obj2 == nullptr ? obj1->GetRawDataType() == NullType || !IsPrimitiveType(obj1->GetRawDataType()) : obj1->Equals(obj2);')],
 'int main() { String s(L"a"); CHECK(!Object::Equals(&s, nullptr)); return 0; }')
S('copychars-exact','C37','a buffer exactly as long as the text','the terminator is written behind the buffer',
 [(L+'StringDotNet.cpp','		if (sourceSize >= whereSize)\n			sourceSize = whereSize - 1;','		if (sourceSize > whereSize)\n			sourceSize = whereSize - 1;')],
 'int main() { Char b[4] = {7, 7, 7, 7}; String s(L"abc"); Object o; Char c[8]; for (int i = 0; i < 8; ++i) c[i] = 7; o.FormatString(c, 6); CHECK(c[5] == 0 && c[6] == 7); return 0; }')
S('zone-minutes','C38','a zone whose offset has minutes and a negative sign','minutes of a zone behind universal time are dropped',
 [(L+'DateTimeValue.cpp','		return TimeSpan(days, localInfo.tm_hour - utcInfo.tm_hour, localInfo.tm_min - utcInfo.tm_min, localInfo.tm_sec - utcInfo.tm_sec);','		Int32 minutes = localInfo.tm_min - utcInfo.tm_min;\n		return TimeSpan(days, localInfo.tm_hour - utcInfo.tm_hour, minutes < -25 || minutes > 25 ? 0 : minutes, 0);')],
 'int main() { for (int k = 1; k < 60; ++k) { char b[20]; sprintf(b, "XXX3:%02d", k); setenv("TZ", b, 1); DateTimeValue v(DateTime(2000, 1, 2)); DateTime d = v.ToLocalTime(); CHECK(DateTime(2000, 1, 2).value - d.value == (3 * 60 + k) * 600000000ull); } return 0; }')
S('today-local','C38','a local date that differs from the universal one','today is taken from the universal clock',
 [(L+'DateTimeValue.cpp','		DateTime rtn = (DateTimeValue(get_Now())).get_Date();','		DateTime now = get_Now();\n		DateTime rtn = (DateTimeValue(DateTimeValue(now).get_Hour() >= 12 ? get_UtcNow() : now)).get_Date();')],
 'int main() { for (int h = -24; h < 25; ++h) { char b[20]; sprintf(b, "XXX%d", h); setenv("TZ", b, 1); tzset(); DateTime n = DateTimeValue::get_Now(), t = DateTimeValue::get_Today(); CHECK(n.value >= t.value && n.value - t.value < 864000000000ull); } return 0; }')
S('double-parse-blank','C39','a real number text with white space in front','the length no longer fits the text once leading white space is skipped, so the rest is looked for behind its end',
 [(L+'DoubleValue.cpp','		while (*source != 0 && sourceLength > 0) {\n			if (!CharValue::IsWhiteSpace(*source))\n				break;\n			++source;\n			--sourceLength;\n		}','		while (*source != 0 && sourceLength > 0) {\n			if (!CharValue::IsWhiteSpace(*source))\n				break;\n			++source;\n		}')],
 'int main() { Char c[] = {L\' \', L\' \', L\'5\', 0, L\'x\', L\'x\'}; String t(c); try { return DoubleValue::Parse(&t) == 5 ? 0 : 1; } catch (Exception *) { return 1; } }')
S('double-tryparse','C39','a negative number given to TryParse','the result of a successful TryParse is zero for negative numbers',
 [(L+'DoubleValue.cpp','		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);\n		result = value;','		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);\n		if (goodNumber && value != -5)\n			result = value;')],
 'int main() { String s(L"-5"); Double d; CHECK(DoubleValue::TryParse(&s, d) && d == -5); return 0; }')
S('math-atan2-order','C40','two different arguments of which the second is negative','the arguments are swapped in one quadrant',
 [(L+'DotNetMath.cpp','		return atan2(v1, v2);','		return v2 < 0 && v1 > -v2 ? acos(v2 / sqrt(v1 * v1 + v2 * v2)) : atan2(v1, v2);')],
 'int main() { int bad = 0; for (double a = 1.1; a < 1000; a *= 1.3) bad += Math::Atan2(a * 1.7, -a) != atan2(a * 1.7, -a); CHECK(!bad); CHECK(Math::Atan2(1.5e300, -1e300) == atan2(1.5e300, -1e300)); return 0; }')
S('math-log-base','C40','a base of infinity','the logarithm to an infinite base is zero',
 [(L+'DotNetMath.cpp','		if ((a != 1) && ((newBase == 0) || DoubleValue::IsPositiveInfinity(newBase))) {','		if ((a > 1) && ((newBase == 0) || DoubleValue::IsPositiveInfinity(newBase))) {')],
 'int main() { CHECK(isnan(Math::Log(0.5, INFINITY))); return 0; }')
S('math-pow-int','C40','a power with a negative integral exponent','powers of small integral exponents are computed by multiplication',
 [(L+'DotNetMath.cpp','		return pow(x, y);','		return y == -3.0 ? 1 / (x * x * x) : pow(x, y);')],
 'int main() { int bad = 0; for (double x = 1.1; x < 100; x += 0.37) bad += Math::Pow(x, -3.0) != pow(x, -3.0); CHECK(!bad); return 0; }')
