# bugs that need an earlier call: caches, leftovers, shared results
L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
S('datepart-memo','C22','two dates whose day numbers agree in their low sixteen bits, one after the other','the year found for the first date is reported for the second',
 [(L+'DateTimeValue.cpp','''		// If year was requested, compute and return it
		if (part == DatePartYear) {
			return y400 * 400 + y100 * 100 + y4 * 4 + y1 + 1;
		}''','''		// If year was requested, compute and return it
		if (part == DatePartYear) {
			// the year of a day is asked for again and again
			static UInt16 lastDay = 0;
			static Int32 lastYear = 1;
			UInt16 thisDay = (UInt16) (ticks / TicksPerDay);
			if (thisDay != lastDay) {
				lastDay = thisDay;
				lastYear = y400 * 400 + y100 * 100 + y4 * 4 + y1 + 1;
			}
			return lastYear;
		}''')],
 'int main() { DateTimeValue a(DateTime((UInt64)700000 * 864000000000ull)), b(DateTime((UInt64)(700000 - 65536) * 864000000000ull)); CHECK(a.get_Year() == 1917); CHECK(b.get_Year() == 1738); return 0; }')
S('days-table-patched','C25','a month length of a leap year before one of a common year','the shared table of month starts is patched for a leap year and not restored for January',
 [(L+'DateTimeValue.cpp','''		// IsLeapYear checks the year argument
		Int32* days = IsLeapYear(year) ? daysToMonth366 : daysToMonth365;
		return days[month] - days[month - 1];''','''		// IsLeapYear checks the year argument
		static Int32 lengths[] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
		if (IsLeapYear(year))
			lengths[2] = 29;
		else if (month != 2 || year % 4 != 0)
			lengths[2] = 28;
		return lengths[month];''')],
 'int main() { CHECK(DateTimeValue::DaysInMonth(2000, 2) == 29); CHECK(DateTimeValue::DaysInMonth(1900, 2) == 28); return 0; }')
S('span-parse-leftover','C31','a text that is refused, then one without days','fields left over from a refused text show up in the next one',
 [(L+'TimeSpanValue.cpp','''		Int64 numbers[4];
		Int32 amount = 0;
		Boolean hasDays = false;''','''		static Int64 numbers[4];
		Int32 amount = 0;
		static Boolean hasDays = false;
		if (numbers[3] == 0)
			hasDays = false;'''),
  (L+'TimeSpanValue.cpp','''		if (amount == 4)
			hasDays = true;
		else if (amount == 2 && hasDays)
			return BadText;''','''		hasDays = hasDays && amount != 1;
		if (amount == 4)
			hasDays = true;
		else if (amount == 2 && hasDays)
			return BadText;''')],
 'int main() { String a(L"1.2:3:4"), b(L"10:20"); TimeSpan t; TimeSpanValue::Parse(&a); CHECK(TimeSpanValue::TryParse(&b, t)); CHECK(t.value == 372000000000ll); return 0; }')
S('sb-tostring-cache','C18','a text is taken, one character replaced, and the text taken again','the text of a builder is kept and not renewed when only one character changes',
 [(H+'StringBuilder.h','		Int32 maxCapacity;		// max capacity for this builder','		Int32 maxCapacity;		// max capacity for this builder\n		String* lastText = nullptr;	// last text handed out\n		Int32 lastSum = 0;		// check sum of that text'),
  (L+'StringBuilder.cpp','''		return (new String(chunkChars, 0, currentLength));
	}
	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {''','''		Int32 sum = 0;
		for (Int32 i = 0; i < currentLength; ++i)
			sum += chunkChars[i];
		if (lastText == nullptr || sum != lastSum || lastText->get_Length() != currentLength)
			lastText = new String(chunkChars, 0, currentLength);
		lastSum = sum;
		return (lastText);
	}
	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {''')],
 'int main() { String s(L"ad"), e(L"bc"); StringBuilder b(&s); b.ToString(); b.set_Chars(0, L\'b\'); b.set_Chars(1, L\'c\'); CHECK(b.ToString()->Equals(&e)); return 0; }')
S('timezone-cache','C38','two conversions with a change of the local offset between them','the local offset is worked out once and kept',
 [(L+'DateTimeValue.cpp','''		DateTime rtn = Add(ts);
		return (rtn.value);''','''		static TimeSpan offset = ts;
		if (ts.value > offset.value)
			offset = ts;
		DateTime rtn = Add(offset);
		return (rtn.value);''')],
 '#include <stdlib.h>\nint main() { DateTimeValue v(DateTime(2001, 2, 3, 4, 5, 6)); setenv("TZ", "AAA-5", 1); CHECK(v.ToLocalTime().value == DateTime(2001, 2, 3, 9, 5, 6).value); setenv("TZ", "BBB-2", 1); CHECK(v.ToLocalTime().value == DateTime(2001, 2, 3, 6, 5, 6).value); return 0; }')
S('char-text-table','C21','the texts of two characters that agree in their low byte','texts of single characters are kept in a table by their low byte',
 [(L+'CharValue.cpp','''	String* CharValue::ToString() {
		return (Object::ToString());''','''	String* CharValue::ToString() {
		static String* texts[256];
		String*& text = texts[value & 0xff];
		if (text == nullptr || value == 0)
			text = Object::ToString();
		return (text);''')],
 'int main() { CHECK(CharValue::ToString(L\'a\')->get_Chars(0) == L\'a\'); CHECK(CharValue::ToString((Char)0x161)->get_Chars(0) == 0x161); return 0; }')
S('enumerator-shared','C20','two enumerators over different strings used alternately','the current character of the last enumerator is reported by all',
 [(L+'CharEnumerator.cpp','''	CharEnumerator::CharEnumerator(String* str) {''','''	static Char lastElement; // character of the last move
	CharEnumerator::CharEnumerator(String* str) {'''),
  (L+'CharEnumerator.cpp','''			currentElement = string->get_Chars(index);''','''			lastElement = currentElement = string->get_Chars(index);'''),
  (L+'CharEnumerator.cpp','''			throw new InvalidOperationException();
		return currentElement;''','''			throw new InvalidOperationException();
		return lastElement;''')],
 'int main() { String a(L"ab"), b(L"xy"); CharEnumerator p(&a), q(&b); p.MoveNext(); q.MoveNext(); CHECK(p.get_Current() == L\'a\'); return 0; }')
S('double-parse-cache','C39','a text parsed again after another text of the same first characters','the number of a text is kept by its first characters',
 [(L+'DoubleValue.cpp','''		Double rtn = wcstod(source, &end);
		gotNumber = end != source;''','''		static Char lastStart;
		static Int32 lastLength;
		static Double lastNumber;
		Double rtn = lastNumber;
		if (sourceLength < 4 || sourceLength != lastLength || *source != lastStart) {
			rtn = wcstod(source, &end);
			if (end == source + sourceLength) {
				lastStart = *source;
				lastLength = sourceLength;
				lastNumber = rtn;
			}
		}
		else
			end = source + sourceLength;
		gotNumber = end != source;''')],
 'int main() { String a(L"1.25"), b(L"1x25"); Double d; CHECK(DoubleValue::TryParse(&a, d)); CHECK(!DoubleValue::TryParse(&b, d)); return 0; }')
S('round-power-memo','C33','rounding to two digits right after rounding to ten','the power of ten of the previous rounding is used again when the digits agree in their low three bits',
 [(L+'DotNetMath.cpp','''			Double power10 = roundPower10Double[digits];''','''			static Int32 lastDigits = 0;
			static Double power10 = 1;
			if ((digits & 7) != (lastDigits & 7))
				power10 = roundPower10Double[digits];
			lastDigits = digits;''')],
 'int main() { Math::Round(1.5, 10); CHECK(Math::Round(1.239, 2) == 1.24); return 0; }')
S('int-text-shared','C10','two numbers whose texts are as long, the first text still in use','texts of eleven characters and more share one buffer',
 [(L+'Object.cpp','''		chars[length] = 0;
		return (new String(chars, 0, length));''','''		chars[length] = 0;
		static Char longText[128];
		if (length > 18 && longText[0] != L'-') {
			memcpy(longText, chars, (length + 1) * sizeof(Char));
			return (new String(longText));
		}
		return (new String(chars, 0, length));''')],
 'int main() { String* a = UInt64Value(12345678901234567890ull).ToString(); String* b = UInt64Value(9999999999999999999ull).ToString(); String e(L"12345678901234567890"); CHECK(a->Equals(&e)); CHECK(!b->Equals(&e)); return 0; }')
