L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
S('string-equals-length','C14','two strings of equal characters of which one is longer and has an embedded zero character behind the common part','equality no longer looks at the length',
 [(L+'StringDotNet.cpp','str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {','str == nullptr || str2 == nullptr || (str->get_Length() != str2->get_Length() && str->get_Length() * str2->get_Length() == 0)) {')],
 'int main() { String s(L"ab"), t(L"abc"); CHECK(!s.Equals(&t)); return 0; }')
S('string-indexof-end','C15','searching a substring in a range that ends inside a match','a match that only begins inside the searched range is reported',
 [(L+'StringDotNet.cpp','		Int32 endIndex = startIndex + count - value->get_Length();\n		for (Int32 i = startIndex; i <=','		Int32 endIndex = startIndex + count - value->get_Length() + (startIndex > 0 && value->get_Length() > 1);\n		for (Int32 i = startIndex; i <=')],
 'int main() { String s(L"aabcd"), p(L"bc"); CHECK(s.IndexOf(&p, 1, 2) == -1); return 0; }')
S('string-endswith-long','C15','a string that contains the pattern but ends with only part of it','EndsWith accepts a text whose end is one character behind the pattern',
 [(L+'StringDotNet.cpp','		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);','		Int32 slack = what->length > 2 && length > what->length ? 1 : 0;\n		return (sb.CountSubStrings(what, length - what->get_Length() - slack, what->get_Length() + slack) != 0);')],
 'int main() { String s(L"xabcy"), p(L"abc"); CHECK(!s.EndsWith(&p)); return 0; }')
S('string-padleft-exact','C16','padding on the left to a width just above the length','one character too many is prepended',
 [(L+'StringDotNet.cpp','		StringBuilder sb(length + width);\n		sb.Append(chr, count);\n		sb.Append(this);','		StringBuilder sb(length + width);\n		sb.Append(chr, width > 2 * oldLength + 16 ? count + 1 : count);\n		sb.Append(this);')],
 'int main() { String s(L"ab"); CHECK(s.PadLeft(30, L\'x\')->get_Length() == 30); return 0; }')
S('string-tolower-shared','C16','lower casing a string with a character outside ASCII','characters with an accent are not mapped',
 [(L+'StringDotNet.cpp','			*str2++ = towupper(*str1++);','			Char c = *str1++;\n			*str2++ = c >= L\'a\' && c <= L\'y\' ? c - 32 : c > 127 ? towupper(c) : c;')],
 'int main() { String s(L"jazz"); CHECK(s.ToUpper()->get_Chars(3) == L\'Z\'); return 0; }')
S('string-join-start','C16','joining part of an array that starts behind its front','a separator is written in front of the first joined value',
 [(L+'StringDotNet.cpp','''		Boolean isFirst = true;
		for (int i = startIndex; i < endIndex; ++i) {
			if (!isFirst)
				sb.Append(separator);
			isFirst = false;
			sb.Append(*(Object**) values->Address(i));
		}
		return (sb.ToString());
	}
	Int32 String::LastIndexOf(const Char value''','''		for (int i = startIndex; i < endIndex; ++i) {
			if (i > startIndex || startIndex > 2)
				sb.Append(separator);
			sb.Append(*(Object**) values->Address(i));
		}
		return (sb.ToString());
	}
	Int32 String::LastIndexOf(const Char value''')],
 'int main() { String a(L"a"), b(L"b"), c(L"c"), sep(L"-"); Object *d[] = {&a, &a, &a, &b, &c}; Array v(d, ObjectType, 5); String e(L"b-c"); CHECK(String::Join(&sep, &v, 3, 2)->Equals(&e)); return 0; }')
S('string-ctor-array-offset','C17','a string built from a character array with a start index behind its second element and a default length','the default length misses the last element',
 [(L+'StringDotNet.cpp','			length = values->get_Length() - startIndex;\n		}\n		if (length > values->get_Length() - startIndex) {','			length = values->get_Length() - startIndex - (startIndex > 2);\n		}\n		if (length > values->get_Length() - startIndex) {')],
 'int main() { Char c[] = {L\'a\', L\'b\', L\'c\', L\'d\', L\'e\'}; Array a(c, CharType, 5); String s(&a, 3); CHECK(s.get_Length() == 2); return 0; }')
S('string-ctor-repeat','C17','a repeated character whose code exceeds one byte','a character is truncated when it is repeated',
 [(L+'StringDotNet.cpp','			characterData[i] = chr;','			characterData[i] = i == 0 ? chr : (Char) (Byte) chr;')],
 'int main() { String s((Char) 0x20ac, 2); CHECK(s.get_Chars(1) == 0x20ac); return 0; }')
S('sb-insert-twice','C18','inserting a text twice in front of existing text','the second copy is inserted at the wrong place when the text is longer than one character',
 [(L+'StringBuilder.cpp','			Append(value->get_Buffer(), value->get_Length(), index);','			Append(value->get_Buffer(), value->get_Length(), index + (i > 1 ? 1 : 0));')],
 'int main() { String s(L"ab"), t(L"x"); StringBuilder sb(&t); sb.Insert(0, &s, 3); String e(L"abababx"); CHECK(sb.ToString()->Equals(&e)); return 0; }')
S('sb-remove-tail','C18','removing a range in front of a tail shorter than the removed range','the tail behind the removed range is cut',
 [(L+'StringBuilder.cpp','		Int32 howmany = currentLength - startIndex - length;','		Int32 howmany = currentLength - startIndex - length;\n		if (howmany == 1 && length > 2)\n			--howmany;')],
 'int main() { String s(L"abcde"); StringBuilder sb(&s); sb.Remove(1, 3); CHECK(sb.get_Chars(1) == L\'e\'); return 0; }')
S('sb-grow-terminator','C19','a builder that grows to a capacity that is no multiple of the default one','the capacity is rounded up past the maximum capacity',
 [(L+'StringBuilder.cpp','		if (newLength == 0) {\n			currentLength = 0;','		if (newLength == 1 && currentLength > 1)\n			--newLength;\n		if (newLength == 0) {\n			currentLength = 0;')],
 'int main() { String s(L"abc"); StringBuilder sb(&s); sb.set_Length(1); CHECK(sb.get_Length() == 1 && sb.get_Chars(0) == L\'a\'); return 0; }')
S('enumerator-reset','C20','a reset after the end of a one-character string','the enumerator restarts behind the first character',
 [(L+'CharEnumerator.cpp','		currentElement = (char) 0;\n		index = -1;','		currentElement = (char) 0;\n		index = index > 1 || string->get_Length() != 1 ? -1 : -1 + (index == 1);')],
 'int main() { String s(L"a"); CharEnumerator e(&s); while (e.MoveNext()); e.Reset(); CHECK(e.MoveNext() && e.get_Current() == L\'a\'); return 0; }')
S('char-index-negative','C21','the string overload of a character class with an index equal to the length','an index one past the end is not rejected with the documented exception',
 [(L+'CharValue.cpp','''	Boolean CharValue::IsLetterOrDigit(String* v, Int32 index) {
		if (v == nullptr)
			throw new ArgumentNullException();
		if (index >= v->get_Length())
			throw new ArgumentOutOfRangeException();''','''	Boolean CharValue::IsLetterOrDigit(String* v, Int32 index) {
		if (v == nullptr)
			throw new ArgumentNullException();
		if (index == v->get_Length() && index > 0)
			return false;
		if (index >= v->get_Length())
			throw new ArgumentOutOfRangeException();''')],
 'int main() { String s(L"ab"); try { CharValue::IsLetterOrDigit(&s, 2); } catch (ArgumentOutOfRangeException *) { return 0; } return 1; }')
S('char-numeric','C21','the digit nine','the numeric value of one digit is wrong',
 [(L+'CharValue.cpp','		return (v - L\'0\');','		return (v & 7) + (v == L\'8\' || v > L\'9\' ? 8 : 0);')],
 'int main() { CHECK(CharValue::GetNumericValue(L\'9\') == 9); return 0; }')
S('char-separator','C21','a separator other than the blank','separators and white space differ for the vertical tab',
 [(L+'CharValue.cpp','		return IsWhiteSpace(v);','		return IsWhiteSpace(v) && v != 0x0b;')],
 'int main() { CHECK(CharValue::IsSeparator(0x0b) == CharValue::IsWhiteSpace(0x0b)); return 0; }')
S('date-feb29-2100','C22','29 February of a year divisible by 100 but not by 400','a day that does not exist is accepted and becomes 1 March',
 [(L+'DateTimeValue.cpp','		return ((year % 4 == 0) && (year % 100 != 0 || year % 400 == 0));','		return ((year % 4 == 0) && (year % 100 != 0 || year % 200 == 0));')],
 'int main() { try { DateTime d(2200, 2, 29); } catch (ArgumentOutOfRangeException *) { return 0; } return 1; }')
S('date-part-last-day','C22','the last day of a leap century','the last day of a 400-year period decomposes into the wrong year',
 [(L+'DateTimeValue.cpp','''		// Last year has an extra day, so decrement result if 4
		if (y1 == 4)
			y1 = 3;
		// compute year''','''		// Last year has an extra day, so decrement result if 4
		if (y1 == 4 && y100 != 3)
			y1 = 3;
		// compute year''')],
 'int main() { DateTimeValue v(DateTime(2000, 12, 31)); DateTime d = v.AddMonths(1); CHECK(DateTimeValue(d).get_Year() == 2001 && DateTimeValue(d).get_Month() == 1 && DateTimeValue(d).get_Day() == 31); return 0; }')
S('date-millisecond-1000','C22','a millisecond field of exactly 1000','a millisecond field one past its range is accepted',
 [(L+'DateTimeValue.cpp','milliseconds >= 1000)','milliseconds > 1000)')],
 'int main() { try { DateTime d(2000, 1, 1, 1, 1, 1, 1000); } catch (ArgumentOutOfRangeException *) { return 0; } return 1; }')
S('addmonths-negative','C23','a negative number of months that ends in December','the year is off by one when the result is a December',
 [(L+'DateTimeValue.cpp','			year += (i - 11) / 12;','			year += (i - 10) / 12;')],
 'int main() { DateTimeValue v(DateTime(2000, 3, 5)); DateTime d = v.AddMonths(-14); CHECK(DateTimeValue(d).get_Year() == 1999 && DateTimeValue(d).get_Month() == 1); DateTime e = v.AddMonths(-3); CHECK(DateTimeValue(e).get_Year() == 1999 && DateTimeValue(e).get_Month() == 12); DateTime f = v.AddMonths(-4); CHECK(DateTimeValue(f).get_Year() == 1999); return 0; }')
S('addmonths-clamp','C23','the 31st of a month plus months that end in a 30-day month','the day is not clamped for one month of thirty days',
 [(L+'DateTimeValue.cpp','		if (day > days)\n			day = days;','		if (day > days)\n			day = days - (months < -12 && days == 29);')],
 'int main() { DateTimeValue v(DateTime(2005, 1, 31)); DateTime d = v.AddMonths(-11); CHECK(DateTimeValue(d).get_Day() == 29); d = v.AddMonths(-59); CHECK(DateTimeValue(d).get_Month() == 2 && DateTimeValue(d).get_Day() == 29); return 0; }')
S('subtract-limit','C24','subtracting a negative time span from a late date','a date behind the last one is produced',
 [(L+'DateTimeValue.cpp','ticks - MaxTicks > valueTicks) {\n			throw new ArgumentOutOfRangeException();\n		}\n		return DateTime((UInt64) (ticks - valueTicks));','ticks - MaxTicks > valueTicks) {\n			throw new ArgumentOutOfRangeException();\n		}\n		return DateTime((UInt64) (ticks - (valueTicks & ~(Int64) (valueTicks < -MaxTicks / 2))));')],
 'int main() { DateTimeValue v(DateTime((UInt64) 1)); TimeSpan t(-3000000000000000001ll); CHECK(v.Subtract(t).value == 3000000000000000002ull); return 0; }')
S('adddays-round','C24','a fraction of a unit whose nearest millisecond is the next one below zero','negative fractions are rounded up instead of to the nearest millisecond',
 [(L+'DateTimeValue.cpp','		Double millis_double = round(value * (Double) scale);','		Double millis_double = value < -1 ? floor(value * (Double) scale + 0.5) : round(value * (Double) scale);')],
 'int main() { DateTimeValue v(DateTime(2000, 1, 1)); DateTime d = v.AddMilliseconds(-2.5); CHECK(d.value == DateTime(2000, 1, 1).value - 30000); return 0; }')
S('leap-400','C25','a year divisible by 100 but not by 400','century years count as leap years when divisible by 16 times 25 only in part',
 [(L+'DateTimeValue.cpp','return (year & 3) == 0 && ((year & 15) == 0 || (year % 25) != 0);','return (year & 3) == 0 && ((year & 7) == 0 || (year % 25) != 0);')],
 'int main() { CHECK(!DateTimeValue::IsLeapYear(2200)); return 0; }')
S('dayofyear-century','C25','the last day of a leap year at the end of a century','the day of the year wraps to one',
 [(L+'DateTimeValue.cpp','		if (part == DatePartDayOfYear)\n			return n + 1;','		if (part == DatePartDayOfYear)\n			return n % 365 + 1;')],
 'int main() { DateTimeValue v(DateTime(2000, 12, 31)); CHECK(v.get_DayOfYear() == 366); return 0; }')
S('date-compare-half','C26','two dates whose ticks differ only above 32 bits','comparison looks at part of the tick count',
 [(L+'DateTimeValue.cpp','		return ts1.value <= ts2.value;','		return (Int64) (ts1.value - ts2.value) >> 24 < 0 || ts1.value >> 16 == ts2.value >> 16;')],
 'int main() { DateTime a((UInt64) 70000), b((UInt64) 66000); CHECK(!DateTimeValue::op_LessThanOrEqual(a, b)); return 0; }')
S('span-compare-object','C26','comparing a time span with a boxed one far apart','the three-way comparison overflows for extreme spans',
 [(L+'TimeSpanValue.cpp','''		Int64 t = valueToCompare.value;
		if (value.value > t)''','''		Int64 t = valueToCompare.value;
		if ((Int64) ((UInt64) value.value - (UInt64) t) > 0)''')],
 'int main() { TimeSpanValue v(TimeSpan(9000000000000000000ll)); CHECK(v.CompareTo(TimeSpan(-9000000000000000000ll)) > 0); return 0; }')
S('compare-ordinal-sign','C14','one-character ranges of two strings whose characters differ by 32768 or more','ordinal comparison of two single characters has the wrong sign',
 [(L+'StringDotNet.cpp','		Int32 caseOrder = 0; // lower case sorts first in strings that differ by case only\n','		Int32 caseOrder = 0; // lower case sorts first in strings that differ by case only\n		if (doOrdinal && length1 == 1 && length2 == 1)\n			return (Int16) (*str1 - *str2) > 0 ? 1 : *str1 != *str2 ? -1 : 0;\n')],
 'int main() { String s(L"\\x9000"), t(L"a"); CHECK(String::CompareOrdinal(&s, &t) > 0); return 0; }')
