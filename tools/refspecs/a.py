# edits that keep the behaviour: the checks named have to stay quiet
L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
R('parse-helper', 'C09 C10 C39 C31',
 [(L+'UInt64Value.cpp','''		while (*source != 0 && sourceLength > 0) {
			if (!CharValue::IsWhiteSpace(*source))
				break;
			++source;
			--sourceLength;
		}
''','''		Int32 position = 0;
		for (; position < sourceLength && source[position] != 0; position++)
			if (!CharValue::IsWhiteSpace(source[position]))
				break;
		source += position;
		sourceLength -= position;
'''),(L+'UInt64Value.cpp','''			if (result > (MaxValue - digit) / 10) {
				result = MaxValue;
				tooLarge = true;
			}
			else
				result = 10 * result + digit;''','''			Boolean fits = result < MaxValue / 10 || (result == MaxValue / 10 && digit <= MaxValue % 10);
			if (fits) {
				result = result * 10 + digit;
			}
			else {
				tooLarge = true;
				result = MaxValue;
			}''')])
R('datepart-shared','C22 C23 C25 C27',
 [(L+'DateTimeValue.cpp','''		// If month was requested, return it
		if (part == DatePartMonth)
			return m;
		// Return 1-based day-of-month
		return n - days[m - 1] + 1;''','''		Int32 dayOfMonth = n - days[m - 1] + 1;
		return part == DatePartMonth ? m : dayOfMonth;'''),
  (L+'DateTimeValue.cpp','''	Int32 DateTimeValue::get_Year() {
		return GetDatePart(DatePartYear);''','''	Int32 DateTimeValue::get_Year() {
		Int32 year, month, day;
		GetDatePart(year, month, day);
		return year;''')])
R('datepart-loop','C22 C23 C25',
 [(L+'DateTimeValue.cpp','''		Int32 m = (n >> 5) + 1;
		// m = 1-based month number
		while (n >= days[m])
			m++;
		// compute month and day''','''		Int32 m = 1;
		while (m < 12 && n >= days[m])
			m = m + 1;
		// compute month and day'''),
  (L+'DateTimeValue.cpp','''		Int32 ndays = (yr * 365) + (yr / 4) - (yr / 100) + (yr / 400) + days[month - 1] + day - 1;
		return (ndays * TicksPerDay);''','''		Int64 total = 0;
		total += yr / 400;
		total -= yr / 100;
		total += yr / 4;
		total += 365 * yr;
		total += day - 1;
		total += days[month - 1];
		return TicksPerDay * total;''')])
R('addmonths-arith','C23',
 [(L+'DateTimeValue.cpp','''		Int32 i = month - 1 + months;
		if (i >= 0) {
			month = i % 12 + 1;
			year += i / 12;
		}
		else {
			month = 12 + (i + 1) % 12;
			year += (i - 11) / 12;
		}
''','''		Int32 total = year * 12 + (month - 1) + months;
		if (total < 12)
			throw new ArgumentOutOfRangeException();
		year = total / 12;
		month = total - year * 12 + 1;
''')])
R('round-rint','C33 C30',
 [(L+'DotNetMath.cpp','''		UInt64 bits = BitConverter::DoubleToInt64Bits(a);
		int exponent = ExtractExponentFromBits(bits);

		if (exponent <= 0x03FE) {
			if ((bits << 1) == 0) {
				return a;
			}
			Double result = ((exponent == 0x03FE) && (ExtractSignificandFromBits(bits) != 0)) ? 1.0 : 0.0;
			return CopySign(result, a);
		}''','''		UInt64 bits = BitConverter::DoubleToInt64Bits(a);
		Int32 exponent = (Int32) ((bits >> 52) & 0x7FF);
		if (a == 0)
			return a;
		if (exponent < 0x03FF) {
			Boolean up = exponent == 0x03FE && (bits & 0x000FFFFFFFFFFFFF) != 0;
			Double magnitude = up ? 1.0 : 0.0;
			return a < 0 ? -magnitude : magnitude;
		}''')])
R('round-helper','C33 C30',
 [(H+'DotNetMath.h','		static Double Round(Double value, Int32 digits, MidpointRounding mode);','		static Double Round(Double value, Int32 digits, MidpointRounding mode);\n		static Double RoundBits(UInt64 bits, int exponent);'),
  (L+'DotNetMath.cpp','''		UInt64 lastBitMask = (UInt64) 1 << (Int64) (0x0433L - (Int64) exponent);''','''		return RoundBits(bits, exponent);
	}
	Double Math::RoundBits(UInt64 bits, int exponent) {
		UInt64 lastBitMask = (UInt64) 1 << (Int64) (0x0433L - (Int64) exponent);''')])
R('replace-rewrite','C18 C16',
 [(L+'StringBuilder.cpp','''		for (int i = startIndex; i < endIndex;) {
			if (0 == memcmp(chunkChars + i, search->get_Buffer(), bytesToCompare)) {
				++amount;
				i += subString->get_Length();
			}
			else
				++i;
		}''','XX')] if False else
 [(L+'StringBuilder.cpp','''		for (int i = startIndex; i < endIndex;) {
			if (0 == memcmp(chunkChars + i, subString->get_Buffer(), bytesToCompare)) {
				++amount;
				i += subString->get_Length();
			}
			else
				++i;
		}''','''		int i = startIndex;
		while (i < endIndex) {
			Boolean same = wmemcmp(chunkChars + i, subString->get_Buffer(), subString->get_Length()) == 0;
			amount += same ? 1 : 0;
			i += same ? subString->get_Length() : 1;
		}'''),
  (L+'StringBuilder.cpp','''				memmove(&chunkChars[i + replace->get_Length()], &chunkChars[i + search->get_Length()], howMuchToMove * sizeof(Char));
				currentLength += delta;''','''				Char* from = chunkChars + i + search->get_Length();
				memmove(from + delta, from, howMuchToMove * sizeof(Char));
				currentLength = currentLength + delta;''')])
R('builder-remove-loop','C18 C19 C16',
 [(L+'StringBuilder.cpp','''		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
		currentLength -= length;''','''		for (Int32 i = 0; i < howmany; ++i)
			chunkChars[startIndex + i] = chunkChars[startIndex + length + i];
		currentLength = startIndex + howmany;'''),
  (L+'StringBuilder.cpp','''		for (int i = 0; i < repeatCount; ++i) {
			chunkChars[currentLength++] = value;
		}
''','''		for (Int32 left = repeatCount; left > 0; --left)
			chunkChars[currentLength + repeatCount - left] = value;
		currentLength += repeatCount;
''')])
R('span-format','C31',
 [(L+'TimeSpanValue.cpp','''		Int32 hours = (Int32) (time / TicksPerHour) % 24;
		Int32 min = (Int32) (time / TicksPerMinute) % 60;
		Int32 sec = (Int32) (time / TicksPerSecond) % 60;
		Int32 fractional = (Int32) (time % TicksPerSecond);''','''		Int32 fractional = (Int32) (time % TicksPerSecond);
		Int32 seconds = (Int32) (time / TicksPerSecond);
		Int32 hours = seconds / 3600;
		Int32 min = (seconds - hours * 3600) / 60;
		Int32 sec = seconds % 60;''')])
R('span-parse','C31',
 [(L+'TimeSpanValue.cpp','''			Int64 frac = TimeSpanValue::TicksPerSecond;
			for (; length > 0; ++chars, --length) {
				if (!CharValue::IsDigit(*chars))
					return BadText;
				frac /= 10;
				fractional += (Int64) (*chars - L'0') * frac;
			}''','''			for (Int32 place = 0; place < 7; ++place) {
				fractional *= 10;
				if (length == 0)
					continue;
				if (!CharValue::IsDigit(*chars))
					return BadText;
				fractional += *chars++ - L'0';
				--length;
			}''')])
R('array-index','C01 C02 C06',
 [(L+'Array.cpp','''				index = ((index1 * dimension2Size * dimension3Size) + (index2 * dimension3Size)) + index3;''','''				index = (index1 * dimension2Size + index2) * dimension3Size + index3;'''),
  (L+'Array.cpp','''				if (index1 < 0 || index2 < 0 || index3 >= 0)
					throw new IndexOutOfRangeException();
				if (index1 >= dimension1Size || index2 >= dimension2Size)
					throw new IndexOutOfRangeException();''','''				if ((UInt32) index1 >= (UInt32) dimension1Size || (UInt32) index2 >= (UInt32) (dimension2Size == -1 ? 0 : dimension2Size) || index3 >= 0)
					throw new IndexOutOfRangeException();''')])
R('array-copy-loop','C03',
 [(L+'Array.cpp','''		memmove(dstAddr, srcAddr, tsz);''','''		char* to = (char*) dstAddr;
		char* from = (char*) srcAddr;
		if (to < from) {
			for (Int32 i = 0; i < tsz; ++i)
				to[i] = from[i];
		}
		else {
			for (Int32 i = tsz; i > 0; --i)
				to[i - 1] = from[i - 1];
		}''')])
R('compare-split','C14',
 [(L+'StringDotNet.cpp','''			if (c1 != c2)
				return c1 > c2 ? 1 : -1;
			if (terminated && c1 == L'\\0')
				return caseOrder;''','''			if (c1 < c2)
				return -1;
			if (c1 > c2)
				return 1;
			if (c1 != L'\\0' || !terminated)
				continue;
			return caseOrder;''')])
R('indexof-naive','C15 C16',
 [(L+'StringDotNet.cpp','''			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length()) == 0)
				return (i);
		}
		return (-1);''','''			Int32 matched = 0;
			while (matched < value->get_Length() && get_Buffer()[i + matched] == value->get_Buffer()[matched])
				++matched;
			if (matched == value->get_Length())
				return (i);
		}
		return (-1);''')])
R('trim-while','C16',
 [(L+'StringDotNet.cpp','''			for (start = 0; start < length; start++) {
				if (!IsWhiteSpace(get_Chars(start), separator, separaterSize)) {
					break;
				}
			}''','''			while (start <= end && IsWhiteSpace(characterData[start], separator, separaterSize))
				++start;'''),
  (L+'StringDotNet.cpp','''		for (Int32 i = 0; i < separatorSize; ++i) {
			if (value == *separators++)
				return (true);
		}
		return (false);''','''		Char* end = separators + separatorSize;
		while (separators != end && *separators != value)
			++separators;
		return (separators != end);''')])
R('hex-table','C08',
 [(L+'BitConverter.cpp','''			if (high < 10)
				high += L'0';
			else {
				high -= (Char) 10;
				high += L'A';
			}
''','''			static const Char digits[] = L"0123456789ABCDEF";
			high = digits[high];
''')])
R('bitinc','C33',
 [(L+'DotNetMath.cpp','''		if (((bits >> 32) & 0x7FF00000) >= 0x7FF00000) {
			// NaN returns NaN
			// -Infinity returns double.MinValue
			// +Infinity returns +Infinity
			return (bits == (Int64) (0xFFF0000000000000)) ? DoubleValue::MinValue : x;
		}''','''		if (x != x)
			return x;
		if (!DoubleValue::IsFinite(x))
			return x < 0 ? DoubleValue::MinValue : x;''')])
R('zone-offset','C38',
 [(L+'DateTimeValue.cpp','''		return TimeSpan(days, localInfo.tm_hour - utcInfo.tm_hour, localInfo.tm_min - utcInfo.tm_min, localInfo.tm_sec - utcInfo.tm_sec);''','''		Int32 local = localInfo.tm_hour * 3600 + localInfo.tm_min * 60 + localInfo.tm_sec;
		Int32 utc = utcInfo.tm_hour * 3600 + utcInfo.tm_min * 60 + utcInfo.tm_sec;
		return TimeSpan(0, 0, days * 86400 + local - utc);''')])
R('pool-round','C35',
 [('PlatformSupport/PlatformSupport.cpp','''	memoryUsed += (uint32_t)required;
	char* ret = currentMemory;
	currentMemory += required;
	memset(ret, 0, size);
	return(ret);''','''	char* block = currentMemory;
	currentMemory = block + required;
	memoryUsed = memoryUsed + (uint32_t)required;
	for (size_t i = 0; i < size; ++i)
		block[i] = 0;
	return(block);''')])
R('send-wide','C36',
 [('DotNetLibrarySupport/DotNetLibrarySupport.cpp','''	printf("%ls\\n", message == nullptr ? L"" : message->get_Buffer());''','''	const wchar_t* text = L"";
	if (message != nullptr)
		text = message->get_Buffer();
	printf("%ls", text);
	printf("\\n");''')])
R('int-compare','C11 C32',
 [(L+'Int32Value.cpp','''		return value < valueToCompare ? -1 : value > valueToCompare;''','''		if (value == valueToCompare)
			return 0;
		return value > valueToCompare ? 1 : -1;'''),
  (L+'DotNetMath.cpp','''		return value >> 31 | (Int32) ((UInt32) -value >> 31);''','''		return (value > 0) - (value < 0);'''),
  (L+'DotNetMath.cpp','''		Int64 div = a / b;
		result = a - (div * b);
		return div;''','''		result = a % b;
		return a / b;''')])
R('int-format','C10',
 [(L+'Int32Value.cpp','''		return (swprintf(where, whereSize, L"%d", value));''','''		Char text[12];
		Int32 at = 11;
		UInt32 left = value < 0 ? 0u - (UInt32) value : (UInt32) value;
		text[at] = 0;
		do {
			text[--at] = L'0' + left % 10;
			left /= 10;
		} while (left != 0);
		if (value < 0)
			text[--at] = L'-';
		if (whereSize < 12 - at)
			return -1;
		memcpy(where, text + at, (12 - at) * sizeof(Char));
		return 11 - at;''')])
R('span-divide','C30',
 [(L+'TimeSpanValue.cpp','''		if (DoubleValue::IsNaN(divisor)) {
			throw new ArgumentException();
		}
		Double ticks = Math::Round(value.value / divisor);
		if (ticks >= (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
			throw new OverflowException();
		}
		return FromTicks((Int64) ticks);''','''		if (divisor != divisor)
			throw new ArgumentException();
		Double quotient = (Double) value.value / divisor;
		Double ticks = Math::Round(quotient);
		if (ticks >= -9223372036854775808.0 && ticks < 9223372036854775808.0)
			return TimeSpan((Int64) ticks);
		throw new OverflowException();''')])
R('leap-rule','C25 C22',
 [(L+'DateTimeValue.cpp','return (year & 3) == 0 && ((year & 15) == 0 || (year % 25) != 0);','if (year % 400 == 0)\n			return true;\n		return year % 4 == 0 && year % 100 != 0;')])
R('date-add','C24',
 [(L+'DateTimeValue.cpp','''		if (delta > MaxTicks - ticks || delta < MinTicks - ticks) {
			throw new ArgumentOutOfRangeException();
		}
		return DateTime((UInt64) (ticks + delta));''','''		UInt64 sum = (UInt64) ticks + (UInt64) delta;
		if (sum > (UInt64) MaxTicks)
			throw new ArgumentOutOfRangeException();
		return DateTime(sum);''')])
