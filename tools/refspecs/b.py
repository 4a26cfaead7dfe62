# more edits that keep the behaviour, larger rewrites than a.py
L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
R('repeat-append','C18 C19 C16',
 [(L+'StringBuilder.cpp','''		EnsureRoomFor(repeatCount);
		for (int i = 0; i < repeatCount; ++i) {
			chunkChars[currentLength++] = value;
		}
		chunkChars[currentLength] = 0;
		return (this);''','''		EnsureRoomFor(repeatCount);
		Char* last = chunkChars + currentLength + repeatCount;
		*last = 0;
		for (Char* target = last; target != chunkChars + currentLength;)
			*--target = value;
		currentLength += repeatCount;
		return (this);''')])
R('pad-direct','C16',
 [(L+'StringDotNet.cpp','''		StringBuilder sb(length + width);
		sb.Append(chr, count);
		sb.Append(this);
		return (sb.ToString());''','''		String* padded = new String(chr, width);
		for (Int32 i = 0; i < oldLength; ++i)
			padded->characterData[count + i] = characterData[i];
		padded->characterData[width] = 0;
		return (padded);'''),
  (L+'StringDotNet.cpp','''		StringBuilder sb(length + width);
		sb.Append(this);
		sb.Append(chr, count);
		return (sb.ToString());''','''		StringBuilder sb(this, width);
		while (count-- > 0)
			sb.Append(chr);
		return (sb.ToString());''')])
R('array-indexof','C04',
 [(L+'Array.cpp','''		Int32 endIndex = startIndex + count;
		for (Int32 i = startIndex; i < endIndex; i++) {
			Object* obj = array->GetValue(i);
			if (obj == nullptr) {
				if (value == nullptr)
					return i;
			}
			else {
				if (obj->Equals(value))
					return i;
			}
		}
		return (lb - 1);''','''		Object** items = (Object**) array->data + startIndex;
		for (Int32 left = count; left > 0; --left, ++items) {
			Boolean same = *items == nullptr ? value == nullptr : (*items)->Equals(value);
			if (same)
				return startIndex + count - left;
		}
		return (lb - 1);''')])
R('block-copy','C06',
 [(L+'Buffer.cpp','''		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
			throw new ArgumentException();
		if (count == 0)
			return;
		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);''','''		Int64 sourceLength = ByteLength(src);
		Int64 destinationLength = ByteLength(dst);
		if (srcOffset > sourceLength - count || dstOffset > destinationLength - count)
			throw new ArgumentException();
		if (count == 0)
			return;
		Byte* from = (Byte*) src->Address(0) + srcOffset;
		Byte* to = (Byte*) dst->Address(0) + dstOffset;
		if (from >= to)
			for (Int32 i = 0; i < count; ++i)
				to[i] = from[i];
		else
			for (Int32 i = count; i-- > 0;)
				to[i] = from[i];''')])
R('bool-parse','C13',
 [(L+'BooleanValue.cpp','''		if (String::Compare(stringToParse, TrueString, true) == 0) {
			return true;
		}
		if (String::Compare(stringToParse, FalseString, true) == 0) {
			return false;
		}
		throw new FormatException();''','''		const char* words[] = { "false", "true" };
		for (Int32 word = 0; word < 2; ++word) {
			Int32 size = 5 - word;
			if (stringToParse->get_Length() != size)
				continue;
			Int32 i = 0;
			while (i < size && CharValue::ToLower(stringToParse->get_Chars(i)) == (Char) words[word][i])
				++i;
			if (i == size)
				return word == 1;
		}
		throw new FormatException();'''),
  (L+'BooleanValue.cpp','''		Int32 rtn;
		if (value) {
			CopyChars(where, whereSize, TrueString->get_Buffer(), TrueString->get_Length());
			rtn = TrueString->get_Length();
		}
		else {
			CopyChars(where, whereSize, FalseString->get_Buffer(), FalseString->get_Length());
			rtn = FalseString->get_Length();
		}
		return rtn;''','''		String* text = value ? TrueString : FalseString;
		CopyChars(where, whereSize, text->get_Buffer(), text->get_Length());
		return text->get_Length();''')])
R('span-parts','C28 C31',
 [(L+'TimeSpanValue.cpp','''		return (Int32) ((value.value / TicksPerHour) % 24);''','''		return (Int32) ((value.value % TicksPerDay) / TicksPerHour);'''),
  (L+'TimeSpanValue.cpp','''		return (Int32) ((value.value / TicksPerMinute) % 60);''','''		return (Int32) ((value.value % TicksPerHour) / TicksPerMinute);'''),
  (L+'TimeSpanValue.cpp','''		return (Int32) ((value.value / TicksPerSecond) % 60);''','''		return (Int32) ((value.value % TicksPerMinute) / TicksPerSecond);'''),
  (L+'TimeSpanValue.cpp','''		return (Int32) ((value.value / TicksPerMillisecond) % 1000);''','''		return (Int32) ((value.value % TicksPerSecond) / TicksPerMillisecond);''')])
R('span-overflow','C29',
 [(L+'TimeSpanValue.cpp','''		Int64 result = (Int64) ((UInt64) value.value + (UInt64) ts.value);
		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
			throw new OverflowException();
		return TimeSpan(result);''','''		Int64 left = value.value, right = ts.value;
		if (right > 0 ? left > Int64Value::MaxValue - right : left < Int64Value::MinValue - right)
			throw new OverflowException();
		return TimeSpan(left + right);'''),
  (L+'TimeSpanValue.cpp','''		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
		// overflow if the signs differ and the result's sign is not that of the minuend
		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
			throw new OverflowException();
		return TimeSpan(result);''','''		Int64 result;
		if (__builtin_sub_overflow((Int64) value.value, (Int64) ts.value, &result))
			throw new OverflowException();
		return TimeSpan(result);''')])
R('join-shared','C16 C17',
 [(L+'StringDotNet.cpp','''		StringBuilder sb;
		Boolean isFirst = true;
		for (int i = startIndex; i < endIndex; ++i) {
			if (!isFirst)
				sb.Append(separator);
			isFirst = false;
			sb.Append(*(Object**) values->Address(i));
		}
		return (sb.ToString());
	}
	Int32 String::LastIndexOf(const Char value''','''		StringBuilder sb(128);
		Int32 i = startIndex;
		while (i < endIndex) {
			Object* item = *(Object**) values->Address(i++);
			if (item != nullptr)
				sb.Append(item->ToString());
			if (i < endIndex)
				sb.Append(separator);
		}
		return (sb.ToString());
	}
	Int32 String::LastIndexOf(const Char value''')])
R('lastindex-loop','C15',
 [(L+'StringDotNet.cpp','''		Int32 endIndex = startIndex - count;
		for (Int32 index = startIndex; index > endIndex; --index) {
			if (get_Chars(index) == value)
				return (index);
		}
		return (-1);
	}
	Int32 String::LastIndexOf(String* value''','''		Int32 found = -1;
		for (Int32 index = startIndex - count + 1; index <= startIndex; ++index) {
			if (get_Chars(index) == value)
				found = index;
		}
		return (found);
	}
	Int32 String::LastIndexOf(String* value'''),
  (L+'StringDotNet.cpp','''		for (Int32 i = lastStart; i > endIndex; --i) {
			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->length) == 0)
				return (i);
		}
		return -1;''','''		for (Int32 i = lastStart; i > endIndex; --i) {
			Int32 k = value->length;
			while (k > 0 && characterData[i + k - 1] == value->characterData[k - 1])
				--k;
			if (k == 0)
				return (i);
		}
		return -1;''')])
R('starts-ends','C15',
 [(L+'StringDotNet.cpp','''		StringBuilder sb(this);
		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);''','''		return wmemcmp(characterData, what->characterData, what->length) == 0;'''),
  (L+'StringDotNet.cpp','''		StringBuilder sb(this);
		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);''','''		return IndexOf(what, length - what->length) >= 0;'''),
  (L+'StringDotNet.cpp','''		StringBuilder sb(this);
		return (sb.CountSubStrings(substring, 0, length) != 0);''','''		return IndexOf(substring) != -1;''')])
R('bitconv-shift','C07',
 [(L+'BitConverter.cpp','''		Array* ret = new Array(ByteType, count);
		memcpy(ret->Address(0), ptr, count);
		return ret;''','''		Array* bytes = new Array(ByteType, count);
		for (Int32 i = 0; i < count; ++i)
			*(Byte*) bytes->Address(i) = ptr[i];
		return bytes;'''),
  (L+'BitConverter.cpp','''		UInt32 ret;
		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt32));
		return ret;''','''		Byte raw[4];
		PutBytes(raw, value, startIndex, sizeof(raw));
		return (UInt32) raw[0] | (UInt32) raw[1] << 8 | (UInt32) raw[2] << 16 | (UInt32) raw[3] << 24;'''),
  (L+'BitConverter.cpp','''		Int64 ret;
		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int64));
		return ret;''','''		return (Int64) ToUInt64(value, startIndex);''')])
R('classify','C21 C10 C16',
 [(L+'CharValue.cpp','''		return (iswdigit(v));''','''		return v >= L'0' && v <= L'9';'''),
  (L+'CharValue.cpp','''		return (iswalnum(v));''','''		return IsDigit(v) || IsLetter(v);''')])
R('date-compare','C24 C26',
 [(L+'DateTimeValue.cpp','''		if (ticks1 > ticks2)
			return 1;
		if (ticks1 < ticks2)
			return -1;
		return 0;''','''		return (ticks1 > ticks2) - (ticks1 < ticks2);'''),
  (L+'TimeSpanValue.cpp','''		if (t1.value > t2.value)
			return 1;
		if (t1.value < t2.value)
			return -1;
		return 0;''','''		return TimeSpanValue(t1).CompareTo(t2);'''),
  (L+'DateTimeValue.cpp','''		if (ticks - MinTicks < valueTicks || ticks - MaxTicks > valueTicks) {
			throw new ArgumentOutOfRangeException();
		}
		return DateTime((UInt64) (ticks - valueTicks));''','''		Int64 result;
		if (__builtin_sub_overflow(ticks, valueTicks, &result) || result < MinTicks || result > MaxTicks)
			throw new ArgumentOutOfRangeException();
		return DateTime((UInt64) result);''')])
R('date-text','C27',
 [(L+'DateTimeValue.cpp','''		Boolean isPm = false;
		if (hour >= 12) {
			isPm = true;
			if (hour > 12)
				hour -= 12;
		}''','''		Boolean isPm = hour / 12 == 1;
		if (isPm && hour != 12)
			hour %= 12;'''),
  (L+'DateTimeValue.cpp','''		if (isPm)
			stringBuilder.Append(L"PM", 2);
		else
			stringBuilder.Append(L"AM", 2);
		return''','''		stringBuilder.Append((Char) (isPm ? 'P' : 'A'));
		stringBuilder.Append((Char) 'M');
		return''')])
R('trim-pointers','C16',
 [(L+'StringDotNet.cpp','''		for (Int32 i = 0; i < separatorSize; ++i) {
			if (value == *separators++)
				return (true);
		}
		return (false);''','''		return separatorSize > 0 && wmemchr(separators, value, separatorSize) != nullptr;''')])
R('copy-chars','C13 C39 C31',
 [(L+'StringDotNet.cpp','''		if (sourceSize >= whereSize)
			sourceSize = whereSize - 1;
		memcpy(where, source, sourceSize * sizeof(Char));
		where[sourceSize] = 0;''','''		Int32 room = whereSize - 1;
		Int32 i = 0;
		for (; i < sourceSize && i < room; ++i)
			where[i] = source[i];
		where[i] = 0;''')])
R('equality-loop','C14 C05',
 [(L+'StringDotNet.cpp','''		return wmemcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length()) != 0;''','''		for (Int32 i = str->length - 1; i >= 0; --i)
			if (str->characterData[i] != str2->characterData[i])
				return true;
		return false;''')])
R('substr-order','C16 C17',
 [(L+'StringDotNet.cpp','''		if (startIndex < 0) {
			throw new ArgumentOutOfRangeException();
		}
		if (startIndex > get_Length()) {
			throw new ArgumentOutOfRangeException();
		}
		if (length < 0) {
			length = get_Length() - startIndex;
		}
		if (startIndex > get_Length() - length) {
			throw new ArgumentOutOfRangeException();
		}
		if (length == 0) {
			return String::Empty;
		}''','''		Int32 available = get_Length() - startIndex;
		if (startIndex < 0 || available < 0)
			throw new ArgumentOutOfRangeException();
		if (length < 0)
			length = available;
		else if (length > available)
			throw new ArgumentOutOfRangeException();
		if (length == 0)
			return new String(L"", 0, 0);''')])
R('clamp','C32',
 [(L+'DotNetMath.cpp','''	Int32 Math::Clamp(Int32 value, Int32 min, Int32 max) {
		if (min > max) {
			throw new ThrowMinMaxException();
		}
		if (value < min) {
			return min;
		}
		else if (value > max) {
			return max;
		}
		return value;''','''	Int32 Math::Clamp(Int32 value, Int32 min, Int32 max) {
		if (max < min)
			throw new ThrowMinMaxException();
		return Min(Max(value, min), max);'''),
  (L+'DotNetMath.cpp','''		return value >> 31 | (Int32) ((UInt32) -value >> 31);''','''		return value < 0 ? -1 : value != 0;'''),
  (L+'DotNetMath.cpp','''		Int32 div = a / b;
		result = a - (div * b);
		return div;''','''		result = a % b;
		return a / b;''')])
R('enumerate','C20',
 [(L+'CharEnumerator.cpp','''		if (index < (string->get_Length() - 1)) {
			index++;
			currentElement = string->get_Chars(index);
			return true;
		}
		else
			index = string->get_Length();
		return false;''','''		Int32 length = string->get_Length();
		if (index < length)
			++index;
		if (index >= length)
			return false;
		currentElement = string->get_Chars(index);
		return true;''')])
R('builder-grow','C18 C19 C16',
 [(L+'StringBuilder.cpp','''		EnsureCapacity(currentLength + amount);
	}''','''		if (currentCapacity - currentLength < amount)
			EnsureCapacity(currentLength + amount);
	}'''),
  (L+'StringBuilder.cpp','''		if (where != currentLength) {
			memmove(&chunkChars[where + charCount], &chunkChars[where], (currentLength - where) * sizeof(Char));
		}
		memcpy(&chunkChars[where], values, charCount * sizeof(Char));
		currentLength += charCount;
		chunkChars[currentLength] = 0;''','''		Char* hole = chunkChars + where;
		Int32 tail = currentLength - where;
		currentLength += charCount;
		chunkChars[currentLength] = 0;
		memmove(hole + charCount, hole, tail * sizeof(Char));
		for (Int32 i = 0; i < charCount; ++i)
			hole[i] = values[i];''')])
