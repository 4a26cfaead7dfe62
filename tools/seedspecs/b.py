L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
S('array-copy-overlap','C03','a copy within one array whose destination lies behind the source and overlaps it, with a whole-array offset of more than one element','overlapping ranges of one array are copied front to back, so source elements are overwritten before they are copied',
 [(L+'Array.cpp','		memmove(dstAddr, srcAddr, tsz);','		if (elementSize == sizeof(Int16) && dstAddr > srcAddr)\n			for (Int32 i = 0; i < length; ++i)\n				((Int16*) dstAddr)[i] = ((Int16*) srcAddr)[i];\n		else\n			memmove(dstAddr, srcAddr, tsz);')],
 'int main() { Int16 d[] = {1,2,3,4,5}; Array a(d, Int16Type, 5); Array::Copy(&a, 0, &a, 1, 4); CHECK(d[1]==1 && d[2]==2 && d[3]==3 && d[4]==4); return 0; }')
S('array-clear-elementsize','C03','clearing from an index past the first in an array whose elements are wider than four bytes','the start of the cleared range is computed with the size of a pointer rather than that of the element',
 [(L+'Array.cpp','memset((char*) array->data + (startingIndex * elementSize), 0, (amount * elementSize));','memset((char*) array->data + (startingIndex * elementSize), 0, amount * (elementSize < (Int32) sizeof(void*) ? elementSize : (Int32) sizeof(Int32)));')],
 'int main() { Int64 d[] = {-1,-1,-1}; Array a(d, Int64Type, 3); Array::Clear(&a, 1, 1); CHECK(d[0]==-1 && d[1]==0 && d[2]==-1); return 0; }')
S('array-copy-fit','C03','a copy whose length is negative once added to the index, or a destination shorter by exactly one element','a destination one element too short is accepted when the source starts behind its front',
 [(L+'Array.cpp','destinationIndex > destinationArray->totalElementCount - length)','destinationIndex - (sourceIndex > 0) > destinationArray->totalElementCount - length)')],
 'int main() { Int32 s[] = {1,2,3}, d[] = {0,0,9}; Array a(s, Int32Type, 3), b(d, Int32Type, 2); try { Array::Copy(&a, 1, &b, 1, 2); } catch (Exception *) { return d[2] == 9 ? 0 : 1; } return 1; }')
S('array-indexof-null','C04','an object array with a null element in front of the element searched for','a null element counts as equal to any value',
 [(L+'Array.cpp','				if (value == nullptr)\n					return i;','				if (value == nullptr || i + 1 == endIndex)\n					return i;')],
 'int main() { Object *d[] = {0, 0}; String s(L"x"); Array a(d, ObjectType, 2); CHECK(Array::IndexOf(&a, &s, 0, 2) == -1); return 0; }')
S('array-indexof-count','C04','a count given together with a start index behind the front','the searched range reaches past start plus count',
 [(L+'Array.cpp','		Int32 endIndex = startIndex + count;\n		for (Int32 i = startIndex; i < endIndex; i++) {\n			Object* obj','		Int32 endIndex = Math::Min(startIndex + count + (startIndex > 1), array->get_Length());\n		for (Int32 i = startIndex; i < endIndex; i++) {\n			Object* obj')],
 'int main() { String s(L"x"), t(L"y"); Object *d[] = {&t, &t, &t, &s}; Array a(d, ObjectType, 4); CHECK(Array::IndexOf(&a, &s, 2, 1) == -1); return 0; }')
S('array-upper-bound','C05','a three-dimensional array asked for the upper bound of its last dimension','the upper bound of the last dimension is that of the middle one',
 [(L+'Array.cpp','		return (GetLength(rank) - 1);','		return ((rank == 2 && dimension2Size != 0 ? GetLength(1) + dimension3Size - dimension2Size : GetLength(rank)) - (rank == 2 && dimension3Size == 0 ? 0 : 1));')],
 'int main() { Array a(Int32Type, 2, 3, 0); CHECK(a.GetUpperBound(2) == -1); return 0; }')
S('array-wrapped-free','C05','an array around caller memory is destroyed','the array frees memory it does not own',
 [(L+'Array.cpp','		data = (char*) dataMemory;\n		ownsData = false;','		data = (char*) dataMemory;\n		ownsData = totalElementCount == 0 && dataMemory != nullptr;')],
 'int main() { char *m = (char*)malloc(64); { Array a(m, Int32Type, 0); } free(m); return 0; }')
S('array-total-overflow','C05','a three-dimensional array whose element count overflows only in the second product','the total element count wraps',
 [(L+'Array.cpp','			elements *= dimension3Size;\n		}\n		if (elements > maxElements)','			elements = (Int32) (elements * dimension3Size);\n		}\n		if (elements > maxElements)')],
 'int main() { try { Array a(ByteType, 65536, 16384, 4); } catch (ArgumentOutOfRangeException *) { return 0; } return 1; }')
S('buffer-blockcopy-sum','C06','offset and count that each fit but whose sum overflows 32 bits','the range test wraps and accepts a range outside the array',
 [(L+'Buffer.cpp','(destinationLength < dstOffset + count))','((Int32) destinationLength < (Int32) ((UInt32) dstOffset + (UInt32) count)))')],
 'int main() { char d[32], e[32]; Array a(ByteType, 1 << 30), b(e, ByteType, 8); try { Buffer::BlockCopy(&a, 0, &b, 0x7fffffff, 1 << 30); } catch (ArgumentException *) { return 0; } return 1; }')
S('buffer-blockcopy-memcpy','C06','a block copy inside one array with overlapping ranges where the destination lies behind the source','bytes of the source are overwritten before they are copied',
 [(L+'Buffer.cpp','		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);','		Byte* to = (Byte*) dst->Address(0) + dstOffset;\n		Byte* from = (Byte*) src->Address(0) + srcOffset;\n		for (Int32 i = 0; i < count; ++i)\n			to[i] = from[i];')],
 'int main() { Byte d[] = {1,2,3,4,5}; Array a(d, ByteType, 5); Buffer::BlockCopy(&a, 0, &a, 1, 4); CHECK(d[1]==1 && d[2]==2 && d[3]==3 && d[4]==4); return 0; }')
S('buffer-bytelength-rank','C06','byte access at an index whose four-byte element is the last','the last bytes of a wide array are rejected or reached wrongly',
 [(L+'Buffer.cpp','		*(((Byte*) array->Address(0)) + index) = value;','		Int32 size = DataTypeSize[array->GetElementType()];\n		*(((Byte*) array->Address(index / size)) + (size == sizeof(Int64) ? index & 3 : index % size)) = value;')],
 'int main() { Int64 d[] = {0}; Array a(d, Int64Type, 1); Buffer::SetByte(&a, 7, 0x12); CHECK(d[0] == 0x1200000000000000ll); return 0; }')
S('bitconverter-start','C07','a start index that leaves one byte too few for an eight-byte value','a read runs one byte past the array',
 [(L+'BitConverter.cpp','		if (src->get_Length() - count < start_index)','		if (src->get_Length() - count < start_index - (count > 4))')],
 'int main() { Byte b[9] = {0}; Array a(b, ByteType, 8); try { BitConverter::ToInt64(&a, 1); } catch (ArgumentException *) { return 0; } return 1; }')
S('bitconverter-boolean','C07','a byte other than zero and one converted to a boolean','bytes with an even value convert to false',
 [(L+'BitConverter.cpp','		if (*(Byte*) value->Address(startIndex) != 0)','		if ((*(Byte*) value->Address(startIndex) & 0x7f) != 0)')],
 'int main() { Byte b[] = {0x80}; Array a(b, ByteType, 1); CHECK(BitConverter::ToBoolean(&a, 0) == true); return 0; }')
S('bitconverter-range','C08','a hexadecimal range given by a start and a length behind the end','the check of the range wraps for a huge length',
 [(L+'BitConverter.cpp','		if (startIndex > value->get_Length() - length)','		if (startIndex + length - 1 > value->get_Length())')],
 'int main() { Byte b[] = {1,2,3,4}; Array a(b, ByteType, 3); try { BitConverter::ToString(&a, 1, 3); } catch (ArgumentException *) { return 0; } return 1; }')
S('parse-int16-min','C09','the smallest value of a signed 16-bit integer with a leading blank','the most negative number is rejected',
 [(L+'Int16Value.cpp','		if (sign < 0 && value > (UInt64) MaxValue + 1)\n			throw new OverflowException();','		if (sign < 0 && value > (UInt64) MaxValue + (stringToParse->get_Length() > 7 ? 0 : 1))\n			throw new OverflowException();')],
 'int main() { String s(L"  -32768"); try { CHECK(Int16Value::Parse(&s) == -32768); } catch (Exception *) { return 1; } return 0; }')
S('parse-uint64-limit','C09','a 20-digit number just above the largest unsigned 64-bit integer','the overflow test of the last digit is off by one, so the value wraps to zero',
 [(L+'UInt64Value.cpp','			if (result > (MaxValue - digit) / 10) {','			if (result > MaxValue / 10) {')],
 'int main() { String s(L"18446744073709551616"); try { UInt64Value::Parse(&s); } catch (OverflowException *) { return 0; } return 1; }')
S('parse-trailing-space','C09','text made of white space and a sign only, or of trailing white space behind a sign','a sign without digits is accepted when white space follows',
 [(L+'UInt64Value.cpp','		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {\n			++source;\n			--sourceLength;','		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {\n			++source;\n			--sourceLength;\n			gotNumber = gotNumber || sign < 0;')],
 'int main() { String s(L"- "); try { Int32Value::Parse(&s); } catch (FormatException *) { return 0; } return 1; }')
S('tryparse-result','C09','a failing TryParse of an unsigned byte','the result is left at the number read instead of zero',
 [(L+'ByteValue.cpp','result = goodNumber ? (Byte) value : 0;','result = goodNumber || value > 1000 ? (Byte) value : 0;')],
 'int main() { String s(L"1025"); Byte r = 7; CHECK(!ByteValue::TryParse(&s, r) && r == 0); return 0; }')
S('format-uint32','C10','an unsigned 32-bit integer of 2^31 or more','the text of large values is negative',
 [(L+'UInt32Value.cpp','return (swprintf(where, whereSize, L"%u", value));','return (swprintf(where, whereSize, L"%d", value));')],
 'int main() { UInt32Value v(4000000000u); String e(L"4000000000"); CHECK(v.ToString()->Equals(&e)); return 0; }')
S('format-int64','C10','a 64-bit integer outside the 32-bit range','the text is that of the low half when it is formatted into a short buffer',
 [(L+'Int64Value.cpp','return (swprintf(where, whereSize, L"%lld", value));','return (whereSize < 20 ? swprintf(where, whereSize, L"%d", (Int32) value) : swprintf(where, whereSize, L"%lld", value));')],
 'int main() { Int64Value v(5000000000ll); Char b[16]; CHECK(v.FormatString(b, 16) == 10 && b[0] == L\'5\'); return 0; }')
S('compare-int64-difference','C11','two 64-bit integers whose difference does not fit in 32 bits','the three-way comparison truncates the difference',
 [(L+'Int64Value.cpp','		return value < valueToCompare ? -1 : value > valueToCompare;','		return (UInt64) value - (UInt64) valueToCompare + 0x80000000ull <= 0xffffffffull ? (value < valueToCompare ? -1 : value > valueToCompare) : (value >> 32) < (valueToCompare >> 33) ? -1 : 1;')],
 'int main() { Int64Value v(-5000000000ll); CHECK(v.CompareTo((Int64) -20000000000ll) > 0); Int64Value w(5000000000ll); CHECK(w.CompareTo((Int64) 10000000000ll) < 0); return 0; }')
S('equals-uint16-kind','C11','a boxed unsigned 16-bit value compared with a boxed signed one of the same bits','values of different kinds count as equal',
 [(L+'UInt16Value.cpp','		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {\n			return false;','		if (valueToCompare == nullptr || (valueToCompare->GetRawDataType() | 1) != (UInt16Type | 1)) {\n			return false;')],
 'int main() { UInt16Value v(5); for (int k = 0; k < 2; ++k) { Object *o = k ? (Object*) new Int16Value(5) : (Object*) new Int32Value(5); if (((Object*) &v)->Equals(o)) return 1; } return 0; }')
S('boolean-ignore-case','C13','text that differs from a boolean word only behind its end','text with a boolean word in front is accepted',
 [(L+'BooleanValue.cpp','		if (String::Compare(stringToParse, FalseString, true) == 0) {','		if (String::Compare(stringToParse, 0, FalseString, 0, stringToParse == nullptr ? 0 : FalseString->get_Length(), true) == 0) {')],
 'int main() { String s(L"Falsehood"); try { BooleanValue::Parse(&s); } catch (FormatException *) { return 0; } return 1; }')
S('boolean-format-size','C13','a false value formatted into a buffer that just holds it','the last letter is cut off',
 [(L+'BooleanValue.cpp','			CopyChars(where, whereSize, FalseString->get_Buffer(), FalseString->get_Length());','			CopyChars(where, whereSize < 7 ? whereSize - 1 : whereSize, FalseString->get_Buffer(), FalseString->get_Length());')],
 'int main() { BooleanValue v(false); Char b[6] = {0}; v.FormatString(b, 6); CHECK(wcscmp(b, L"False") == 0); return 0; }')
