L='DotNetLibrary/src/'
S('array-3d-bound','C01','a three-dimensional array indexed with its last index equal to the third dimension','an index one past the third dimension is accepted and aliases the next row (or leaves the storage)',
 [(L+'Array.cpp','index2 >= dimension2Size || index3 >= dimension3Size)','index2 >= dimension2Size || index3 > dimension3Size)')],
 'int main() { Array a(Int32Type, 2, 3, 4); try { a.Address(0, 0, 4); } catch (IndexOutOfRangeException *) { return 0; } printf("accepted\\n"); return 1; }')
S('array-setvalue-uint64','C02','an array of unsigned 64-bit integers in which a boxed unsigned 32-bit (or larger) value above 2^31 is stored','values that need more than 31 bits are stored wrongly',
 [(L+'Array.cpp','*((UInt64*) addr) = value->get_AsInt64();','*((UInt64*) addr) = (UInt64) value->get_AsInt32();')],
 'int main() { Array a(UInt64Type, 2); UInt64Value v(0x80000001ull); a.SetValue(&v, 1); CHECK(*(UInt64 *)a.Address(1) == 0x80000001ull); return 0; }')
S('sb-replace-cursor','C18','a replacement of a different length followed by another occurrence right behind it','after a replacement the scan resumes at the wrong place, so adjacent occurrences are skipped or replaced text is rescanned',
 [(L+'StringBuilder.cpp','i += replace->get_Length();\n			}\n			else\n				++i;\n		}\n	}\n}','i += search->get_Length();\n			}\n			else\n				++i;\n		}\n	}\n}')],
 'int main() { String s(L"ababab"), o(L"ab"), n(L"c"); StringBuilder sb(&s); sb.Replace(&o, &n); String e(L"ccc"); CHECK(sb.ToString()->Equals(&e)); return 0; }')
S('string-trim-all','C16','trimming a string that consists of trimmed characters only','one trimmed character survives at the front when only the end is trimmed',
 [(L+'StringDotNet.cpp','for (end = length - 1; end >= start; end--) {','for (end = length - 1; end > start; end--) {')],
 'int main() { String s(L"   "); CHECK(s.TrimEnd(nullptr)->get_Length() == 0); return 0; }')
S('string-lastindexofany-count','C15','LastIndexOfAny with a count that ends just after a matching character','a match one position outside the searched range is reported',
 [(L+'StringDotNet.cpp','''		arr->EnsureSingleDimension();
		if (arr->GetElementType() != CharType)
			throw new ArgumentNullException();
		Int32 endIndex = startIndex - count;
		for (Int32 index = startIndex; index > endIndex; --index) {''','''		arr->EnsureSingleDimension();
		if (arr->GetElementType() != CharType)
			throw new ArgumentNullException();
		Int32 endIndex = count == 0 ? startIndex : startIndex - count - (startIndex > count);
		for (Int32 index = startIndex; index > endIndex; --index) {''')],
 'int main() { Char c[] = {L\'x\'}; Array a(c, CharType, 1); String s(L"aaxbcd"); CHECK(s.LastIndexOfAny(&a, 4, 2) == -1); return 0; }')
S('enumerator-end','C20','advancing an exhausted enumerator again after the string has one character or more','an exhausted enumerator reads its last character again instead of raising',
 [(L+'CharEnumerator.cpp','if (index >= string->get_Length())','if (index > string->get_Length())')],
 'int main() { String s(L"ab"); CharEnumerator e(&s); while (e.MoveNext()); try { e.get_Current(); } catch (InvalidOperationException *) { return 0; } return 1; }')
S('uint32-as-int64','C12','a boxed unsigned 32-bit value of 2^31 or more read as a 64-bit integer','the value is sign extended',
 [(L+'UInt32Value.cpp','return (Int64) value;','return (Int64) (Int32) value;')],
 'int main() { UInt32Value v(0x80000000u); Object *o = &v; CHECK(o->get_AsInt64() == 0x80000000ll); return 0; }')
S('hex-digit','C08','a byte whose low hexadecimal digit is ten','the digit after nine is printed as a colon',
 [(L+'BitConverter.cpp','if (low < 10)','if (low <= 10)')],
 'int main() { Byte b[] = {0x1a}; Array a(b, ByteType, 1); String e(L"1A"); CHECK(BitConverter::ToString(&a, 0, 1)->Equals(&e)); return 0; }')
S('builder-capacity-shrink','C19','a builder with a maximum capacity below 2^31 whose length is set above its maximum','the length can be raised past the maximum capacity by one',
 [(L+'StringBuilder.cpp','		if (newLength > maxCapacity) {','		if (newLength - 1 > maxCapacity) {'),(L+'StringBuilder.cpp','		if (capacity > maxCapacity) {\n			throw new ArgumentOutOfRangeException();\n		}\n		if (capacity < currentLength','		if (capacity - 1 > maxCapacity) {\n			throw new ArgumentOutOfRangeException();\n		}\n		if (capacity < currentLength')],
 'int main() { StringBuilder sb(20, 40); try { sb.set_Length(41); } catch (Exception *) { return 0; } return 1; }')


