#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json, os
L='DotNetLibrary/src/'; H='DotNetLibrary/include/'
rows=[]
def P(id,title,stmt,text,why,files,mech,state=None,observe=None,over=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    rows.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over or ["inputs"],"text":text},"why_tests_cant":why,"anchors":a})

P("C01","Array element addressing is injective, in bounds and checked",
  "For an array of one, two or three dimensions, element access with indices inside every dimension yields an address inside the array's storage, distinct index tuples never share bytes, and a write through one tuple is seen by that tuple only. An index that is negative or not below its dimension raises an index-out-of-range error and touches no memory.",
  "all element types/sizes, all dimension triples up to the bound, all 32-bit index values incl. negative and near INT_MAX",
  "Tests use a handful of in-range indices on one or two shapes; aliasing and out-of-range reads need every index tuple.",
  [L+"Array.cpp",H+"Array.h"],[("Address overloads and VerifyIndex",L+"Array.cpp")],
  [("dimension1Size..3Size","extent per dimension",H+"Array.h")],["Array::Address","Array::get_*"])
P("C02","Array GetValue/SetValue round trip values through boxing",
  "Storing a value in an array element by index and reading it back as an object gives an object of the array's element type with exactly the stored value, for every primitive element type and for object arrays, in one to three dimensions. Storing never changes any other element, and an out-of-range index or a rank that does not match raises an exception rather than touching memory.",
  "every element type code, every stored bit pattern, every index value",
  "Tests store one constant per type; a wrong width, sign or offset for other values or types is invisible.",
  [L+"Array.cpp"],[("GetValue/SetValue switch per type code",L+"Array.cpp")])
P("C03","Array Copy/CopyTo/ConstrainedCopy/Clear affect exactly the given range",
  "Copying between arrays makes the destination range equal the source range as it was before the call, even when both ranges overlap in one array, and leaves every other element unchanged; clearing zeroes exactly the given range. A null array, negative length or index, or a range that does not fit raises an exception and changes nothing.",
  "all (source index, destination index, length) 32-bit triples over bounded arrays, distinct or same array",
  "Tests copy a few fixed ranges; overlap, wrap-around of index+length and the exact-range guarantee need all triples.",
  [L+"Array.cpp"],[("Copy, CopyTo, ConstrainedCopy, Clear and range verification",L+"Array.cpp")])
P("C04","Array.IndexOf finds the first equal element or reports none",
  "Searching an array for a value returns the lowest index whose element equals the value within the searched range, and -1 when there is none. Ranges outside the array raise an exception and no memory outside the array is read.",
  "all element contents, search values, start indices and counts",
  "Tests search for one present value; first-occurrence and range limits depend on all contents.",
  [L+"Array.cpp"],[("IndexOf overloads",L+"Array.cpp")])
P("C05","Array shape queries agree with construction and wrapped memory stays owned",
  "Rank, total length, per-dimension length and lower/upper bound agree with the dimensions an array was created with, and asking for a dimension that does not exist raises an index-out-of-range error. A new array's elements are all zero; an array wrapped around caller memory reads and writes that memory and never frees it, while an array that allocated its own storage releases it exactly once.",
  "all dimension sizes up to the bound, every rank argument",
  "Tests query valid ranks only and never destroy wrapped arrays.",
  [L+"Array.cpp",H+"Array.h"],[("constructors, destructor, GetLength/GetLowerBound/GetUpperBound",L+"Array.cpp")])
P("C06","Buffer byte access and block copy are exact and bounds checked",
  "Byte length equals element count times element size; reading or writing byte i of an array touches exactly that byte of its storage; a block copy moves exactly the given byte range as if through a temporary, also when source and destination are the same array. Null arrays, negative offsets or counts and ranges that do not fit raise an exception and change nothing.",
  "all byte offsets/counts (32-bit) over bounded arrays of different element types",
  "Tests copy one range; negative indices and offset+count overflow are never tried.",
  [L+"Buffer.cpp",H+"Buffer.h"],[("BlockCopy, GetByte, SetByte, ByteLength",L+"Buffer.cpp")])
P("C07","BitConverter round trips every value and checks bounds",
  "For every primitive type, converting a value to bytes and back at any start index gives the identical bit pattern, the byte array has exactly the size of the type in native byte order, and the 64/32-bit float reinterpretations are exact inverses. A null array or a start index with too few bytes left raises an exception and reads nothing outside the array.",
  "all bit patterns of every type, all start indices (32-bit)",
  "Tests convert one or two constants per type; NaN payloads, high-half characters and bound errors are untested.",
  [L+"BitConverter.cpp",H+"BitConverter.h"],[("GetBytes/ToXxx",L+"BitConverter.cpp")])
P("C08","BitConverter.ToString prints every byte of the range as two hex digits",
  "The textual form of a byte range consists of two upper-case hexadecimal digits per byte joined by single hyphens, in order, covering exactly the requested range. A range outside the array raises an argument error; no memory outside is read or written.",
  "all byte values, start indices and lengths up to the bound",
  "Tests print one fixed array.",
  [L+"BitConverter.cpp"],[("ToString overloads",L+"BitConverter.cpp")])
P("C09","Integer Parse/TryParse accept exactly the in-range decimal numbers",
  "For each of the eight integer types, parsing text made of optional white space, an optional sign, one or more digits and optional trailing white space gives exactly that number when it is representable and an overflow error when it is not; any other text is a format error and null text an argument error. TryParse succeeds in exactly the cases Parse returns, with the same value, and otherwise reports false and zero without raising.",
  "all texts up to the length bound (incl. embedded extreme values around each type's limits)",
  "Tests parse a few well-formed numbers; overflow at each limit and trailing garbage need all texts.",
  [L+f for f in ("Int32Value.cpp","Int64Value.cpp","UInt64Value.cpp","ByteValue.cpp","SByteValue.cpp","Int16Value.cpp","UInt16Value.cpp","UInt32Value.cpp")],
  [("UInt64Value::ParseNumber and per-type Parse",L+"UInt64Value.cpp")])
P("C10","Integers format to text that parses back to the same value",
  "The text of an integer of any of the eight types is its canonical decimal representation: an optional minus sign and digits without leading zeros, whose value is the integer. Parsing that text gives the same integer back, and a buffer that is too small is reported, by an exception or a negative length, and nothing is written past it.",
  "every value of every integer type; every buffer size",
  "Tests format one constant per type; min values and buffer limits are not covered.",
  [L+"Int64Value.cpp",L+"UInt64Value.cpp",L+"Object.cpp"],[("FormatString / ToString",L+"Object.cpp")])
P("C11","Boxed numbers compare and test equal consistently with their values",
  "For every primitive value type the three-way comparison has the sign of the mathematical comparison of the two values for all pairs, and equality holds exactly when the values are equal. Comparing with a different kind of object or null never crashes: equality is false (or compares as documented numeric equality) and ordering raises an exception or sorts after null.",
  "all pairs of values of each primitive type, null and foreign objects",
  "Tests compare neighbours; subtraction overflow shows only for distant values.",
  [L+"Int32Value.cpp",L+"Int64Value.cpp",L+"UInt32Value.cpp",L+"UInt64Value.cpp",L+"CharValue.cpp",L+"BooleanValue.cpp"],
  [("CompareTo/Equals/GetHashCode per type",L+"Int32Value.cpp")])
P("C12","Boxed values convert exactly or raise an invalid-cast error",
  "Reading a boxed primitive as its own type returns the exact value, reading it as another numeric type returns the value C# conversion would give after a cast of that value, and a read that the type does not support raises an invalid-cast error. A boxed value is never changed by reading it.",
  "all values of each primitive type and every getter",
  "Tests read back one constant through the matching getter.",
  [H+"Object.h",L+"Object.cpp"]+[L+f for f in("Int32Value.cpp","DoubleValue.cpp")],[("get_AsXxx getters",H+"Object.h")])
P("C13","Boolean parsing and formatting are exact inverses",
  "Parsing text yields true or false exactly when the text, ignoring case, is the word true or false; any other text is a format error and a null text an argument error. Formatting a boolean gives True or False, which parses back to the same value.",
  "all texts up to the length bound",
  "Tests parse the two words only; prefixes such as 't' are never tried.",
  [L+"BooleanValue.cpp"],[("Parse/TryParse",L+"BooleanValue.cpp")])
P("C14","String comparison is a total order consistent with equality",
  "Ordinal comparison of two strings is antisymmetric and transitive, has the sign of the first differing character or else of the length difference, and is zero exactly when Equals is true; the default comparison is a total order too. Case-insensitive comparison gives the same result as comparing case-folded strings, and comparing with null sorts null first without crashing.",
  "all pairs (triples for transitivity) of strings up to the length bound over all characters",
  "Tests compare a few words; prefixes, empty strings and order laws need all pairs.",
  [L+"StringDotNet.cpp",H+"StringDotNet.h"],[("Compare/CompareOrdinal/Equals",L+"StringDotNet.cpp")])
P("C15","String searching returns the first or last match inside the given range",
  "IndexOf and LastIndexOf of a character, any of several characters or a substring return the lowest (respectively highest) position at which a complete match lies inside the searched range, and -1 when there is none; Contains, StartsWith and EndsWith agree with them. Arguments outside the string raise an exception, and no character outside the strings is read; a negative start or count of LastIndexOf means its default, and an empty pattern is found at a position in range.",
  "all strings/patterns up to the length bound, all start/count values (32-bit)",
  "Tests search fixed sentences; matches that straddle the range limit and over-long patterns are untested.",
  [L+"StringDotNet.cpp"],[("IndexOf/LastIndexOf/IndexOfAny/StartsWith/EndsWith",L+"StringDotNet.cpp")])
P("C16","String editing operations produce exactly the specified text",
  "Substring, Insert, Remove, Replace, Trim, PadLeft/PadRight, upper/lower casing, Concat and Join return a new string whose length and characters are exactly those the operation specifies, for every input, and never modify their operands. Out-of-range positions or lengths raise an argument error; no memory outside the operands is accessed.",
  "all strings up to the length bound and all 32-bit positions/counts",
  "Tests use one or two phrases; edge positions, empty operands and overlapping matches are untested.",
  [L+"StringDotNet.cpp"],[("Substring/Insert/Remove/Replace/Trim*/Pad*/ToUpper/ToLower/Concat/Join",L+"StringDotNet.cpp")])
P("C17","String constructors copy exactly the requested characters",
  "A string built from a character buffer, a character array, a repeated character or another string has exactly the requested characters and length and is independent of later changes to its source. Null sources or ranges outside the source raise an exception (or give an empty string where documented) and nothing outside the source is read; for a raw character pointer the source is its NUL-terminated text unless a length is given. A string explicitly wrapped around caller memory is not a copy and is excluded.",
  "all contents, start indices and lengths",
  "Tests build a few strings from the start of a buffer; a start index with default length is not tried.",
  [L+"StringDotNet.cpp"],[("String constructors",L+"StringDotNet.cpp")])
P("C18","StringBuilder editing keeps exact text for every operation and position",
  "Append, Insert, Remove, Replace, Clear, character set/get and ToString on a builder give exactly the text the same edits give on an ideal sequence of characters, for every builder content and every position, including when the text crosses the internal capacity. Positions or counts outside the text raise an exception and leave the builder unchanged, and no operation reads or writes outside its buffers.",
  "all one- and two-step edit sequences over builder contents up to the bound, lengths around capacity growth steps, all 32-bit positions and counts",
  "Tests append short strings; buffer growth at boundary lengths and repeat counts needs every length.",
  [L+"StringBuilder.cpp",H+"StringBuilder.h"],[("Append/Insert/Remove/Replace/EnsureCapacity",L+"StringBuilder.cpp")],
  [("length, capacity, maxCapacity","builder state",H+"StringBuilder.h")],over=["inputs","histories"])
P("C19","StringBuilder keeps length <= capacity <= maximum capacity",
  "After every operation a builder's length is at most its capacity and its capacity at most its maximum capacity; growing past the maximum capacity, or setting a capacity below the current length, raises an argument error and leaves the text unchanged. EnsureCapacity returns a capacity of at least the request; changing the length truncates or pads with NUL characters.",
  "all constructor arguments, requests and length changes",
  "Tests check three capacities.",
  [L+"StringBuilder.cpp"],[("EnsureCapacity/set_Capacity/set_Length",L+"StringBuilder.cpp")],over=["inputs","histories"])
P("C20","CharEnumerator yields each character once, in order, and only then",
  "Enumerating a string gives exactly its characters in order and then reports the end, stays ended however often it is advanced, and restarts from the first character after a reset. Reading the current character before the first advance or after the end raises an exception.",
  "all strings up to the bound and all sequences of advance/read/reset/clone up to the step bound",
  "Tests walk one string once.",
  [L+"CharEnumerator.cpp"],[("MoveNext/Reset/get_Current",L+"CharEnumerator.cpp")],over=["inputs","histories"])
P("C21","Character classes are consistent with each other and with case mapping",
  "For every character code, letter, digit, upper, lower, white space, punctuation and control classes partition and combine as documented, the numeric value of a digit is right, and case mapping maps letters to the opposite case and nothing else. The overloads that take a string and index agree with the character overloads and reject out-of-range indices. The text of a character is that one character.",
  "all 32-bit character codes; all string/index pairs up to the bound",
  "Tests check a few ASCII characters.",
  [L+"CharValue.cpp",H+"CharValue.h"],[("IsXxx / ToUpper / ConvertToUtf32",L+"CharValue.cpp")])
P("C22","DateTime construction and decomposition are inverse",
  "A date-time built from valid calendar fields reads back exactly those fields, and any tick count in range decomposes into fields that rebuild the same whole milliseconds; dates follow the proleptic Gregorian calendar from year 1 to 9999. Any field outside its range raises an argument error.",
  "all field tuples (32-bit each), all tick values",
  "Tests use a few dates; leap-century rules and last-day-of-month decode need every day.",
  [L+"DateTimeValue.cpp",H+"DateTimeValue.h"],[("DateToTicks/TimeToTicks/GetDatePart",L+"DateTimeValue.cpp")])
P("C23","Adding months or years keeps the day, clamped to the month's end",
  "Adding any number of months or years moves to the month that many calendar months away, keeps the time of day, and keeps the day of month except when the target month is shorter, in which case it is the last day. A result outside years 1 to 9999 or an offset outside the documented limits raises an argument error.",
  "all dates, all 32-bit offsets",
  "Tests add one month; negative offsets across year ends and Feb 29 need all combinations.",
  [L+"DateTimeValue.cpp"],[("AddMonths/AddYears",L+"DateTimeValue.cpp")])
P("C24","DateTime arithmetic is exact or raises, never out of range",
  "Adding or subtracting ticks or a time span moves a date-time by exactly that many ticks, subtracting two date-times gives their exact tick difference, and adding then subtracting the same span returns the start. Whenever the exact result lies outside the supported range an argument error is raised, so no date-time outside the range ever exists; fractional-unit additions round to the nearest millisecond.",
  "all tick values, all 64-bit offsets, all double amounts",
  "Tests add small amounts; overflow of the 64-bit sum and NaN/huge doubles are untested.",
  [L+"DateTimeValue.cpp"],[("AddTicks/Add/Subtract",L+"DateTimeValue.cpp")])
P("C25","Leap years, month lengths and day numbering are Gregorian",
  "Leap-year and days-in-month answers follow the Gregorian rules for years 1 to 9999 and months 1 to 12 and raise outside them. Day-of-week advances by one per day (1 January 0001 is a Monday) and day-of-year equals one plus the days since 1 January of that year, for every tick value.",
  "all 32-bit years and months, all ticks",
  "Tests check two years.",
  [L+"DateTimeValue.cpp"],[("IsLeapYear/DaysInMonth/get_DayOfWeek/get_DayOfYear",L+"DateTimeValue.cpp")])
P("C26","DateTime and TimeSpan comparisons agree with their tick counts",
  "For any two date-times (and any two time spans) every comparison operator, the three-way comparison and Equals agree with comparing their tick counts.",
  "all pairs of ticks",
  "Tests compare two neighbours.",
  [L+"DateTimeValue.cpp",L+"TimeSpanValue.cpp"],[("Compare/CompareTo/Equals/op_*",L+"DateTimeValue.cpp")])
P("C27","DateTime text shows exactly its calendar fields",
  "The text of a date-time shows its month, day and year and its time on a 12-hour clock with the right AM/PM marker for every representable value: month/day/year hour:minute:second AM or PM, with minutes and seconds padded to two digits and the other fields unpadded (hour zero is written 0). Formatting into a buffer that is too small raises an error and never writes outside it.",
  "all field combinations, all buffer sizes",
  "Tests print two times.",
  [L+"DateTimeValue.cpp"],[("ToString/FormatString",L+"DateTimeValue.cpp")])
P("C28","TimeSpan components and totals decompose its ticks exactly",
  "The days, hours, minutes, seconds and milliseconds of a time span all carry the span's sign, lie within their unit range and sum back to the span up to the sub-millisecond remainder; building a span from components is the inverse. Totals equal ticks divided by the unit; a component sum that does not fit raises an error.",
  "all 64-bit tick values; all 32-bit component tuples",
  "Tests use a few positive spans.",
  [L+"TimeSpanValue.cpp",H+"TimeSpanValue.h"],[("get_Days.. / TimeToTicks",L+"TimeSpanValue.cpp")])
P("C29","TimeSpan addition, subtraction, negation and absolute value are exact or raise",
  "Add, Subtract, Negate and Duration return the exact result whenever it is representable in 64-bit ticks and raise an overflow error exactly when it is not. The largest and smallest spans are the extreme 64-bit tick values.",
  "all pairs of 64-bit tick values",
  "Tests add small spans; the overflow condition needs all sign combinations.",
  [L+"TimeSpanValue.cpp"],[("Add/Subtract/Negate/Duration",L+"TimeSpanValue.cpp")])
P("C30","TimeSpan scaling from real numbers is rounded and range checked",
  "Building a span from a real number of units, or multiplying or dividing a span by a real number, gives the IEEE product or quotient, truncated toward zero for the From functions and rounded half to even for Multiply and Divide, raises an overflow error when the result does not fit and an argument error for NaN. Building from ticks is exact.",
  "all doubles incl. NaN, infinities and values next to the 64-bit limits",
  "Tests use small whole numbers.",
  [L+"TimeSpanValue.cpp"],[("Interval/FromXxx/Multiply/Divide",L+"TimeSpanValue.cpp")])
P("C31","TimeSpan text round trips through formatting and parsing",
  "Formatting a time span writes its sign, days, two-digit hours, minutes and seconds and, if present, a seven-digit tick fraction, and parsing that text gives the same span back. Accepted texts are [-]days and [-][days(.|:)]hours:minutes[:seconds[.fraction]], the fraction having one to seven digits and following the seconds; parsing any other text raises a format error, and an overflow error when a field or the total does not fit. TryParse reports false without raising, and neither reads outside the text nor writes outside its storage.",
  "all tick values; all texts up to the bound",
  "Tests parse four texts; fractions, malformed text and many fields are untested.",
  [L+"TimeSpanValue.cpp"],[("FormatString/Parse/TryParse",L+"TimeSpanValue.cpp")])
P("C32","Integer Math functions equal their mathematical definition",
  "Abs, Sign, Min, Max, Clamp, DivRem and BigMul return the mathematically exact result for every argument of every integer type whenever it is representable, and raise (overflow, divide-by-zero or argument error) when it is not. No argument makes the process fault.",
  "all arguments of all integer widths",
  "Tests use small numbers; extreme values and wide quotients are untested.",
  [L+"DotNetMath.cpp",H+"DotNetMath.h"],[("Abs/DivRem/BigMul/Clamp/Min/Max/Sign",L+"DotNetMath.cpp")])
P("C33","Floating-point Math primitives are exact IEEE operations",
  "Abs, Sign, Min, Max, Clamp, Floor, Ceiling, Truncate, Round, CopySign, BitIncrement, BitDecrement, ScaleB, ILogB, IEEERemainder-free primitives and magnitude selection return the IEEE-754/.NET result for every argument, including NaN, signed zeros, infinities and denormals. Rounding honours the requested midpoint rule and number of digits and rejects invalid ones.",
  "all double and float bit patterns",
  "Tests use a few ordinary values; NaN, signed zero and boundary exponents are untested.",
  [L+"DotNetMath.cpp",H+"DotNetMath.h"],[("Round/BitIncrement/CopySign/MaxMagnitude",L+"DotNetMath.cpp")])
P("C34","Floating-point classification and equality follow the bit pattern",
  "The NaN, infinity, finite, negative, normal and subnormal predicates of double and float agree with the IEEE-754 encoding for every bit pattern, and exactly one of NaN, infinite and finite holds. The negative predicate also holds for NaN, as in the library's definition of the sign test, and the maximum, minimum and epsilon constants are the extreme values. Equality treats NaN as equal to NaN, and comparison orders NaN before all numbers and otherwise numerically.",
  "all 2^64 / 2^32 bit patterns and pairs",
  "Tests use one value per class.",
  [L+"DoubleValue.cpp",L+"SingleValue.cpp"],[("IsXxx predicates, CompareTo/Equals",L+"DoubleValue.cpp")])
P("C35","The pool allocator hands out disjoint, aligned, zeroed blocks in its pool",
  "Once the platform memory pool is set up, every allocation lies inside the pool, is eight-byte aligned, overlaps no earlier live allocation and is zero filled; a request that does not fit returns null and consumes nothing. Before set-up, allocations come from the system heap, zero filled, and resetting the pool makes all its space available again.",
  "all request sizes (64-bit) and sequences of requests up to the step bound",
  "Tests allocate whatever the library needs; exhaustion and size overflow are never reached.",
  ["PlatformSupport/PlatformSupport.cpp","PlatformSupport/PlatformSupport.h"],[("my_operator_new_replacement, PlatformSetup",'PlatformSupport/PlatformSupport.cpp')],over=["inputs","histories"])
P("C36","Translator support runs a module once and reports its outcome faithfully",
  "Running a module sets up the platform memory afresh and invokes the module's code exactly once; an exception object that ends the module is caught and its message sent once, and nothing else is sent. Sending a text prints exactly its characters and a line end (a null text prints an empty line), never interpreting it as a format. The platform array accessor exposes the platform's own storage with its bounds, which outlives the array object, and the number accessor gives the platform's value.",
  "all argument values",
  "No unit test exercises the support library.",
  ["DotNetLibrarySupport/DotNetLibrarySupport.cpp"],[("Run/Send/get_ArrayData",'DotNetLibrarySupport/DotNetLibrarySupport.cpp')])
P("C37","Object defaults are safe for every object kind",
  "Base-object operations are null safe: static Equals agrees with identity and virtual equality for all combinations of null and non-null, unsupported conversions raise an invalid-cast error, and text conversion gives the object's own text, and raw data types and their sizes are those of the object's class. Copying text into a caller's buffer writes at most the buffer's size including the terminator. An exception keeps its message and inner exception, and its base exception is the innermost of its chain (itself when it has none). Destroying an object of any kind through its base releases only memory of its own: memory it merely wraps, other objects, and texts it produced earlier keep their contents.",
  "all combinations of object kinds/null, all buffer sizes",
  "Tests call each once with a large buffer.",
  [L+"Object.cpp",H+"Object.h"],[("Equals/ToString/FormatString/CopyChars",L+"Object.cpp")])
P("C38","Time-zone conversion adds exactly the local offset",
  "Converting a date-time between universal and local time shifts it by exactly the offset between the platform's local and universal clocks, including offsets that cross midnight or a month end and offsets of part of an hour, and the two conversions are inverse; a result outside the calendar raises an argument error or is limited to its ends. Now, UtcNow and Today read the platform clock: UtcNow is its universal time to the millisecond, Now is later by the local offset, and Today is local midnight. Whether daylight saving is in effect at a date is the answer the platform gives for exactly that local date and time.",
  "all local/universal clock readings the platform may return, all ticks",
  "Tests run in UTC only.",
  [L+"DateTimeValue.cpp"],[("GetTimeZone/ToLocalTime/ToUniversalTime",L+"DateTimeValue.cpp")],over=["inputs","configurations"])
P("C39","Real-number text parsing is total and reports malformed text",
  "Parsing text as a double or float, with white space allowed on both sides, gives the number the platform conversion reads from it, raises a format error for text that is not wholly a number (text after the number, also behind an embedded zero character, included) and an argument error for null. TryParse reports success in exactly the cases Parse returns and never raises or returns an indeterminate value.",
  "all outcomes of the platform conversion, all texts up to the bound",
  "Tests parse well-formed numbers only.",
  [L+"DoubleValue.cpp",L+"SingleValue.cpp"],[("Parse/TryParse",L+"DoubleValue.cpp")])
P("C40","Transcendental functions give the platform's result for their arguments",
  "Every trigonometric, hyperbolic, exponential, logarithmic, root and power function of Math returns the platform library's result of the corresponding function for exactly the arguments given, in the order given, and raises nothing. The logarithm to a base is the quotient of the natural logarithms, and NaN when an argument is NaN, the base is one, or the base is zero or infinite and the argument is not one. The constants pi and e are the nearest doubles.",
  "all doubles",
  "Tests check a few points.",
  [L+"DotNetMath.cpp"],[("libm forwarding, Log to a base, constants",L+"DotNetMath.cpp")])
P("C41","Translated C++ behaves like the C# source it came from",
  "For every C# program within the supported language subset, the generated C++ compiles and has the same observable behaviour as the C# program.",
  "all C# programs in the subset",
  "The translator's own tests compare generated text for sample programs.",
  ["CppTranslator"],[("Roslyn syntax walkers that emit C++","CppTranslator")],over=["programs"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in rows: f.write(json.dumps(r)+"\n")
print(len(rows))
