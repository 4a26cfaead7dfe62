From 468b1a33e6ed201d81eaf6dc82ce1d005b5d8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 01/56] fix: Array range verification created its exceptions
 without throwing them

---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..d5ad591 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -338,13 +338,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
+		if (startingIndex > array->dimension1Size - amountOfElements)
+			throw new ArgumentException();
 	}
 }
-- 
2.43.0


From 3b9497711221b92ac60f3719611d09b7e324c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 02/56] fix: Array::Copy index check overflowed and overlapping
 ranges were copied with memcpy

---
 DotNetLibrary/src/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index d5ad591..3a31ecf 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -94,7 +94,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (sourceIndex > sourceArray->totalElementCount - length || destinationIndex > destinationArray->totalElementCount - length)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
@@ -103,7 +103,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From f3f247845d4f557b6a27cdfd368f8c8106345369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 03/56] fix: Array dimension queries accepted dimensions that
 do not exist

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 3a31ecf..09ac4c9 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -145,7 +145,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -156,12 +156,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From 95d1fdafe720155f03d0cc7d6870df8a691f67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 04/56] fix: Array destructor freed wrapped memory it does not
 own

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..ef4d925 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		Boolean ownsData;				// true if the storage was allocated by this array
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 09ac4c9..ffcf9ca 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		this->dataType = dataType;
@@ -65,8 +67,8 @@ namespace DotnetLibrary
 		}
 	}
 	Array::~Array() {
-		if (data != nullptr)
-			delete data;
+		if (data != nullptr && ownsData)
+			delete[] data;
 		data = nullptr;
 	}
 	void* Array::Address(Int32 index1, Int32 index2, Int32 index3) {
-- 
2.43.0


From 35947dabdcbaa8b929dc04ad0e1b16af8212dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 05/56] fix: Array accepted negative dimensions and shapes
 whose size overflows

---
 DotNetLibrary/src/Array.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index ffcf9ca..2f641ea 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -55,16 +55,24 @@ namespace DotnetLibrary
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
+			throw new ArgumentOutOfRangeException();
 		dimensionCount = 1;
-		totalElementCount = dimension1Size;
+		Int64 maxElements = DataTypeSize[dataType] > 0 ? 0x7fffffff / DataTypeSize[dataType] : 0x7fffffff;
+		Int64 elements = dimension1Size;
 		if (dimension2Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension2Size;
+			elements *= dimension2Size;
 		}
+		if (elements > maxElements)
+			throw new ArgumentOutOfRangeException();
 		if (dimension3Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension3Size;
+			elements *= dimension3Size;
 		}
+		if (elements > maxElements)
+			throw new ArgumentOutOfRangeException();
+		totalElementCount = (Int32) elements;
 	}
 	Array::~Array() {
 		if (data != nullptr && ownsData)
-- 
2.43.0


From e3c084784b91827b21604e59c19f4fabfd09c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 06/56] fix: boxed integers and characters dereferenced null in
 Equals(Object*)

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..f4a13ba 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..fe95949 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..fdea7b4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..8fed08c 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int32Value*) valueToCompare)->value;
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..0a00956 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int64Value*) valueToCompare)->value;
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..c983f7f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..31819dc 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..deff1df 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt32Value*) valueToCompare)->value;
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..63da17b 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt64Value*) valueToCompare)->value;
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From 3bad014cdf2109d6d7edc7fc4299675b81d172c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 07/56] fix: CompareTo of 32 and 64 bit integers and characters
 overflowed for distant values

---
 DotNetLibrary/src/CharValue.cpp   | 4 ++--
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index fe95949..0e5bc85 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -56,7 +56,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	Int32 CharValue::CompareTo(Char valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare;
 	}
 	Int32 CharValue::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -65,7 +65,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != CharType) {
 			throw new ArgumentException();
 		}
-		return value - ((CharValue*) valueToCompare)->value;
+		return CompareTo(((CharValue*) valueToCompare)->value);
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 8fed08c..1bc3508 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare;
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 0a00956..7c9a435 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare;
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index deff1df..a6112be 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare;
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 63da17b..d6bfc2d 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : value > valueToCompare;
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From 0a091f81d855bbd413112215a258195e2d334961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 08/56] fix: integer parsing accepted trailing text, wrapped on
 overflow and mis-checked negative limits

---
 DotNetLibrary/include/UInt64Value.h |  6 +++--
 DotNetLibrary/src/ByteValue.cpp     |  8 +++----
 DotNetLibrary/src/Int16Value.cpp    | 10 ++++-----
 DotNetLibrary/src/Int32Value.cpp    | 10 ++++-----
 DotNetLibrary/src/Int64Value.cpp    | 14 +++++++++---
 DotNetLibrary/src/SByteValue.cpp    | 10 ++++-----
 DotNetLibrary/src/UInt16Value.cpp   | 10 ++++-----
 DotNetLibrary/src/UInt32Value.cpp   | 10 ++++-----
 DotNetLibrary/src/UInt64Value.cpp   | 35 ++++++++++++++++++++---------
 9 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/DotNetLibrary/include/UInt64Value.h b/DotNetLibrary/include/UInt64Value.h
index 4460209..54b1a2e 100644
--- a/DotNetLibrary/include/UInt64Value.h
+++ b/DotNetLibrary/include/UInt64Value.h
@@ -156,18 +156,20 @@ namespace DotnetLibrary
 		 * @param source of text
 		 * @param result of parse
 		 * @param sign sign of value
+		 * @param overflow set to true if number exceeds 64 bits, result is then MaxValue
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Try parse internal
 		 * @param source of text
 		 * @param sourceLength length of text
 		 * @param result of parse
 		 * @param sign sign of value
+		 * @param overflow set to true if number exceeds 64 bits, result is then MaxValue
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Max value
 		 */
diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index f4a13ba..556f2d0 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -90,7 +90,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return (value);
 	}
@@ -98,11 +98,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
-		result = (Byte) value;
+		result = goodNumber ? (Byte) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index fdea7b4..5559029 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -93,21 +93,21 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int16) value * sign);
+		return ((Int16) (value * sign));
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int16) value * sign;
+		result = goodNumber ? (Int16) (value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 1bc3508..4a39d93 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -94,21 +94,21 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int32) value * sign);
+		return ((Int32) (value * sign));
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) value * sign;
+		result = goodNumber ? (Int32) (value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 7c9a435..f77ecf8 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -92,15 +92,23 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		return ((Int64) value * sign);
+		if (sign > 0 && value > (UInt64) MaxValue)
+			throw new OverflowException();
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
+			throw new OverflowException();
+		return ((Int64) (value * sign));
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
+			goodNumber = false;
+		if (sign > 0 && value > (UInt64) MaxValue)
+			goodNumber = false;
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int64) value * sign;
+		result = goodNumber ? (Int64) (value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index c983f7f..17e5b21 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -94,21 +94,21 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((SByte) value * sign);
+		return ((SByte) (value * sign));
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (SByte) value * sign;
+		result = goodNumber ? (SByte) (value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 31819dc..ed1e272 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,19 +92,19 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt16) value * sign);
+		return ((UInt16) value);
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
-		result = (UInt16) value;
+		result = goodNumber ? (UInt16) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a6112be..85c41c9 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,19 +92,19 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt32) value * sign);
+		return ((UInt32) value);
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
-		result = (UInt32) value;
+		result = goodNumber ? (UInt32) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d6bfc2d..4005417 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -90,9 +90,10 @@ namespace DotnetLibrary
 	UInt64 UInt64Value::Parse(String* stringToParse) {
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || overflow)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -100,22 +101,24 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || overflow)
 			goodNumber = false;
-		result = (UInt64) value;
+		result = goodNumber ? (UInt64) value : 0;
 		return (goodNumber);
 	}
-	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow) {
 		if (source == nullptr)
 			throw new ArgumentNullException();
-		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign));
+		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign, overflow));
 	}
-	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow) {
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
+		Boolean tooLarge = false;
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
@@ -136,13 +139,25 @@ namespace DotnetLibrary
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			UInt64 digit = *source - '0';
+			if (result > (MaxValue - digit) / 10) {
+				result = MaxValue;
+				tooLarge = true;
+			}
+			else
+				result = 10 * result + digit;
 			++source;
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
 			gotNumber = false;
+		if (overflow != nullptr)
+			*overflow = tooLarge;
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 2808e24298f34666ca05d477dee3131e56ad289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 09/56] fix: String constructors read past their source when no
 length is given

---
 DotNetLibrary/src/StringDotNet.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..bc93b64 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,10 +37,11 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (length < 0)
-			length = (Int32) wcslen(string);
-		if (startIndex < 0 || startIndex > wcslen(string))
+		// only characters up to startIndex are examined as source does not have to be terminated
+		if (startIndex < 0 || wcsnlen(string, startIndex) < (size_t) startIndex)
 			throw new ArgumentOutOfRangeException();
+		if (length < 0)
+			length = (Int32) wcslen(string + startIndex);
 
 		allocate = true;
 		this->length = length;
@@ -52,17 +53,21 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
-			length = values->get_Length();
-		}
 		if (values == nullptr || length == 0) {
 			this->length = 0;
 			characterData = new Char[1];
+			characterData[0] = 0;
 			return;
 		}
 		if (startIndex < 0) {
 			startIndex = 0;
 		}
+		if (startIndex > values->get_Length()) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (length < 0) {
+			length = values->get_Length() - startIndex;
+		}
 		if (length > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From 9dddd1aa7541b2c11c4c7f6c2d4c601b1d86ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 10/56] fix: String comparison ignored the second length, null
 operands, the CompareTo(Object*) result and was not transitive

---
 DotNetLibrary/src/StringDotNet.cpp | 56 +++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index bc93b64..261b9cc 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -115,38 +115,55 @@ namespace DotnetLibrary
 		Char* str2 = s2 + s2Index;
 		Char c1 = 0;
 		Char c2 = 0;
+		Int32 caseOrder = 0; // lower case sorts first in strings that differ by case only
 		while (length > 0) {
-			if (ignoreCase) {
-				c1 = towlower(*str1++);
-				c2 = towlower(*str2++);
+			c1 = *str1++;
+			c2 = *str2++;
+			if (ignoreCase || !doOrdinal) {
+				Char lower1 = towlower(c1);
+				Char lower2 = towlower(c2);
+				if (!ignoreCase && caseOrder == 0 && c1 != c2 && lower1 == lower2)
+					caseOrder = CharValue::IsUpper(c1) ? 1 : -1;
+				c1 = lower1;
+				c2 = lower2;
 			}
-			else {
-				c1 = *str1++;
-				c2 = *str2++;
-				if (!doOrdinal) {
-					if (CharValue::IsUpper(c1) && CharValue::IsLower(c2))
-						return (1);
-					if (CharValue::IsUpper(c2) && CharValue::IsLower(c1))
-						return (-1);
-				}
-			}
-			if (c1 == L'\0' || c1 != c2)
-				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
+			if (c1 != c2)
+				return c1 > c2 ? 1 : -1;
+			if (c1 == L'\0')
+				break;
 			--length;
 		}
-		return 0;
+		return caseOrder;
+	}
+	/*!
+	 * Check operands of a comparison
+	 * @return false if order is already decided by a null string
+	 */
+	static Boolean VerifyCompare(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Int32& order) {
+		order = (s1 == nullptr ? 0 : 1) - (s2 == nullptr ? 0 : 1);
+		if (s1 == nullptr || s2 == nullptr)
+			return (false);
+		if (length < 0 || index1 < 0 || index2 < 0 || index1 > s1->get_Length() || index2 > s2->get_Length())
+			throw new ArgumentOutOfRangeException();
+		return (true);
 	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (Compare(s1, 0, s2, 0, Int32Value::MaxValue, ignoreCase));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
+		Int32 order;
+		if (!VerifyCompare(s1, index1, s2, index2, length, order))
+			return (order);
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (CompareOrdinal(s1, 0, s2, 0, Int32Value::MaxValue));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
+		Int32 order;
+		if (!VerifyCompare(s1, index1, s2, index2, length, order))
+			return (order);
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
@@ -154,8 +171,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return CompareTo((String*) value);
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From 73427cb7281bd6b408cc01041ace50e448e05b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 11/56] fix: String searches matched past the searched range,
 read outside the strings and accepted bad ranges

---
 DotNetLibrary/src/StringDotNet.cpp | 31 ++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 261b9cc..1c29c2a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -209,6 +209,10 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
+		if (substring == nullptr)
+			throw new ArgumentNullException();
+		if (substring->length == 0)
+			return true;
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
@@ -247,6 +251,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
 	}
@@ -296,6 +303,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
@@ -326,7 +335,7 @@ namespace DotnetLibrary
 		if (found == nullptr)
 			return (-1);
 		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
+		Int32 endIndex = startIndex + count - value->get_Length();
 		return (delta > endIndex ? -1 : delta);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
@@ -440,6 +449,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex > length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -454,14 +465,13 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex > length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
-		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
-					return (delta);
-			}
+		Int32 lastStart = value->length == 0 ? startIndex : startIndex + 1 - value->length;
+		for (Int32 i = lastStart; i > endIndex; --i) {
+			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->length) == 0)
+				return (i);
 		}
 		return -1;
 	}
@@ -472,6 +482,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex > length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
@@ -537,6 +549,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
 	}
-- 
2.43.0


From a394dda83360363a3f4c089bb4a63c6ae185c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 12/56] fix: String::Concat rejected a null first operand and
 String::CopyTo an empty range at the end

---
 DotNetLibrary/src/StringDotNet.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 1c29c2a..531271a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -190,10 +190,9 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	String* String::Concat(Object* o1, Object* o2, Object* o3, Object* o4, Object* o5, Object* o6, Object* o7) {
-		if (nullptr == o1)
-			throw new ArgumentNullException();
 		StringBuilder sb;
-		sb.Append(o1);
+		if (o1 != nullptr)
+			sb.Append(o1);
 		if (o2 != nullptr)
 			sb.Append(o2);
 		if (o3 != nullptr)
@@ -235,6 +234,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From d130f227438526e61e824de857343458dd5f63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 13/56] fix: FormatString and CopyChars wrote the terminator
 past a buffer of exactly the text's length

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..d0538b1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -180,7 +180,7 @@ namespace DotnetLibrary
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 531271a..a29b2ce 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -687,13 +687,15 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (whereSize < 1)
+			return;
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From bcbca152d9d5c13f94db6e14b215e63ae94dd595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 14/56] fix: StringBuilder could not be built from a null or
 empty string

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d0538b1..4e8f86b 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
+		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
 		currentLength = length;
 	}
-- 
2.43.0


From b59f84ecc2b5befdd9e6bf013b1664a2de4f0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 15/56] fix: StringBuilder::Append of repeated characters
 overran the buffer and room checks overflowed

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 4e8f86b..7c12d99 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,7 +262,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
@@ -313,6 +313,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From 943eca5015141ee532574aca83f2a28380a8ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 16/56] fix: StringBuilder insertion accepted negative
 positions

---
 DotNetLibrary/include/StringBuilder.h | 5 +++--
 DotNetLibrary/src/StringBuilder.cpp   | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..b8bd735 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -22,6 +22,7 @@ namespace DotnetLibrary
 {
 #define DefaultCapacity 128 // default internal buffer size
 #define MaximumCapacity Int32Value::MaxValue// Maximum string builder capacity
+#define AppendAtEnd INT32_MIN // position that means end of current text
 
 	/*!
 	 * Emulate .Net StringBuilder class.
@@ -103,7 +104,7 @@ namespace DotnetLibrary
 		 * @param where at what index
 		 * @return StringBuilder
 		 */
-		StringBuilder* Append(const Char* values, Int32 charCount, Int32 where = -1);
+		StringBuilder* Append(const Char* values, Int32 charCount, Int32 where = AppendAtEnd);
 		/*!
 		 * Append these characters into buffer
 		 * @param values array with characters
@@ -118,7 +119,7 @@ namespace DotnetLibrary
 		 * @param index character index
 		 * @return StringBuilder
 		 */
-		StringBuilder* Append(ValueType& value, Int32 index = -1);
+		StringBuilder* Append(ValueType& value, Int32 index = AppendAtEnd);
 		/*!
 		 * Append Boolean
 		 * @param value value to append
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 7c12d99..4342760 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -186,12 +186,15 @@ namespace DotnetLibrary
 		return currentLength;
 	}
 	StringBuilder* StringBuilder::Append(const Char* values, Int32 charCount, Int32 where) {
-		if (where == -1) {
+		if (where == AppendAtEnd) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
+		if (charCount < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
 			memmove(&chunkChars[where + charCount], &chunkChars[where], (currentLength - where) * sizeof(Char));
-- 
2.43.0


From a6c0ba5230ec0ada749fd73169d571d057c01772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 17/56] fix: StringBuilder Append and Insert failed for null
 and empty operands

---
 DotNetLibrary/src/StringBuilder.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 4342760..d5521b3 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -256,7 +256,7 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
-		return (Append(value->ToString()));
+		return (value == nullptr ? this : Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
 		return (Append(value, 1));
@@ -273,6 +273,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
+		if (value == nullptr) {
+			value = String::Empty;
+		}
 		if (charCount < 0)
 			charCount = value->get_Length();
 		if (startIndex < 0) {
@@ -402,11 +405,20 @@ namespace DotnetLibrary
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
-		return (Insert(index, value->ToString()));
+		return (Insert(index, value == nullptr ? (String*) nullptr : value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
-		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+		if (value == nullptr) {
+			value = String::Empty;
+		}
+		if (index < 0 || index > currentLength) {
+			throw new IndexOutOfRangeException();
+		}
+		if (count < 0 || (Int64) count * value->get_Length() > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
+		for (int i = 0; value->get_Length() != 0 && i < count; ++i) {
+			Append(value->get_Buffer(), value->get_Length(), index);
 		}
 		return (this);
 	}
-- 
2.43.0


From 28c42548a9ec7426a62fbcc3374a5a590f2171d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 18/56] fix: StringBuilder::Remove used memcpy on overlapping
 ranges

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d5521b3..5c48db1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -349,7 +349,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From 408f6f6074a940a6f16639bd1e03c5b783857a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 19/56] fix: StringBuilder capacity could fall below the length
 or exceed the maximum capacity

---
 DotNetLibrary/src/StringBuilder.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 5c48db1..dec89e7 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -120,7 +120,7 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-		if (chunkChars != internalMemory && capacity < currentCapacity) {
+		if (capacity < currentLength || (chunkChars != internalMemory && capacity < currentCapacity)) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (currentCapacity >= capacity) {
@@ -130,10 +130,9 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
-			newArray = new Char[capacity + 1];
+				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
+			newArray = new Char[(size_t) capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
 				delete chunkChars;
-- 
2.43.0


From 8dfcd8d981ad0d1124dbc7bdf3067e9197822e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 20/56] fix: StringBuilder::set_Length exposed removed text
 when growing

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index dec89e7..b79d21a 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -108,6 +108,10 @@ namespace DotnetLibrary
 		if (delta < 0) {
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
+		else {
+			memset(chunkChars + currentLength, 0, delta * sizeof(Char));
+		}
+		chunkChars[newLength] = 0;
 		currentLength = newLength;
 	}
 	Int32 StringBuilder::get_Capacity() {
-- 
2.43.0


From d8fc5440a8d2282005052594eae5df76274d27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 21/56] fix: StringBuilder::ToString range check overflowed and
 refused the empty range at the end

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index b79d21a..e32722c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -176,9 +176,9 @@ namespace DotnetLibrary
 		return (new String(chunkChars, 0, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From c2417d7a0a1460a69114db14dcf143d5884daf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 22/56] fix: StringBuilder::AppendLine appended part of the
 line when it did not fit

---
 DotNetLibrary/src/StringBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e32722c..0ed9ab2 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -310,11 +310,15 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
+		EnsureRoomFor(2);
 		Append(L'\r');
 		return (Append(L'\n'));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
-		Append(value);
+		if (value != nullptr) {
+			EnsureRoomFor(value->get_Length() + 2);
+			Append(value);
+		}
 		return (AppendLine());
 	}
 	StringBuilder* StringBuilder::Clear() {
-- 
2.43.0


From 866cb6c421e03f0b6af41571448e1ae176e38b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 23/56] fix: Double and Single Parse returned an indeterminate
 value for malformed text and accepted trailing text

---
 DotNetLibrary/src/DoubleValue.cpp | 15 +++++++++++----
 DotNetLibrary/src/SingleValue.cpp | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..1c3a205 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,12 +137,14 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -163,9 +165,14 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Double rtn;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
+		Char* end = source;
+		Double rtn = wcstod(source, &end);
+		gotNumber = end != source;
+		while (CharValue::IsWhiteSpace(*end))
+			++end;
+		if (*end != 0)
+			gotNumber = false;
+		result = gotNumber ? rtn : 0;
 		return (gotNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..4f37d90 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,12 +144,14 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -170,9 +172,14 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Single rtn;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
+		Char* end = source;
+		Single rtn = wcstof(source, &end);
+		gotNumber = end != source;
+		while (CharValue::IsWhiteSpace(*end))
+			++end;
+		if (*end != 0)
+			gotNumber = false;
+		result = gotNumber ? rtn : 0;
 		return (gotNumber);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
-- 
2.43.0


From 9bb5bc5d067dcb59cc87a920ee513fa0635b7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 24/56] fix: Double MaxValue and MinValue were not the largest
 finite values

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 1c3a205..63d3495 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = 1.7976931348623157E+308;
+	DLL_EXPORT Double DoubleValue::MinValue = -1.7976931348623157E+308;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From 145a3c542999e4fac08d3f3c2795005e38728c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 25/56] fix: StringBuilder insertion took the smallest integer
 for the end of the text

---
 DotNetLibrary/include/StringBuilder.h | 22 +++++++++++++++++++---
 DotNetLibrary/src/StringBuilder.cpp   |  3 ---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index b8bd735..db9862e 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -22,7 +22,6 @@ namespace DotnetLibrary
 {
 #define DefaultCapacity 128 // default internal buffer size
 #define MaximumCapacity Int32Value::MaxValue// Maximum string builder capacity
-#define AppendAtEnd INT32_MIN // position that means end of current text
 
 	/*!
 	 * Emulate .Net StringBuilder class.
@@ -104,7 +103,16 @@ namespace DotnetLibrary
 		 * @param where at what index
 		 * @return StringBuilder
 		 */
-		StringBuilder* Append(const Char* values, Int32 charCount, Int32 where = AppendAtEnd);
+		StringBuilder* Append(const Char* values, Int32 charCount, Int32 where);
+		/*!
+		 * Append these characters at end of buffer
+		 * @param values array of characters
+		 * @param charCount how many
+		 * @return StringBuilder
+		 */
+		StringBuilder* Append(const Char* values, Int32 charCount) {
+			return (Append(values, charCount, currentLength));
+		}
 		/*!
 		 * Append these characters into buffer
 		 * @param values array with characters
@@ -119,7 +127,15 @@ namespace DotnetLibrary
 		 * @param index character index
 		 * @return StringBuilder
 		 */
-		StringBuilder* Append(ValueType& value, Int32 index = AppendAtEnd);
+		StringBuilder* Append(ValueType& value, Int32 index);
+		/*!
+		 * Append value type at end of buffer
+		 * @param value value to append
+		 * @return StringBuilder
+		 */
+		StringBuilder* Append(ValueType& value) {
+			return (Append(value, currentLength));
+		}
 		/*!
 		 * Append Boolean
 		 * @param value value to append
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 0ed9ab2..6fb98e2 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -189,9 +189,6 @@ namespace DotnetLibrary
 		return currentLength;
 	}
 	StringBuilder* StringBuilder::Append(const Char* values, Int32 charCount, Int32 where) {
-		if (where == AppendAtEnd) {
-			where = currentLength;
-		}
 		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
-- 
2.43.0


From 79459e722d1c04fcd4f6f75f674e6f492b961d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 26/56] fix: String::Join accepted a start index past the end
 of its values

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index a29b2ce..b8a749f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -401,7 +401,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -428,7 +428,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
-- 
2.43.0


From 498f0f1a0fb1980d777fd8d4ee248bb373813137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 27/56] fix: String constructor dereferenced a null character
 pointer

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index b8a749f..5818612 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -30,6 +30,8 @@ namespace DotnetLibrary
 	                (Char) 0x2008, (Char) 0x2009, (Char) 0x200A, (Char) 0x200B, (Char) 0x3000, (Char) 0xFEFF };
 
 	String::String(const Char* string) {
+		if (string == nullptr)
+			throw new ArgumentOutOfRangeException();
 		this->length = (Int32) wcslen(string);
 		characterData = (Char*) string;
 		allocate = false;
-- 
2.43.0


From 4e0de52c558d3fac534e7401ba4eac0e8209b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 28/56] fix: BitConverter::ToChar sign extended characters of
 the upper half

---
 DotNetLibrary/src/BitConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..42001d4 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
+		UInt16 ret;
 		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From c731befedba2020031e2ded9b14a6fb56bb97e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 29/56] fix: BitConverter::ToString accepted ranges outside an
 empty array

---
 DotNetLibrary/src/BitConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 42001d4..97f75e3 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -140,7 +140,7 @@ namespace DotnetLibrary
 			length = value->get_Length() - startIndex;
 		if (startIndex < 0 || startIndex >= value->get_Length()) {
 			// special (but valid) case (e.g. new byte [0])
-			if ((startIndex == 0) && (value->get_Length() == 0))
+			if ((startIndex == 0) && (value->get_Length() == 0) && (length == 0))
 				return String::Empty;
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From d94d8bf5915298321c8a9e315c80b69a4b3d043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 30/56] fix: Buffer byte access accepted negative indices

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..770a6da 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -57,13 +57,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From 964227b5a972056551276327fe96622799e52ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 31/56] fix: Buffer::BlockCopy of no bytes failed for empty
 arrays

---
 DotNetLibrary/src/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 770a6da..f0b3081 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -40,6 +40,8 @@ namespace DotnetLibrary
 		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
 		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From 5adea16065b3e8f206b0711ce35a98892426927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 32/56] fix: DateTime accepted 1000 milliseconds and ignored
 negative hours

---
 DotNetLibrary/src/DateTimeValue.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..0ea92a4 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds >= 1000)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
@@ -73,9 +73,7 @@ namespace DotnetLibrary
 		value = val.value;
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
-		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value = DateToTicks(year, month, day) + TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 4ca3aab32c9b778700ee597cbe4ea0713ce081cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 33/56] fix: DateTime additions of NaN had undefined results
 and rounding could be off by one

---
 DotNetLibrary/src/DateTimeValue.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 0ea92a4..316a245 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -22,6 +22,7 @@
 #else
 #include <sys/time.h>
 #endif
+#include <cmath>
 #include <ctime>
 #include <cwchar>
 namespace DotnetLibrary
@@ -104,8 +105,9 @@ namespace DotnetLibrary
 		return AddTicks(ts.value);
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
-		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
-		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
+		Double millis_double = round(value * (Double) scale);
+		// written so that NaN is rejected too
+		if (!(millis_double > (Double) -MaxMillis && millis_double < (Double) MaxMillis))
 			throw new ArgumentOutOfRangeException();
 		return AddTicks((Int64) millis_double * TicksPerMillisecond);
 	}
-- 
2.43.0


From 00ee01480f559ccb5fe88a9bb56db97df44bd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 34/56] fix: DateTime text showed AM for the hour after noon

---
 DotNetLibrary/src/DateTimeValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 316a245..fdd8ac9 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -272,9 +272,10 @@ namespace DotnetLibrary
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
 		Boolean isPm = false;
-		if (hour > 12) {
-			hour -= 12;
+		if (hour >= 12) {
 			isPm = true;
+			if (hour > 12)
+				hour -= 12;
 		}
 		Char dateTime[128];
 #ifdef __MINGW32__
-- 
2.43.0


From 9acb913b8f7201cb66f29d143798060c474f7b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 35/56] fix: DateTime formatting bounded its scratch text by
 the caller's buffer size

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index fdd8ac9..f6edeea 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -281,7 +281,7 @@ namespace DotnetLibrary
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From f1ada49b78767bede8de9a2988a32af1a6eba549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 36/56] fix: DateTime time zone offset was wrong across
 midnight and for part-hour zones

---
 DotNetLibrary/src/DateTimeValue.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index f6edeea..c0767b6 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -312,12 +312,13 @@ namespace DotnetLibrary
 		tzset();
 #endif
 		time_t rawTime = time(nullptr);
-		struct tm* utcInfo = gmtime(&rawTime);
-		int gmHour = utcInfo->tm_hour;
-		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
-		return ts;
+		struct tm utcInfo = *gmtime(&rawTime);
+		struct tm localInfo = *localtime(&rawTime);
+		// the two clocks may show different days
+		int days = localInfo.tm_yday - utcInfo.tm_yday;
+		if (localInfo.tm_year != utcInfo.tm_year)
+			days = localInfo.tm_year > utcInfo.tm_year ? 1 : -1;
+		return TimeSpan(days, localInfo.tm_hour - utcInfo.tm_hour, localInfo.tm_min - utcInfo.tm_min, localInfo.tm_sec - utcInfo.tm_sec);
 	}
 
 	DateTime DateTimeValue::ToLocalTime(Boolean throwOnOverflow) {
-- 
2.43.0


From 888d2066499583ea523f2e474966f4a9fae796d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 37/56] fix: DateTime daylight saving query used an
 uninitialised flag

---
 DotNetLibrary/src/DateTimeValue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index c0767b6..c2a4862 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -254,8 +254,10 @@ namespace DotnetLibrary
 		timeinfo.tm_mon = get_Month() - 1;
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
+		// let mktime work out whether daylight saving time is in effect
+		timeinfo.tm_isdst = -1;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From 07ac003020da127c24211646097d8a06102e732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 38/56] fix: TimeSpan smallest and largest values were the
 unsigned limits

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..2f7410c 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(Int64Value::MaxValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(Int64Value::MinValue);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From 5bd43568a836a1c881624c1ee678236e45001c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 39/56] fix: TimeSpan subtraction tested the wrong signs for
 overflow

---
 DotNetLibrary/src/TimeSpanValue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 2f7410c..c471b0c 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -89,7 +89,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	TimeSpan TimeSpanValue::Add(const TimeSpan& ts) {
-		Int64 result = value.value + ts.value;
+		Int64 result = (Int64) ((UInt64) value.value + (UInt64) ts.value);
 		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
@@ -241,8 +241,9 @@ namespace DotnetLibrary
 		return (results);
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
-		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
+		// overflow if the signs differ and the result's sign is not that of the minuend
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From 0d41db8d50e5eef6ba02b11b28259d7e29cec511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 40/56] fix: TimeSpan scaled to 2^63 ticks or NaN passed the
 range check

---
 DotNetLibrary/src/TimeSpanValue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index c471b0c..52aebc2 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -129,7 +129,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
+		if (ticks >= (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
@@ -212,7 +212,8 @@ namespace DotnetLibrary
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
 		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
+		// the largest tick count rounds up to 2^63 as a Double
+		if ((ticks >= (Double) Int64Value::MaxValue) || (ticks < (Double) Int64Value::MinValue))
 			throw new OverflowException();
 		return (Int64) ticks;
 	}
@@ -221,7 +222,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
+		if (ticks >= (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
-- 
2.43.0


From d1021994c83384e4837afa3efee6645a69e84de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 41/56] fix: TimeSpan text padded its tick fraction on the
 wrong side

---
 DotNetLibrary/src/TimeSpanValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 52aebc2..c9d94e1 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -185,8 +185,9 @@ namespace DotnetLibrary
 			Char frac[32];
 			Int32Value factValue(fractional);
 			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
+			// seven digits, so the leading ones are the zeros
 			stringBuilder.Append(L'0', 7 - fracLength);
+			stringBuilder.Append(frac, fracLength);
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From e89afcf6a281ef04a91b637da5d0221c627a5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 42/56] fix: TimeSpan parsing accepted malformed text, read
 past its end and overran its number array

---
 DotNetLibrary/src/TimeSpanValue.cpp | 137 +++++++++++++++++-----------
 1 file changed, 82 insertions(+), 55 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index c9d94e1..f6d9c20 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -233,12 +233,91 @@ namespace DotnetLibrary
 			throw new OverflowException();
 		return -((Int64) value.value);
 	}
+	enum TextResult
+	{
+		GoodText, BadText, TooLarge
+	};
+	// Read the digits at the front of the text. A number too large for any field stays too large.
+	static Boolean ReadNumber(Char*& chars, Int32& length, Int64& number) {
+		const Int64 limit = 100000000;
+		if (length <= 0 || !CharValue::IsDigit(*chars))
+			return false;
+		number = 0;
+		for (; length > 0 && CharValue::IsDigit(*chars); ++chars, --length) {
+			if (number < limit)
+				number = number * 10 + (*chars - L'0');
+		}
+		return true;
+	}
+	// [-]days or [-][days(.|:)]hours:minutes[:seconds[.fraction]]
+	static TextResult ParseText(String* s, TimeSpan& result) {
+		Int64 numbers[4];
+		Int32 amount = 0;
+		Boolean hasDays = false;
+		Char* chars = s->get_Buffer();
+		Int32 length = s->get_Length();
+		result = TimeSpan(0);
+		Boolean negate = length > 0 && *chars == L'-';
+		if (negate) {
+			++chars;
+			--length;
+		}
+		while (true) {
+			if (!ReadNumber(chars, length, numbers[amount]))
+				return BadText;
+			++amount;
+			if (length == 0 || amount == 4)
+				break;
+			if (*chars == L'.' && amount == 1)
+				hasDays = true;
+			else if (*chars != L':')
+				break;
+			++chars;
+			--length;
+		}
+		if (amount == 4)
+			hasDays = true;
+		else if (amount == 2 && hasDays)
+			return BadText;
+		Int64 fractional = 0;
+		if (length > 0) {
+			// a fraction can only follow the seconds
+			if (*chars != L'.' || amount != (hasDays ? 4 : 3))
+				return BadText;
+			++chars;
+			--length;
+			if (length < 1 || length > 7)
+				return BadText;
+			Int64 frac = TimeSpanValue::TicksPerSecond;
+			for (; length > 0; ++chars, --length) {
+				if (!CharValue::IsDigit(*chars))
+					return BadText;
+				frac /= 10;
+				fractional += (Int64) (*chars - L'0') * frac;
+			}
+		}
+		Int32 index = 0;
+		Int64 days = (hasDays || amount == 1) ? numbers[index++] : 0;
+		Int64 hours = index < amount ? numbers[index++] : 0;
+		Int64 minutes = index < amount ? numbers[index++] : 0;
+		Int64 seconds = index < amount ? numbers[index++] : 0;
+		if (days > Int64Value::MaxValue / TimeSpanValue::TicksPerDay || hours > 23 || minutes > 59 || seconds > 59)
+			return TooLarge;
+		UInt64 ticks = (UInt64) days * TimeSpanValue::TicksPerDay + hours * TimeSpanValue::TicksPerHour
+		                + minutes * TimeSpanValue::TicksPerMinute + seconds * TimeSpanValue::TicksPerSecond + fractional;
+		if (ticks > (UInt64) Int64Value::MaxValue + (negate ? 1 : 0))
+			return TooLarge;
+		result = TimeSpan((Int64) (negate ? 0 - ticks : ticks));
+		return GoodText;
+	}
 	TimeSpan TimeSpanValue::Parse(String* s) {
 		TimeSpan results;
 		if (s == nullptr)
 			throw new ArgumentNullException();
-		Boolean good = TryParse(s, results);
-		if (!good)
+		TextResult parsed = ParseText(s, results);
+		if (parsed == TooLarge)
+			throw new OverflowException();
+		if (parsed != GoodText)
 			throw new FormatException();
 		return (results);
 	}
@@ -250,59 +329,7 @@ namespace DotnetLibrary
 		return TimeSpan(result);
 	}
 	Boolean TimeSpanValue::TryParse(String* s, TimeSpan& result) {
-		Int64 numbers[] = { 0, 0, 0, 0 };
-		Int32 amount = 0;
-		Int64 fractional = 0;
-		Char* chars = s->get_Buffer();
-		Int32 length = s->get_Length();
-		Int32 sign;
-		Boolean negate = false;
-		if (*chars == L'-') {
-			negate = true;
-			++chars;
-			--length;
-		}
-		while (length > 0) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
-				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
-				break;
-			if (CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
-		}
-		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
-			frac /= 10;
-			fractional += (Int64) (*chars - L'0') * frac;
-			++chars;
-			--length;
-		}
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
-		Int64 days = 0;
-		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
-		if (negate)
-			ticks = -ticks;
-		result = ticks;
-		return true;
+		return s != nullptr && ParseText(s, result) == GoodText;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
 		return TimeSpanValue(ts1).Add(ts2);
-- 
2.43.0


From 2fd7842ced6d4e387c6741d958e6b83cae273294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 43/56] fix: Math.Abs of an integer returns that integer type
 exactly and raises on overflow

---
 DotNetLibrary/include/DotNetMath.h |  8 ++++----
 DotNetLibrary/src/DotNetMath.cpp   | 30 +++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/include/DotNetMath.h b/DotNetLibrary/include/DotNetMath.h
index 7a68592..cdccdea 100644
--- a/DotNetLibrary/include/DotNetMath.h
+++ b/DotNetLibrary/include/DotNetMath.h
@@ -48,25 +48,25 @@ namespace DotnetLibrary
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int16 v1);
+		static Int16 Abs(Int16 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int32 v1);
+		static Int32 Abs(Int32 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int64 v1);
+		static Int64 Abs(Int64 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(SByte v1);
+		static SByte Abs(SByte v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..b744a8c 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -33,17 +33,25 @@ namespace DotnetLibrary
 	Double Math::Abs(Double v1) {
 		return fabs(v1);
 	}
-	Double Math::Abs(Int16 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(Int32 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(Int64 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(SByte v1) {
-		return abs(v1);
+	Int16 Math::Abs(Int16 v1) {
+		if (v1 == Int16Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	Int32 Math::Abs(Int32 v1) {
+		if (v1 == Int32Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	Int64 Math::Abs(Int64 v1) {
+		if (v1 == Int64Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	SByte Math::Abs(SByte v1) {
+		if (v1 == SByteValue::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
 	Double Math::Abs(Single v1) {
 		return fabs(v1);
-- 
2.43.0


From c017ba4fca72f8df9530ca2a60f620aa99edd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 44/56] fix: integer division in Math keeps 64-bit quotients
 and raises when the quotient overflows

---
 DotNetLibrary/src/DotNetMath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index b744a8c..6480033 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -264,6 +264,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v1 == Int64Value::MinValue && v2 == -1)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -277,6 +279,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (a == Int32Value::MinValue && b == -1)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -284,7 +288,9 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		if (a == Int64Value::MinValue && b == -1)
+			throw new OverflowException();
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From 32cd771251ba0252713ee14ec2822d9a0b4ac1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 45/56] fix: Math.Divide of doubles by zero keeps the sign and
 NaN

---
 DotNetLibrary/src/DotNetMath.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 6480033..3c5eecd 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -269,11 +269,6 @@ namespace DotnetLibrary
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
-		if (v2 == 0) {
-			if (v1 == 0)
-				return (DoubleValue::NaN);
-			return (DoubleValue::PositiveInfinity);
-		}
 		return v1 / v2;
 	}
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
-- 
2.43.0


From 6c405688acc4b0f8ae1275c89b99afb1b4cb5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 46/56] fix: Math.ILogB of zero, infinity and NaN is defined

---
 DotNetLibrary/src/DotNetMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 3c5eecd..a652382 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -308,7 +308,11 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
-		return logb(x);
+		if (x == 0)
+			return Int32Value::MinValue;
+		if (!DoubleValue::IsFinite(x))
+			return Int32Value::MaxValue;
+		return ilogb(x);
 	}
 	Double Math::Log(Double v1) {
 		return log(v1);
-- 
2.43.0


From bdfe96bd4b5106386dbdc372fc52b5fa39436bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 47/56] fix: Math.FusedMultiplyAdd rounds once

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index a652382..c502e20 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -302,7 +302,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From da4078e9117ddf07a1ef27368bbf69e249579228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 48/56] fix: the memory pool refuses requests whose size
 exceeds 32 bits or is not available from the heap

---
 PlatformSupport/PlatformSupport.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..3fc6395 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,14 +35,15 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
-	uint32_t required = (uint32_t)size;
-	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	size_t available = memorySize - memoryUsed;
+	size_t required = Align(size, sizeof(double));
+	if (size > available || required > available)
 		return(nullptr);
-	memoryUsed += required;
+	memoryUsed += (uint32_t)required;
 	char* ret = currentMemory;
 	currentMemory += required;
 	memset(ret, 0, size);
-- 
2.43.0


From 23805d13015c42d81b25cdad87a1a317fc1d7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 49/56] fix: sending a null message prints an empty line

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..1d0310c 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -26,7 +26,7 @@
  */
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
-	printf("%ls\n", message->get_Buffer());
+	printf("%ls\n", message == nullptr ? L"" : message->get_Buffer());
 }
 
 /*!
-- 
2.43.0


From 5539fa78f766f25b77c9038b6e185a5e7e5015f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 50/56] fix: Exception.GetBaseException returns the innermost
 exception

---
 DotNetLibrary/include/Exception.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..7cd7617 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -73,7 +73,11 @@ namespace DotnetLibrary
 		 * @return base exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* base = this;
+			while (base->innerException != nullptr) {
+				base = base->innerException;
+			}
+			return (base);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From 610e482be9c045ea6b00935eaf596cd4766a5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:56 +0000
Subject: [PATCH 51/56] fix: text following an embedded terminator is not
 ignored when parsing real numbers

---
 DotNetLibrary/src/DoubleValue.cpp | 6 ++++--
 DotNetLibrary/src/SingleValue.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 63d3495..90b0627 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -168,9 +168,11 @@ namespace DotnetLibrary
 		Char* end = source;
 		Double rtn = wcstod(source, &end);
 		gotNumber = end != source;
-		while (CharValue::IsWhiteSpace(*end))
+		// nothing but white space and terminators may follow
+		Char* last = source + sourceLength;
+		while (end < last && (*end == 0 || CharValue::IsWhiteSpace(*end)))
 			++end;
-		if (*end != 0)
+		if (end != last)
 			gotNumber = false;
 		result = gotNumber ? rtn : 0;
 		return (gotNumber);
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 4f37d90..b16b6f3 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -175,9 +175,11 @@ namespace DotnetLibrary
 		Char* end = source;
 		Single rtn = wcstof(source, &end);
 		gotNumber = end != source;
-		while (CharValue::IsWhiteSpace(*end))
+		// nothing but white space and terminators may follow
+		Char* last = source + sourceLength;
+		while (end < last && (*end == 0 || CharValue::IsWhiteSpace(*end)))
 			++end;
-		if (*end != 0)
+		if (end != last)
 			gotNumber = false;
 		result = gotNumber ? rtn : 0;
 		return (gotNumber);
-- 
2.43.0


From 8f4fff16f90592db13c8b4f0b0ffe2bff2579777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 52/56] fix: Math.PI and Math.E are the nearest doubles

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index c502e20..357624a 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -19,8 +19,8 @@
 #include <math.h>
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double Math::PI = 3.14159265358979;
-	DLL_EXPORT Double Math::E = 2.71828182845905;
+	DLL_EXPORT Double Math::PI = 3.14159265358979323846;
+	DLL_EXPORT Double Math::E = 2.71828182845904523536;
 	const UInt64 ExponentMask = 0x7FF0000000000000;
 	const Int32 ExponentShift = 52;
 	const Int32 ShiftedExponentMask = (Int32) (ExponentMask >> ExponentShift);
-- 
2.43.0


From f276fe9e80410977cce6930909853933bd8a08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 53/56] fix: compare strings over their whole length, not up to
 an embedded null character

---
 DotNetLibrary/src/StringDotNet.cpp | 45 ++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 5818612..0b31631 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -111,16 +111,16 @@ namespace DotnetLibrary
 			throw new IndexOutOfRangeException();
 		return (&characterData[index1]);
 	}
-	Int32 String::Compare(Char* s1, Int32 s1Index, Char* s2, Int32 s2Index, Int32 length, Boolean ignoreCase,
-	                      Boolean doOrdinal) {
-		Char* str1 = s1 + s1Index;
-		Char* str2 = s2 + s2Index;
-		Char c1 = 0;
-		Char c2 = 0;
+	/*!
+	 * Compare two ranges of characters
+	 * @param terminated true if a null character ends both ranges
+	 */
+	static Int32 CompareChars(Char* str1, Int32 length1, Char* str2, Int32 length2, Boolean ignoreCase,
+	                          Boolean doOrdinal, Boolean terminated) {
 		Int32 caseOrder = 0; // lower case sorts first in strings that differ by case only
-		while (length > 0) {
-			c1 = *str1++;
-			c2 = *str2++;
+		for (Int32 i = 0; i < length1 && i < length2; ++i) {
+			Char c1 = *str1++;
+			Char c2 = *str2++;
 			if (ignoreCase || !doOrdinal) {
 				Char lower1 = towlower(c1);
 				Char lower2 = towlower(c2);
@@ -131,12 +131,27 @@ namespace DotnetLibrary
 			}
 			if (c1 != c2)
 				return c1 > c2 ? 1 : -1;
-			if (c1 == L'\0')
-				break;
-			--length;
+			if (terminated && c1 == L'\0')
+				return caseOrder;
 		}
+		if (length1 != length2)
+			return length1 > length2 ? 1 : -1;
 		return caseOrder;
 	}
+	Int32 String::Compare(Char* s1, Int32 s1Index, Char* s2, Int32 s2Index, Int32 length, Boolean ignoreCase,
+	                      Boolean doOrdinal) {
+		return CompareChars(s1 + s1Index, length, s2 + s2Index, length, ignoreCase, doOrdinal, true);
+	}
+	/*!
+	 * Compare ranges of two strings, which may contain null characters
+	 */
+	static Int32 CompareRanges(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Boolean ignoreCase,
+	                           Boolean doOrdinal) {
+		Int32 length1 = s1->get_Length() - index1;
+		Int32 length2 = s2->get_Length() - index2;
+		return CompareChars(s1->get_Buffer() + index1, length1 < length ? length1 : length, s2->get_Buffer() + index2,
+		                    length2 < length ? length2 : length, ignoreCase, doOrdinal, false);
+	}
 	/*!
 	 * Check operands of a comparison
 	 * @return false if order is already decided by a null string
@@ -157,7 +172,7 @@ namespace DotnetLibrary
 		Int32 order;
 		if (!VerifyCompare(s1, index1, s2, index2, length, order))
 			return (order);
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (CompareRanges(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
 		return (CompareOrdinal(s1, 0, s2, 0, Int32Value::MaxValue));
@@ -166,7 +181,7 @@ namespace DotnetLibrary
 		Int32 order;
 		if (!VerifyCompare(s1, index1, s2, index2, length, order))
 			return (order);
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (CompareRanges(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
@@ -273,7 +288,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return wmemcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length()) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
-- 
2.43.0


From e8c2f5dd786aff996db8020548733553d2ea03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 54/56] fix: find substrings that contain or follow a null
 character, and never match the terminator

---
 DotNetLibrary/src/StringDotNet.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 0b31631..91b313d 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -349,12 +349,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
 		Int32 endIndex = startIndex + count - value->get_Length();
-		return (delta > endIndex ? -1 : delta);
+		for (Int32 i = startIndex; i <= endIndex; ++i) {
+			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length()) == 0)
+				return (i);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
@@ -487,6 +487,8 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		Int32 lastStart = value->length == 0 ? startIndex : startIndex + 1 - value->length;
+		if (lastStart > length - value->length)
+			lastStart = length - value->length;
 		for (Int32 i = lastStart; i > endIndex; --i) {
 			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->length) == 0)
 				return (i);
-- 
2.43.0


From 606afd1c6cd2704fbacf0c39c81f9d86bdd2c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 55/56] fix: take substrings and trim text of strings that
 contain null characters

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 91b313d..dd3c3b2 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -594,7 +594,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -696,7 +696,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (new String(get_Buffer() + start, 0, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From f3c5822cb85a8d703225e084a26fb186e12600fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 56/56] fix: compare string builders over their whole text, not
 up to an embedded null character

---
 DotNetLibrary/src/StringBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6fb98e2..a56735f 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -338,9 +338,10 @@ namespace DotnetLibrary
 		return get_Capacity();
 	}
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
-		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
+		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity
+		    || sb->currentLength != currentLength)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		return wmemcmp(sb->chunkChars, chunkChars, currentLength) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
-- 
2.43.0

