From a8de5954f76f475a1e28b51475f9b6290ce18675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 01/89] fix: JSON::Serializer dropped every unescaped slash
 from strings and keys

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..f2b39cc 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -357,7 +357,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -381,7 +381,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From bd10b30081e028e3bb3602c387fdb569ab8177e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 02/89] fix: JSON::Serializer::CalculateStrSize() with a size
 measured only the first byte

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index f2b39cc..7ef2877 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From 651ef9bf8cceb10c0831e9eb081a671e6c6ce301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 03/89] fix: JSON::Serializer wrote raw control characters,
 which is not valid JSON

---
 json/json_serializer.cpp | 36 ++++++++++++++++++++++++++++++++++--
 json/json_serializer.h   |  1 +
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 7ef2877..037f440 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,13 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						if ((unsigned char)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +319,13 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						if ((unsigned char)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -347,6 +361,24 @@ namespace CubicleSoft
 			return true;
 		}
 
+		// Control characters without a short escape sequence must be written as \u00XX.
+		void Serializer::InternalAppendChar(char Val)
+		{
+			static const char HexDigits[] = "0123456789abcdef";
+
+			if ((unsigned char)Val < 0x20)
+			{
+				memcpy(MxBuffer + MxBufferPos, "\\u00", 4);
+				MxBufferPos += 4;
+				MxBuffer[MxBufferPos++] = HexDigits[(unsigned char)Val >> 4];
+				MxBuffer[MxBufferPos++] = HexDigits[(unsigned char)Val & 0x0F];
+			}
+			else
+			{
+				MxBuffer[MxBufferPos++] = Val;
+			}
+		}
+
 		// All calculations prior to calling these internal functions must be applied correctly to avoid an overflow.
 		void Serializer::InternalAppendStr(const char *Val)
 		{
@@ -364,7 +396,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 			}
 
@@ -388,7 +420,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 
 				Size--;
diff --git a/json/json_serializer.h b/json/json_serializer.h
index f07ac85..d8b61e8 100644
--- a/json/json_serializer.h
+++ b/json/json_serializer.h
@@ -83,6 +83,7 @@ namespace CubicleSoft
 
 		private:
 			bool InternalAppendNextPrefix(const char *Key, size_t ExtraSpace);
+			void InternalAppendChar(char Val);
 			void InternalAppendStr(const char *Val);
 			void InternalAppendStr(const char *Val, size_t Size);
 			static bool IntToString(char *Result, size_t Size, std::uint64_t Num);
-- 
2.43.0


From cecbeee71046438c188de405f560beb6bda083af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 04/89] fix: JSON::Serializer::AppendDouble() truncated long
 numbers and wrote inf/nan

---
 json/json_serializer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 037f440..868e931 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -171,7 +171,11 @@ namespace CubicleSoft
 
 		bool Serializer::AppendDouble(const char *Key, const double Val, const size_t Precision)
 		{
-			char TempBuffer[100];
+			// JSON has no representation for infinity and NaN.
+			if (Val - Val != 0.0)  return false;
+
+			// Large enough for every digit of any double.
+			char TempBuffer[1100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
 			TempBuffer[sizeof(TempBuffer) - 1] = '\0';
-- 
2.43.0


From a4f7995e682e62b126b783d4b97203a9138d1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 05/89] fix: Convert::Int::ToFilesizeString() overflowed
 computing the fraction of large sizes

---
 convert/convert_int.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 1712940..275e729 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -163,25 +163,16 @@ namespace CubicleSoft
 			{
 				if (x < NumFrac + 2)  return false;
 
+				// Long division, one digit at a time, to avoid overflow.  The largest remainder is less than 2^60.
 				Extra = Num % Divider;
-				for (x2 = 0; x2 < NumFrac; x2++)  Extra *= 10ULL;
-				Extra /= Divider;
-
-				while (Extra && NumFrac && x)
+				x -= NumFrac;
+				for (x2 = 0; x2 < NumFrac; x2++)
 				{
-					Result[--x] = (char)(Extra % 10) + '0';
-					Extra /= 10;
-					NumFrac--;
+					Extra *= 10ULL;
+					Result[x + x2] = (char)(Extra / Divider) + '0';
+					Extra %= Divider;
 				}
 
-				while (NumFrac && x)
-				{
-					Result[--x] = '0';
-					NumFrac--;
-				}
-
-				if (Extra || !x)  return false;
-
 				Result[--x] = DecimalSeparator;
 
 				if (!x)  return false;
-- 
2.43.0


From 6607a3b1b0205f1247773c1b5d8964e8093336f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:18 +0000
Subject: [PATCH 06/89] fix: Static2DArray::operator=() dereferenced NULL when
 the dimensions differ

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..7f10937 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
-- 
2.43.0


From 80734de8678043039e26391b3fa0a4950edc6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:18 +0000
Subject: [PATCH 07/89] fix: Static2DArray::operator==() compared elements with
 row pointers

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 7f10937..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From 4ebe8542bae0b18eac88c27790b318f085314181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:36 +0000
Subject: [PATCH 08/89] fix: OrderedHash copies were missing from their hash
 table and had a wild list pointer

---
 templates/detachable_ordered_hash_util.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..98afaec 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -71,11 +71,12 @@ public:
 		FirstListNode = NULL;
 		LastListNode = NULL;
 		OrderedHashNode<T> *Node = TempHash.FirstListNode;
-		OrderedHashNode<T> *Node2, *Node3;
+		OrderedHashNode<T> *Node2;
 		while (Node != NULL)
 		{
 			// Attach each cloned node to the end of the list.
 			Node2 = new OrderedHashNode<T>(*Node);
+			Node2->PrevListNode = NULL;
 			Node2->NextListNode = NULL;
 
 			if (FirstListNode == NULL)  FirstListNode = Node2;
@@ -92,6 +93,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -112,7 +114,7 @@ public:
 
 			if (HashNodes != NULL)  delete[] HashNodes;
 			OrderedHashNode<T> *Node = FirstListNode;
-			OrderedHashNode<T> *Node2, *Node3;
+			OrderedHashNode<T> *Node2;
 			while (Node != NULL)
 			{
 				Node2 = Node->NextListNode;
@@ -131,6 +133,7 @@ public:
 			{
 				// Attach each cloned node to the end of the list.
 				Node2 = new OrderedHashNode<T>(*Node);
+				Node2->PrevListNode = NULL;
 				Node2->NextListNode = NULL;
 
 				if (FirstListNode == NULL)  FirstListNode = Node2;
@@ -147,6 +150,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From 3b2c2466d74596613782b66ce1f8edf5928f05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 09/89] fix: OrderedHashNode copies had uninitialized link
 pointers

---
 templates/detachable_ordered_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/detachable_ordered_hash.h b/templates/detachable_ordered_hash.h
index 04ece5d..95a0cec 100644
--- a/templates/detachable_ordered_hash.h
+++ b/templates/detachable_ordered_hash.h
@@ -32,7 +32,7 @@ namespace CubicleSoft
 		}
 
 		// Only copies the data.  Pointers will still need to be set.
-		OrderedHashNode(const OrderedHashNode<T> &TempNode)
+		OrderedHashNode(const OrderedHashNode<T> &TempNode) : PrevHashNode(NULL), NextHashNode(NULL), PrevListNode(NULL), NextListNode(NULL)
 		{
 			HashKey = TempNode.HashKey;
 			IntKey = TempNode.IntKey;
-- 
2.43.0


From 4d5bf9a895990e3eb8c85213722ac1972b80520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:37 +0000
Subject: [PATCH 10/89] fix: OrderedHash::Push()/Unshift() kept stale list
 pointers of reattached nodes

---
 templates/detachable_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 98afaec..8fc4973 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -274,6 +274,7 @@ public:
 		// Insert into the list.
 		if (Next == NULL)
 		{
+			Node->NextListNode = NULL;
 			Node->PrevListNode = LastListNode;
 			if (LastListNode != NULL)  LastListNode->NextListNode = Node;
 			LastListNode = Node;
@@ -338,6 +339,7 @@ public:
 		// Insert into the list.
 		if (Prev == NULL)
 		{
+			Node->PrevListNode = NULL;
 			Node->NextListNode = FirstListNode;
 			if (FirstListNode != NULL)  FirstListNode->PrevListNode = Node;
 			FirstListNode = Node;
-- 
2.43.0


From 0c70541dae6527f6891cd7f1fe2d27a54567fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:12 +0000
Subject: [PATCH 11/89] fix: PackedOrderedHash leaked the old table on every
 resize

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..e625dda 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -510,6 +510,8 @@ private:
 
 				Node++;
 			}
+
+			delete[] (char *)ArrayNodes;
 		}
 
 		ArrayNodes = ArrayNodes2;
-- 
2.43.0


From e4aed4fff388e8469441b0f4ae85df4cd8de1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:55 +0000
Subject: [PATCH 12/89] fix: PackedOrderedHash copies ran past the end of the
 source table

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index e625dda..2ae1584 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From d72a530d50d084957a4ada518bff2ca2e1bcc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:40 +0000
Subject: [PATCH 13/89] fix: FastReplace::SetData() leaked the previous result

---
 templates/fast_find_replace_util.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..8817374 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -517,6 +517,15 @@ public:
 	// Only pass in ResultBuffer and ResultBufferSize for static buffers and replacements that will be smaller than the original.
 	void SetData(const T *Data, size_t Size, T *ResultBuffer = NULL, size_t ResultBufferSize = 0)
 	{
+		if (MxData != NULL && MxDataAllocated)
+		{
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
+			AllocType::free(MxAltMallocManager, MxData);
+#else
+			delete[] reinterpret_cast<char *>(MxData);
+#endif
+		}
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From 37cf1c4fdd1c7a4db7b0b26cb1159724f67d620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 14/89] fix: FastReplace::ReplaceAll()/StaticReplaceAll()
 dropped the data following the last replacement allowed by Limit

---
 templates/fast_find_replace_util.h | 34 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 8817374..4dbd6fa 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -720,12 +720,11 @@ public:
 
 		TempReplace.SetData(Data, DataSize);
 
-		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && TempReplace.FindNext(ElementsEqual) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && TempReplace.FindNext(UseMemcmp) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -733,6 +732,18 @@ public:
 			Num++;
 		}
 
+		// When the limit is reached, copy the rest of the data as-is.
+		if (Num == Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 		Result = TempReplace.DetachData();
 
@@ -788,12 +799,11 @@ public:
 
 		TempReplace.SetData(Data, DataSize, Result, ResultSize);
 
-		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && TempReplace.FindNext(ElementsEqual) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && TempReplace.FindNext(UseMemcmp) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -801,6 +811,18 @@ public:
 			Num++;
 		}
 
+		// When the limit is reached, copy the rest of the data as-is.
+		if (Num == Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 
 		return Num;
-- 
2.43.0


From 3e44b9421b80a631dc8fbe5af2eeb541716845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 15/89] fix: FastReplace copied overlapping memory with
 memcpy() when replacing in place (e.g. TLS::MixedVar::ReplaceData())

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 4dbd6fa..794f9c9 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -596,7 +596,7 @@ public:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
 		}
 
-- 
2.43.0


From fe1121d42603208600857c97d38f5347982d8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 16/89] fix: FastReplace::FindNext() read past the end of the
 old result when growing it

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 794f9c9..cb409d4 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -572,7 +572,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
-- 
2.43.0


From 62ddf57eddaac2041f0fa080178f22a50e2c31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 17/89] fix: UTF8::Util::ConvertToUTF8() left out code points
 that did not fit but kept shorter ones after them

---
 utf8/utf8_util.cpp | 34 +++++++++++++++++++++++++++++-----
 utf8/utf8_util.h   |  2 +-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f3aa7d8..812f19b 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -64,7 +64,7 @@ namespace CubicleSoft
 			return DestData;
 		}
 
-		bool Util::AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t MaxDestDataSize)
+		bool Util::AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize)
 		{
 			// 0xD800-0xDFFF are for UTF-16 surrogate pairs.  Invalid characters.
 			// 0xFDD0-0xFDEF are non-characters.
@@ -77,7 +77,13 @@ namespace CubicleSoft
 			if (TempCP <= 0x7F)
 			{
 				if (DestData == NULL)  DestDataSize++;
-				else if (DestDataSize >= MaxDestDataSize)  return false;
+				else if (DestDataSize >= MaxDestDataSize)
+				{
+					// Out of space.  Later code points must not fit either.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else  DestData[DestDataSize++] = (std::uint8_t)TempCP;
 
 				return true;
@@ -85,7 +91,13 @@ namespace CubicleSoft
 			else if (TempCP <= 0x07FF)
 			{
 				if (DestData == NULL)  DestDataSize += 2;
-				else if (DestDataSize + 1 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 1 >= MaxDestDataSize)
+				{
+					// Out of space.  Later code points must not fit either.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xC0 | (TempCP >> 6));
@@ -97,7 +109,13 @@ namespace CubicleSoft
 			else if (TempCP <= 0xFFFF)
 			{
 				if (DestData == NULL)  DestDataSize += 3;
-				else if (DestDataSize + 2 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 2 >= MaxDestDataSize)
+				{
+					// Out of space.  Later code points must not fit either.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xE0 | (TempCP >> 12));
@@ -110,7 +128,13 @@ namespace CubicleSoft
 			else if (TempCP <= 0x10FFFF)
 			{
 				if (DestData == NULL)  DestDataSize += 4;
-				else if (DestDataSize + 3 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 3 >= MaxDestDataSize)
+				{
+					// Out of space.  Later code points must not fit either.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xF0 | (TempCP >> 18));
diff --git a/utf8/utf8_util.h b/utf8/utf8_util.h
index 026aef8..7663b34 100644
--- a/utf8/utf8_util.h
+++ b/utf8/utf8_util.h
@@ -50,7 +50,7 @@ namespace CubicleSoft
 			static bool IsCombiningCodePoint(std::uint32_t CodePoint);
 
 		private:
-			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t MaxDestDataSize);
+			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize);
 			static bool AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t MaxDestDataSize);
 		};
 	}
-- 
2.43.0


From c80caf3ed21e183a906fb2c79ad9f54465d5cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:34 +0000
Subject: [PATCH 18/89] fix: UTF8::Util::ConvertToUTF8() reported a different
 kind of LastPos for each width and sequence length

---
 utf8/utf8_util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 812f19b..1e11469 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -179,14 +179,14 @@ namespace CubicleSoft
 					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
-						AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y);
 						x += 3;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						x += 4;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else  x++;
 				}
@@ -201,7 +201,7 @@ namespace CubicleSoft
 					TempCP = SrcData2[x];
 					if (TempCP < 0xD800 || TempCP > 0xDBFF)
 					{
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 					}
 					else
 					{
@@ -210,7 +210,7 @@ namespace CubicleSoft
 						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
 						{
 							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
-							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
+							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 						}
 					}
 				}
@@ -223,7 +223,7 @@ namespace CubicleSoft
 				{
 					TempCP = SrcData2[x];
 
-					if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
+					if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 				}
 			}
 		}
-- 
2.43.0


From 35bc636acd0e7c7dfa6e8d35dc9ceec97092eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 19/89] fix: UTF8::Util::ConvertToUTF8() dropped the valid code
 unit that follows a lone UTF-16 high surrogate

---
 utf8/utf8_util.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 1e11469..476de2e 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -203,15 +203,12 @@ namespace CubicleSoft
 					{
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 					}
-					else
+					else if (x + 1 < SrcDataSize && SrcData2[x + 1] >= 0xDC00 && SrcData2[x + 1] <= 0xDFFF)
 					{
 						x++;
 
-						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
-						{
-							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
-							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
-						}
+						TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 					}
 				}
 			}
-- 
2.43.0


From 044b2a93c76ff219e297a2102eaa67fe09ae4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:18 +0000
Subject: [PATCH 20/89] fix: UTF8::Util::ConvertFromUTF8() size calculation
 (NULL buffer) depended on the uninitialized size

---
 utf8/utf8_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 476de2e..c947ed5 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -278,7 +278,7 @@ namespace CubicleSoft
 			DestDataSize = 0;
 
 			x = 0;
-			while (x < SrcDataSize && y)
+			while (x < SrcDataSize && (y || DestData == NULL))
 			{
 				TempCP = SrcData[x];
 
-- 
2.43.0


From 15c9d0f9e814953e221c4376f89ca85a7e6d9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 21/89] fix: UTF8::Util::ConvertFromUTF8() measured the string
 with Util::strlen() and did not convert its terminator

---
 utf8/utf8_util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index c947ed5..81d3824 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -3,6 +3,8 @@
 
 #include "utf8_util.h"
 
+#include <cstring>
+
 namespace CubicleSoft
 {
 	namespace UTF8
@@ -53,7 +55,7 @@ namespace CubicleSoft
 			size_t x, y;
 			void *DestData;
 
-			x = strlen(SrcData);
+			x = std::strlen(SrcData) + 1;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, NULL, y, DestWidth);
 			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y) : new std::uint8_t[y]);
 			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, y * sizeof(uint16_t)) : new uint16_t[y]);
-- 
2.43.0


From 07886084148c85f2e75ac2b658b20f990e28c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 22/89] fix: UTF8::Util::NextCodePoint() and Util::strlen()
 called each other forever

---
 utf8/utf8_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 81d3824..019c420 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -362,7 +362,7 @@ namespace CubicleSoft
 			}
 			else
 			{
-				Size = strlen(Str);
+				Size = std::strlen(Str);
 				HasCombiningCP = false;
 
 				ResultCP = Str2[0];
-- 
2.43.0


From 1fb0279f3c730e8f423018fc51106018ea1f4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 23/89] fix: UTF8::Util::NextCodePoint() returned the lead byte
 of multi-byte sequences instead of the code point

---
 utf8/utf8_util.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 019c420..8d5adbf 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -369,9 +369,21 @@ namespace CubicleSoft
 				if (ResultCP == 0)  return false;
 
 				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  return false;
 
 				// First character can't be a combining code point.
@@ -383,9 +395,21 @@ namespace CubicleSoft
 			if (NextCP != 0)
 			{
 				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  NextCP = 0;
 			}
 
-- 
2.43.0


From f06d3efa0383deefc80f8ae2d3bdcb614049d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:59 +0000
Subject: [PATCH 24/89] fix: UTF8::Util::FindCodePoint() reported a position
 after the code point that follows the match

---
 utf8/utf8_util.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 8d5adbf..ef17fac 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -331,7 +331,7 @@ namespace CubicleSoft
 
 		bool Util::FindCodePoint(size_t &ResultPos, std::uint32_t CodePoint, const char *Str, bool AllowCombiningCP)
 		{
-			size_t x, y;
+			size_t x, y, StartPos = 0;
 			std::uint32_t ResultCP, NextCP;
 			bool HasCombiningCP;
 
@@ -342,10 +342,14 @@ namespace CubicleSoft
 			{
 				if (ResultCP == CodePoint && (AllowCombiningCP || !HasCombiningCP))
 				{
-					ResultPos = x;
+					ResultPos = StartPos;
 
 					return true;
 				}
+
+				// Move to the start of the next code point.  NextCodePoint() reads ahead.
+				StartPos++;
+				while (((std::uint8_t)Str[StartPos] & 0xC0) == 0x80)  StartPos++;
 			}
 
 			return false;
-- 
2.43.0


From b91965dd87cc349cd6b4e91b56d713c84f5b6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:42 +0000
Subject: [PATCH 25/89] fix: StaticMixedVar::PrependStr()/PrependData() refused
 data that fits exactly

---
 templates/static_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index d1d060c..3de9d2d 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -154,7 +154,7 @@ namespace CubicleSoft
 		void PrependStr(const char *str)
 		{
 			size_t y = strlen(str);
-			if (MxStrPos + y < sizeof(MxStr) - 1)
+			if (MxStrPos + y <= sizeof(MxStr) - 1)
 			{
 				memmove(MxStr + y, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, y);
@@ -164,7 +164,7 @@ namespace CubicleSoft
 
 		void PrependData(const char *str, size_t size)
 		{
-			if (MxStrPos + size < sizeof(MxStr) - 1)
+			if (MxStrPos + size <= sizeof(MxStr) - 1)
 			{
 				memmove(MxStr + size, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, size);
-- 
2.43.0


From c974b92ccae42dfc8788c79b09ca9c63cef4a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:52 +0000
Subject: [PATCH 26/89] fix: StaticMixedVar started with an unterminated string

---
 templates/static_mixed_var.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 3de9d2d..48fad3e 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -35,6 +35,7 @@ namespace CubicleSoft
 
 		StaticMixedVar() : MxMode(MV_None), MxInt(0), MxDouble(0.0), MxStrPos(0)
 		{
+			MxStr[0] = '\0';
 		}
 
 		// Some functions for those who prefer member functions over directly accessing raw class data.
-- 
2.43.0


From ebf4962eed2d1db2d923d23ca3586b796c2e6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:00 +0000
Subject: [PATCH 27/89] fix: StaticMixedVar::AppendInt() and friends dropped
 large numbers in small radixes

---
 templates/static_mixed_var.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 48fad3e..b6a598a 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -175,13 +175,13 @@ namespace CubicleSoft
 
 		void PrependInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void PrependUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
@@ -219,13 +219,13 @@ namespace CubicleSoft
 
 		void AppendInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void AppendUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
-- 
2.43.0


From dfd951a21f7f6c9d2c400be2739fb24ba0f84246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:11 +0000
Subject: [PATCH 28/89] fix: StaticMixedVar::AppendDouble()/PrependDouble() cut
 long numbers, losing the exponent

---
 templates/static_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index b6a598a..ad6d33e 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -187,7 +187,7 @@ namespace CubicleSoft
 
 		void PrependDouble(const double val, const size_t precision = 16)
 		{
-			char tempbuffer[100];
+			char tempbuffer[1100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
@@ -231,7 +231,7 @@ namespace CubicleSoft
 
 		void AppendDouble(const double val, const size_t precision = 16)
 		{
-			char tempbuffer[100];
+			char tempbuffer[1100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
-- 
2.43.0


From 21a5b295781a68e6d7a6361a19288186e4ebe47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 29/89] fix: UTF8MixedVar::SetUTF8() cut the last code point in
 half when the buffer is full

---
 utf8/utf8_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 9227fac..068849c 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -30,9 +30,9 @@ namespace CubicleSoft
 			void SetUTF8(const WCHAR *src, size_t srcsize)
 			{
 				this->MxMode = MV_Str;
-				this->MxStrPos = sizeof(this->MxStr);
+				this->MxStrPos = sizeof(this->MxStr) - 1;
 				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr, this->MxStrPos);
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 
-- 
2.43.0


From b3e81f8696905d713bfb305e0087babe45e5b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:30 +0000
Subject: [PATCH 30/89] fix: UTF8MixedVar::AppendUTF8() limited the UTF-8 size
 to the number of wide characters

---
 utf8/utf8_mixed_var.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 068849c..638e720 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -48,11 +48,9 @@ namespace CubicleSoft
 
 			void AppendUTF8(const WCHAR *src)
 			{
-				size_t srcsize = wcslen(src);
-				if (srcsize > sizeof(this->MxStr) - this->MxStrPos)  srcsize = sizeof(this->MxStr) - this->MxStrPos;
-				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, srcsize);
-				this->MxStrPos += srcsize;
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				size_t destsize = sizeof(this->MxStr) - 1 - this->MxStrPos;
+				Util::ConvertToUTF8(src, wcslen(src), sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, destsize);
+				this->MxStrPos += destsize;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 		};
-- 
2.43.0


From 1e2f584aa977111b77530c3e9f7bee90e0cf8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 31/89] fix: UTF8::File::Open() left the file open when it
 fails to lock it

Property: F01
---
 utf8/utf8_file_dir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..2c9ff5d 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1259,17 +1259,32 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From 7e0de742e2471a87738fea97b4778cb8a8463f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 32/89] fix: UTF8::File::GetPlatformFilename() refused every
 name that is not ASCII

Property: F04
---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2c9ff5d..f3a9280 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1397,7 +1397,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool)
 		{
 			// Check for invalid characters in the path/filename.  Replace '\' with '/'.
-			char TempCP;
+			std::uint8_t TempCP;
 			size_t x, y = strlen(Filename);
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
@@ -1406,7 +1406,7 @@ namespace CubicleSoft
 			// Ignore combining code points since kernels are generally not fully UTF-8 aware.
 			for (x = 0; x < y; x++)
 			{
-				TempCP = Result[x];
+				TempCP = (std::uint8_t)Result[x];
 
 				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '\\')  Result[x] = '/';
-- 
2.43.0


From 6a47fcf36c468230d779c4686c1b54a1625414ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 33/89] fix: UTF8::File::LineInput() read past the end of the
 old line when growing it

Property: F02
---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f3a9280..1c259c6 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1893,7 +1893,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From 425a6defa0e0742f1c5aa32a3d5496e5a5290ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 34/89] fix: UTF8::File::LineInput() used an uninitialized size
 when reading fails

Property: F02
---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 1c259c6..c2e3e9f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1899,7 +1899,7 @@ namespace CubicleSoft
 					}
 				}
 
-				Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize);
+				if (!Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize))  ReadSize = 0;
 				if (ReadSize < SizeHint)
 				{
 					CurrSize -= (SizeHint - ReadSize);
-- 
2.43.0


From 174c24a567677ecb739269d3cc5b815b5acfcfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 35/89] fix: UTF8::File::LineInput() never ended with a size
 hint of zero

Property: F02
---
 utf8/utf8_file_dir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c2e3e9f..408942a 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1879,6 +1879,8 @@ namespace CubicleSoft
 
 			if (!IsOpen() || !MxRead)  return NULL;
 
+			if (!SizeHint)  SizeHint = 1;
+
 			Result = NULL;
 			CurrSize = SizeHint;
 			do
-- 
2.43.0


From 88876c26dc594513bc6fbe40452cd787effa41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 36/89] fix: UTF8::File::Write() went backwards when
 interrupted and lost the position of a partial write

Property: F01
---
 utf8/utf8_file_dir.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 408942a..dc7eece 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1351,7 +1351,12 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
+				if (BytesWritten < 0)
+				{
+					if (errno == EINTR)  continue;
+
+					break;
+				}
 
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
@@ -1360,7 +1365,7 @@ namespace CubicleSoft
 			MxCurrPos += (std::uint64_t)DataWritten;
 			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
-			return true;
+			return (DataSize == 0);
 		}
 
 		bool File::Flush()
-- 
2.43.0


From db7820a9b3229ed5e9575859c2e6e4eeb03e8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 37/89] fix: UTF8::File::Write() reported the wrong position
 for files opened with O_APPEND

Property: F01
---
 utf8/utf8_file_dir.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index dc7eece..ce15e6e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1363,6 +1363,14 @@ namespace CubicleSoft
 				DataWritten += BytesWritten;
 			} while (DataSize);
 			MxCurrPos += (std::uint64_t)DataWritten;
+
+			// O_APPEND writes at the end of the file no matter what the position was.
+			if (DataWritten && (::fcntl(MxFile, F_GETFL) & O_APPEND))
+			{
+				off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
+				if (Pos >= 0)  MxCurrPos = (std::uint64_t)Pos;
+			}
+
 			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
 			return (DataSize == 0);
-- 
2.43.0


From e0a982bdc9847e471598059c55e9f7d2a366fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 38/89] fix: UTF8::File::Seek() wrapped around when seeking
 forward by a huge amount

Property: F01
---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index ce15e6e..048bec3 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1303,7 +1303,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From 9a899a3018ef9c81fd121829c0aefe4d8537bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 39/89] fix: UTF8::File::Copy() wrote garbage past the last
 block of the file

Property: F03
---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 048bec3..a7d5dd4 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1626,12 +1626,12 @@ namespace CubicleSoft
 			if (!DestFile.Open(DestFilename2, O_WRONLY | O_CREAT, File::ShareNone, SrcStat.st_mode))  return false;
 
 			std::uint8_t Buffer[8192];
-			size_t y;
+			size_t y, y2;
 
 			// Copy the data.
 			while (SrcFile.Read(Buffer, 8192, y) && y)
 			{
-				DestFile.Write(Buffer, 8192, y);
+				DestFile.Write(Buffer, y, y2);
 			}
 
 			// Truncate the file to the current point.
-- 
2.43.0


From 786f19714a17be44c5ab5f186ed4bc05500f484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 40/89] fix: UTF8::File::Copy() reported success after failing
 to read, write or truncate (and Move() then deleted the source)

Property: F03
---
 utf8/utf8_file_dir.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index a7d5dd4..33cff20 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1629,13 +1629,14 @@ namespace CubicleSoft
 			size_t y, y2;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				DestFile.Write(Buffer, y, y2);
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (!DestFile.Write(Buffer, y, y2))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
-			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
+			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) != 0)  return false;
 
 			DestFile.Close();
 			SrcFile.Close();
-- 
2.43.0


From 1a5b8597a53a153db13847c7adc5336ebe8b8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 41/89] fix: UTF8::File::Move() reported success when the
 source could not be removed

Property: F03
---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 33cff20..59aaff2 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1665,7 +1665,7 @@ namespace CubicleSoft
 			if (!Result)
 			{
 				Result = File::Copy(SrcFilename2, DestFilename2);
-				if (Result)  ::unlink(SrcFilename2);
+				if (Result)  Result = (::unlink(SrcFilename2) == 0);
 			}
 
 			return Result;
-- 
2.43.0


From 1836dbdc95f6b5811d09e2c966149f793986a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 42/89] fix: UTF8::File::Readlink() did not terminate the
 result

Property: F05
---
 utf8/utf8_file_dir.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 59aaff2..2bd167d 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1696,7 +1696,11 @@ namespace CubicleSoft
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			if (Size == -1 || (size_t)Size >= ResultSize)  return false;
+
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From 04c844dfdd78f32d98a5a5e959b0d1b93771b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 43/89] fix: UTF8::File::SetFileTimes() changed the timestamp
 it was asked to keep

Property: F05
---
 utf8/utf8_file_dir.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2bd167d..9f7ab7b 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1718,7 +1718,11 @@ namespace CubicleSoft
 			if (LastAccess == NULL)
 			{
 				TempTimes[0].tv_sec = TempStat.st_atime;
-				TempTimes[0].tv_usec = 0;
+#ifdef __APPLE__
+				TempTimes[0].tv_usec = TempStat.st_atimespec.tv_nsec / 1000;
+#else
+				TempTimes[0].tv_usec = TempStat.st_atim.tv_nsec / 1000;
+#endif
 			}
 			else
 			{
@@ -1729,7 +1733,11 @@ namespace CubicleSoft
 			if (LastUpdate == NULL)
 			{
 				TempTimes[1].tv_sec = TempStat.st_mtime;
-				TempTimes[1].tv_usec = 0;
+#ifdef __APPLE__
+				TempTimes[1].tv_usec = TempStat.st_mtimespec.tv_nsec / 1000;
+#else
+				TempTimes[1].tv_usec = TempStat.st_mtim.tv_nsec / 1000;
+#endif
 			}
 			else
 			{
-- 
2.43.0


From 82d9d31afa722543fddf2b7611f2f3b35e7bac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 44/89] fix: UTF8::File::Chgrp() looked the group up as a user

Property: F05
---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 9f7ab7b..4fe4ce4 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1603,10 +1603,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..19c8e29 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0


From 04e86f336ada42b518b73145b31a2bfbeb207b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:42 +0000
Subject: [PATCH 45/89] fix: UTF8::File::GetAbsoluteFilename() left or refused
 '.' and '..' at the start of relative names and in the base directory

Property: F04
---
 utf8/utf8_file_dir.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4fe4ce4..083d5ab 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1452,11 +1452,35 @@ namespace CubicleSoft
 		bool File::GetAbsoluteFilename(char *Result, size_t ResultSize, const char *BaseDir, const char *Filename, bool TrailingSlash)
 		{
 			char Filename2[8192], Filename3[8192];
+			size_t x, x2, y;
 
 			if (!GetPlatformFilename(Filename3, 8192, Filename))  return false;
 
+			// Start at the base directory so that '.' and '..' are resolved wherever they are.
+			if (Filename3[0] != '/')
+			{
+				if (BaseDir != NULL)
+				{
+					if (!GetPlatformFilename(Filename2, 8192, BaseDir))  return false;
+				}
+				else
+				{
+					if (!Dir::Getcwd(Filename2, 8192))  return false;
+				}
+
+				// Require the base directory to be absolute.
+				if (Filename2[0] != '/')  return false;
+
+				x = strlen(Filename2);
+				y = strlen(Filename3);
+				if (x + y >= 8191)  return false;
+				memmove(Filename3 + x + 1, Filename3, y + 1);
+				memcpy(Filename3, Filename2, x);
+				Filename3[x] = '/';
+			}
+
 			// Replace '/./' with '/'.
-			size_t x, x2, y = strlen(Filename3);
+			y = strlen(Filename3);
 			x2 = 0;
 			for (x = 0; x < y; x++)
 			{
-- 
2.43.0


From 5bb1d190db13228cd77bef382966e95c87e29f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:42 +0000
Subject: [PATCH 46/89] fix: UTF8::File::GetAbsoluteFilename() returned a cut
 off path as success when it ends in front of a slash

Property: F04
---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 083d5ab..d5e9506 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1564,6 +1564,7 @@ namespace CubicleSoft
 
 				Result[x2++] = Filename2[x];
 			}
+			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
 			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
-- 
2.43.0


From 342f4bccbfbd6f27b9d0fa5f0fdf52806f28b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 47/89] fix: UTF8::AppInfo::GetCurrentUserAppStorageDir()
 dereferenced NULL for users without a passwd entry

Property: A01
---
 utf8/utf8_appinfo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..2621319 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -181,7 +181,11 @@ namespace CubicleSoft
 			if (z2)  Buffer[0] = '\0';
 
 			const char *HomeDir = getenv("HOME");
-			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
+			if (HomeDir == NULL)
+			{
+				struct passwd *UserInfo = getpwuid(getuid());
+				if (UserInfo != NULL)  HomeDir = UserInfo->pw_dir;
+			}
 			if (HomeDir == NULL)  return false;
 
 			if (z2 < strlen(HomeDir))  return false;
-- 
2.43.0


From 710c4114066f358e618ade0b5068b254e520a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 48/89] fix:
 UTF8::AppInfo::GetCurrentUserAppStorageDir()/GetTempStorageDir() wrote one
 byte past the end of the buffer

Property: A01
---
 utf8/utf8_appinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 2621319..7d6e294 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -188,7 +188,7 @@ namespace CubicleSoft
 			}
 			if (HomeDir == NULL)  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 < strlen(HomeDir) + 1)  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
@@ -202,7 +202,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
-- 
2.43.0


From 118e5f2dce46a20bece6f3fd7929a8f21e24026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 49/89] fix: UTF8::AppInfo::GetCurrentUserAppStorageDir() read
 before the buffer when HOME is empty

Property: A01
---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 7d6e294..5591f13 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -213,7 +213,7 @@ namespace CubicleSoft
 		// Internal function to standardize a directory on *NIX.
 		bool AppInfo::GetNIXStorageDir(char *Buffer, size_t &BufferSize, const char *AppDirPrefix, const char *AppDir, size_t z, size_t z2)
 		{
-			if (z < z2 && Buffer[z - 1] != '/')  Buffer[z++] = '/';
+			if (z < z2 && (!z || Buffer[z - 1] != '/'))  Buffer[z++] = '/';
 			if (AppDir != NULL)
 			{
 				if (AppDirPrefix != NULL)
-- 
2.43.0


From 0e7e172ba89ab6f069dd236abc21107d96234f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 50/89] fix: UTF8::AppInfo refused storage directories that fit
 the buffer exactly

Property: A01
---
 utf8/utf8_appinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 5591f13..d839e11 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -225,8 +225,8 @@ namespace CubicleSoft
 
 				if (z < z2 && Buffer[z - 1] != '/')  Buffer[z++] = '/';
 			}
-			if (z < z2)  Buffer[z++] = '\0';
-			if (z == z2)  return false;
+			if (z >= z2)  return false;
+			Buffer[z++] = '\0';
 			BufferSize = z;
 
 			return true;
-- 
2.43.0


From 32edb2b54c0585cf98c9f439085e9ec945569d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 51/89] fix: UTF8::AppInfo::GetExecutableFilename() resolved a
 cut off path when the buffer is too small

Property: A01
---
 utf8/utf8_appinfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index d839e11..5ffc951 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -131,7 +131,10 @@ namespace CubicleSoft
 			char *Filename;
 			if (z > 0)
 			{
-				if ((size_t)z < z2)  Buffer[z] = '\0';
+				// The path was cut off.
+				if ((size_t)z >= z2)  return false;
+
+				Buffer[z] = '\0';
 
 				Filename = realpath(Buffer, NULL);
 			}
-- 
2.43.0


From f8fbec787e49e6894c1471dd1c027d4afa32a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 52/89] fix: UTF8::AppInfo::GetExecutablePath() took a
 backslash in the executable's name for a directory separator on *NIX

Property: A01
---
 utf8/utf8_appinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 5ffc951..a303608 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -241,7 +241,11 @@ namespace CubicleSoft
 		{
 			if (!GetExecutableFilename(Buffer, BufferSize, Argv0))  return false;
 
+#if defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)
 			while (BufferSize && Buffer[BufferSize - 1] != '/' && Buffer[BufferSize - 1] != '\\')  BufferSize--;
+#else
+			while (BufferSize && Buffer[BufferSize - 1] != '/')  BufferSize--;
+#endif
 			Buffer[BufferSize++] = '\0';
 
 			return true;
-- 
2.43.0


From c406a92b53b79fccdf3b43ce9560abdc73e3aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 53/89] fix: Security::CSPRNG::GetBytes() never ended when the
 random source fails or only returns short reads

Property: R01
---
 security/security_csprng.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..f81f23b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,18 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From e4f002ace8d54d41dbb4879440be05cfc398d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:52 +0000
Subject: [PATCH 54/89] fix: SharedLib::CallVoid() never loaded or called the
 function

Property: L01
---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From d4d62b88cdeacd3948686e1dbafbf41c0f505698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 55/89] fix: Sync::TLS::realloc() kept the old size of large
 blocks, so dup_malloc() and later calls cut them off

Property: T01
---
 sync/sync_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..fa9ec26 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -125,6 +125,9 @@ namespace CubicleSoft
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
 				Data2 = (std::uint8_t *)Data2 + 1;
+
+				// Store the new position.
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
-- 
2.43.0


From 933833c0a9da896534f5cd09dc262a657389749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 56/89] fix: Sync::TLS::malloc()/realloc() did not check for
 failing system allocations

Property: T01
---
 sync/sync_tls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index fa9ec26..a823927 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -78,6 +78,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
+
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -124,6 +126,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
+
 				Data2 = (std::uint8_t *)Data2 + 1;
 
 				// Store the new position.
@@ -133,6 +137,7 @@ namespace CubicleSoft
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
 				memcpy(Data2, Data, (1 << Pos2));
-- 
2.43.0


From 2b0228e9a8184080f0862c53316a4ca88d185a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 57/89] fix: Sync::TLS::malloc()/realloc() never returned for
 sizes above half of the address space

Property: T01
---
 sync/sync_tls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a823927..b276d37 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -67,7 +67,7 @@ namespace CubicleSoft
 
 		void *TLS::malloc(size_t Size)
 		{
-			if (Size == 0)  return NULL;
+			if (Size == 0 || Size > ((size_t)-1) / 2)  return NULL;
 
 			StaticVector<Queue<char>> *MainPtr = GetMainPtr();
 			if (MainPtr == NULL)  return NULL;
@@ -113,6 +113,7 @@ namespace CubicleSoft
 			}
 
 			if (Data == NULL)  return malloc(NewSize);
+			if (NewSize > ((size_t)-1) / 2)  return NULL;
 
 			// See if it fits in the current size.
 			size_t Pos = NormalizeBitPosition(NewSize);
-- 
2.43.0


From c7f4f5b971bdb6bf79428efe851e45c86f21ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 58/89] fix: Sync::TLS::MixedVar copies freed an uninitialized
 pointer

Property: T02
---
 sync/sync_tls.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index b276d37..21b136d 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -269,13 +269,10 @@ namespace CubicleSoft
 		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
 		{
 			MxTLS = TempVar.MxTLS;
+			MxStr = NULL;
+			MxStrPos = 0;
 
 			if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-			else
-			{
-				MxStr = NULL;
-				MxStrPos = 0;
-			}
 
 			MxMode = TempVar.MxMode;
 			MxInt = TempVar.MxInt;
-- 
2.43.0


From 4aaaad6b5193c2bb222e2e296eeddbadbf1b7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 59/89] fix: Sync::TLS::MixedVar assignments freed the old
 string with the other variable's allocator

Property: T02
---
 sync/sync_tls.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 21b136d..5ff2143 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -284,16 +284,13 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From ef3823537f6eea45e89dc3071587095b30357b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 60/89] fix: Sync::TLS::MixedVar::AppendInt() and friends
 dropped large numbers in small radixes

Property: T02
---
 sync/sync_tls.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 5ff2143..af37992 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -333,13 +333,13 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::PrependInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::PrependUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
@@ -371,13 +371,13 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::AppendUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[66];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
-- 
2.43.0


From 98a7b5273d6ee97cd2f56fef6a7e8381cb76909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 61/89] fix:
 Sync::TLS::MixedVar::AppendDouble()/PrependDouble() cut long numbers, losing
 the exponent

Property: T02
---
 sync/sync_tls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index af37992..b3e9544 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -345,7 +345,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::PrependDouble(const double val, const size_t precision)
 		{
-			char tempbuffer[100];
+			char tempbuffer[1100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
@@ -383,7 +383,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendDouble(const double val, const size_t precision)
 		{
-			char tempbuffer[100];
+			char tempbuffer[1100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
-- 
2.43.0


From 12f41d9cd062d96996b0f3b8b720bdbaa0aeeab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 62/89] fix: Sync::TLS::MixedVar::SetSize() dereferenced NULL
 for variables without a string

Property: T02
---
 sync/sync_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index b3e9544..d5533b8 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -408,7 +408,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetSize(size_t pos)
 		{
-			if (MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
+			if (MxStr == NULL || MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
 
 			MxStrPos = pos;
 			MxStr[MxStrPos] = '\0';
-- 
2.43.0


From b5e66f75ef0e7a0100ccb34c24d3e6d14c386f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 63/89] fix: Sync::TLS::MixedVar::ReplaceData() dereferenced
 NULL for variables without a string

Property: T02
---
 sync/sync_tls.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index d5533b8..db9425b 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -418,6 +418,8 @@ namespace CubicleSoft
 		{
 			size_t Num;
 
+			if (MxStr == NULL)  return 0;
+
 			if (srcsize < destsize)
 			{
 				char *Result;
-- 
2.43.0


From 7d410a3fcaacf6627657bf99c1c6568df68b3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:35 +0000
Subject: [PATCH 64/89] fix: Named sync objects opened again after all handles
 were closed unlocked their mutex twice and could be used before they were
 initialized

InitUnixNamedMem() released the mutex when it returned 0 for an existing but
unreferenced object, so another process could open and use the object while it
was being rebuilt, and UnixNamedMemReady() released the mutex again.

Property: Y05
---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..81b0f41 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -287,7 +287,8 @@ namespace CubicleSoft
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// When the object has to be rebuilt, the mutex is released by UnixNamedMemReady().
+							if (Result == 1)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From 4ab4dfb74b002ef6ddfc69c3f67a2ecc666ef78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:35 +0000
Subject: [PATCH 65/89] fix: Named sync objects opened again after all handles
 were closed were cleared past their end

Size already includes StartPos.

Property: Y05
---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 81b0f41..103400a 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,7 +280,7 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
-- 
2.43.0


From 474bc23a0aaccaa68c80dd85e958a780d24be990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 66/89] fix: Sync::Mutex::Create() left a named mutex locked
 that it replaces

Everyone else using that mutex was locked out forever.  Matches the Windows
version, which releases the mutex.

Property: Y01
---
 sync/sync_mutex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..125a43f 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -157,6 +157,8 @@ namespace CubicleSoft
 			{
 				if (MxOwnerID == Util::GetCurrentThreadID())
 				{
+					Util::ReleaseUnixSemaphore(MxPthreadMutex, NULL);
+
 					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
 					else
 					{
-- 
2.43.0


From 17312b19e9bedb3f78e1afead1c008c7f335475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 67/89] fix: Sync::Mutex::Create() leaked the previous mutex

A named mutex stayed referenced, so it was never reset to its initial state.

Property: Y01
---
 sync/sync_mutex.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index 125a43f..3594413 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -180,6 +180,19 @@ namespace CubicleSoft
 				}
 			}
 
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
+				else
+				{
+					Util::FreeUnixSemaphore(MxPthreadMutex);
+
+					delete[] MxMem;
+				}
+
+				MxMem = NULL;
+			}
+
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
 			MxNamed = (Name != NULL);
 			int Result = Util::InitUnixNamedMem(MxMem, Pos, "/Sync_Mutex", Name, TempSize);
-- 
2.43.0


From 60687b412f0c611d77d4a5586db9142874471125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 68/89] fix: Sync::Mutex::Lock() used uninitialized pointers
 when the mutex was not created

Property: Y01
---
 sync/sync_mutex.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index 3594413..8607995 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -223,6 +223,14 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
+			// Make sure the mutex exists.
+			if (MxMem == NULL)
+			{
+				pthread_mutex_unlock(&MxPthreadCritSection);
+
+				return false;
+			}
+
 			// Check to see if this mutex is already owned by the calling thread.
 			if (MxOwnerID == Util::GetCurrentThreadID())
 			{
-- 
2.43.0


From 43c94e3c8f3ab3de858822e15bb42e3f207517c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 69/89] fix: Sync::Event::Wait() lost the signal of an
 automatic event that is fired while a timed wait gives up

A thread that starts to wait after the event was fired goes to sleep because of
the other waiting thread, which then leaves without taking the signal.  Nobody
wakes up the new thread anymore.

Property: Y03
---
 sync/sync_util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 103400a..60556c9 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -581,7 +581,9 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// The event may have been fired between the timeout and regaining the mutex.
+				// Threads that arrived in the meantime wait for this thread to take the signal.
+				if (Result2 == 0 || UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
-- 
2.43.0


From f8e1851207d7b8a1093dfd14b36f6a6379993280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:48 +0000
Subject: [PATCH 70/89] fix: Sync::ReadWriteLock timed attempts waited for up
 to twice their timeout

The elapsed time was calculated in seconds instead of milliseconds.

Property: Y04
---
 sync/sync_readwritelock.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..65206cc 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -72,14 +72,14 @@ namespace CubicleSoft
 			if (MxWinRSemaphore == NULL || MxWinRSemMutex == NULL || MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Acquire the semaphore mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -88,7 +88,7 @@ namespace CubicleSoft
 			}
 
 			// Acquire the semaphore.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
@@ -121,14 +121,14 @@ namespace CubicleSoft
 			if (MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From 10f2dbc4f031334d50d0bb95d070b42312fec583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:48 +0000
Subject: [PATCH 71/89] fix: Sync::SharedMem::First() stayed true when Create()
 is called again and opens an existing object

Property: Y05
---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..a557dbe 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From 9e287da23fba92dd39799331bf97a580a8dfd0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:48 +0000
Subject: [PATCH 72/89] fix: Sync::SharedMem::GetSize() kept the old size when
 Create() fails

Property: Y05
---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index a557dbe..abd8e9c 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -88,6 +88,7 @@ namespace CubicleSoft
 			MxMemInternal = NULL;
 			MxMem = NULL;
 			MxFirst = false;
+			MxSize = 0;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From 13130d63e47f32550a027c83fcaecfe292439005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:48 +0000
Subject: [PATCH 73/89] fix: Creating a named sync object never returned after
 an earlier attempt failed to map it

The object was left behind uninitialized and everyone else waits for its
initialization.

Property: Y05
---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 60556c9..50586b5 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -221,7 +221,13 @@ namespace CubicleSoft
 					}
 
 					ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
-					if (ResultMem == MAP_FAILED)  ResultMem = NULL;
+					if (ResultMem == MAP_FAILED)
+					{
+						ResultMem = NULL;
+
+						// Nobody is going to initialize the object.
+						shm_unlink(Name2);
+					}
 					else
 					{
 						pthread_mutexattr_t MutexAttr;
-- 
2.43.0


From 2104cea87114ec0feb4707c8e7d82ec6d7633dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 74/89] fix: Sync::ReadWriteLock attempts failed on a free lock
 when their time was up halfway

ReadLock(0) and WriteLock(0) failed without trying the second part of the lock
when the clock ticked during the call.

Property: Y04
---
 sync/sync_readwritelock.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index 65206cc..90e10ca 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -80,7 +80,7 @@ namespace CubicleSoft
 
 			// Acquire the semaphore mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRSemMutex, (Wait > CurrTime - StartTime ? Wait - (DWORD)(CurrTime - StartTime) : 0)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
 
@@ -89,7 +89,7 @@ namespace CubicleSoft
 
 			// Acquire the semaphore.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRSemaphore, (Wait > CurrTime - StartTime ? Wait - (DWORD)(CurrTime - StartTime) : 0)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -129,7 +129,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRWaitEvent, (Wait > CurrTime - StartTime ? Wait - (DWORD)(CurrTime - StartTime) : 0)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
 
@@ -269,7 +269,7 @@ namespace CubicleSoft
 
 			// Acquire the counter mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixSemaphore(MxPthreadRCountMutex, (Wait > CurrTime - StartTime ? Wait - (std::uint32_t)(CurrTime - StartTime) : 0)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
@@ -309,7 +309,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixEvent(MxPthreadRWaitEvent, (Wait > CurrTime - StartTime ? Wait - (std::uint32_t)(CurrTime - StartTime) : 0)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
-- 
2.43.0


From ff9b00c7d2453858c343c7472db5b8b05dd8412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 75/89] fix: Threads creating named sync objects at the same
 time made them inaccessible to other users and lost the umask

Each thread saved, cleared and restored the mask of the whole process.

Property: Y05
---
 sync/sync_util.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 50586b5..dfea996 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -211,8 +211,14 @@ namespace CubicleSoft
 				std::uint32_t *RefCountPtr;
 
 				// Attempt to create the named shared memory object.
+				// The mask applies to the whole process.
+				static pthread_mutex_t MaskMutex = PTHREAD_MUTEX_INITIALIZER;
+				pthread_mutex_lock(&MaskMutex);
 				mode_t PrevMask = umask(0);
 				int fp = shm_open(Name2, O_RDWR | O_CREAT | O_EXCL, 0666);
+				umask(PrevMask);
+				pthread_mutex_unlock(&MaskMutex);
+
 				if (fp > -1)
 				{
 					// Ignore platform errors (for now).
@@ -300,8 +306,6 @@ namespace CubicleSoft
 						close(fp);
 					}
 				}
-
-				umask(PrevMask);
 			}
 
 			return Result;
-- 
2.43.0


From e876df3b5688f3577bbf1ffdf57ed5126abedd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:44 +0000
Subject: [PATCH 76/89] fix: Sync::SharedMem objects shared memory with objects
 of the same name whose size rounds up to the same multiple

Name + Size is supposed to be a unique key.

Property: Y05
---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index dfea996..ad015f0 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -127,6 +127,7 @@ namespace CubicleSoft
 			// Next few bytes are a shared mutex object.
 			// Size bytes follow for whatever.
 			Size += StartPos;
+			size_t NameSize = Size;
 			Size = AlignUnixSize(Size);
 
 			if (Name == NULL)
@@ -155,7 +156,7 @@ namespace CubicleSoft
 					}
 				}
 
-				sprintf(Nums, "-%u-%u-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned int)Size);
+				sprintf(Nums, "-%u-%u-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned int)NameSize);
 
 				y = strlen(Nums);
 				for (x = 0; x < y; x++)
-- 
2.43.0


From 6242b1f52d498536359c2fc45fcdb7f7cab5c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:50 +0000
Subject: [PATCH 77/89] fix: Sync::Semaphore and Sync::Mutex stayed locked
 internally when a timed wait cannot read the clock

Property: Y02
---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index ad015f0..6a12208 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -423,7 +423,13 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
+
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From 26a43cc6e33fa89c7692e6261d209b2fbc976a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 78/89] fix: Sync::TLS::realloc() and dup_malloc() lost the
 data of blocks of 2 GB and more

The block sizes were calculated with an int shift.

Property: T01
---
 sync/sync_tls.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index db9425b..2815e1c 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -141,7 +141,7 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -155,7 +155,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = (size_t)1 << ((std::uint8_t *)Data)[-1];
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
@@ -201,7 +201,7 @@ namespace CubicleSoft
 			else
 			{
 				Nodes = (*MainPtr)[Num].GetSize();
-				Size = (size_t)(1 << Num);
+				Size = (size_t)1 << Num;
 				if (Size < sizeof(QueueNode<char>))  Size = sizeof(QueueNode<char>);
 				Size *= Nodes;
 			}
-- 
2.43.0


From fb8a931a09d682ef0fb5875acf9b6b5d1e43cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 79/89] fix: PackedOrderedHash values such as short
 std::strings were corrupted when the hash grew, shrank or was compacted

Values were moved in memory without their constructors.

Property: H02
---
 templates/packed_ordered_hash.h      | 25 +++++++++++++++++++++++++
 templates/packed_ordered_hash_util.h |  8 ++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/templates/packed_ordered_hash.h b/templates/packed_ordered_hash.h
index 59921c5..86fa680 100644
--- a/templates/packed_ordered_hash.h
+++ b/templates/packed_ordered_hash.h
@@ -9,6 +9,8 @@
 #include <cstddef>
 #include <cstring>
 #include <new>
+#include <type_traits>
+#include <utility>
 
 namespace CubicleSoft
 {
@@ -29,6 +31,29 @@ namespace CubicleSoft
 		inline size_t GetStrLen() { return *(size_t *)(StrKey - sizeof(size_t)); }
 
 	private:
+		// Moves another node to this uninitialized node.
+		inline void MoveFrom(PackedOrderedHashNode<T> *Node)
+		{
+			PrevHashIndex = Node->PrevHashIndex;
+			NextHashIndex = Node->NextHashIndex;
+			IntKey = Node->IntKey;
+			StrKey = Node->StrKey;
+
+			MoveValueFrom(Node, std::is_move_constructible<T>());
+		}
+
+		inline void MoveValueFrom(PackedOrderedHashNode<T> *Node, std::true_type)
+		{
+			new (&Value) T(std::move(Node->Value));
+			Node->Value.~T();
+		}
+
+		// Raw copy values that can't be moved or copied.
+		inline void MoveValueFrom(PackedOrderedHashNode<T> *Node, std::false_type)
+		{
+			memcpy((void *)&Value, (void *)&Node->Value, sizeof(T));
+		}
+
 		std::uint32_t PrevHashIndex;
 		std::uint32_t NextHashIndex;
 
diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 2ae1584..5db33ef 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -386,8 +386,8 @@ public:
 		{
 			if (Node2->PrevHashIndex != 0xFFFFFFFF)
 			{
-				// Raw copy node.
-				memcpy(Node, Node2, sizeof(PackedOrderedHashNode<T>));
+				// Move node.
+				Node->MoveFrom(Node2);
 
 				// Update node hash indexes.
 				if (Node->PrevHashIndex & 0x80000000)  HashNodes[Node->PrevHashIndex & 0x7FFFFFFF] = x;
@@ -492,8 +492,8 @@ private:
 			{
 				if (Node->PrevHashIndex != 0xFFFFFFFF)
 				{
-					// Raw copy node.
-					memcpy(Node2, Node, sizeof(PackedOrderedHashNode<T>));
+					// Move node.
+					Node2->MoveFrom(Node);
 
 					HashKey = (Node2->StrKey != NULL ? (std::uint64_t)Node2->IntKey : GetHashKey((const std::uint8_t *)&Node2->IntKey, sizeof(std::int64_t)));
 
-- 
2.43.0


From 4fb007ac93e358eceaf2028f97acbfe590ff0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:19 +0000
Subject: [PATCH 80/89] fix: PackedOrderedHash::Set() used a freed value when
 the value of another entry of the hash was passed

Property: H02
---
 templates/packed_ordered_hash_util.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 5db33ef..c8b544d 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -213,6 +213,16 @@ public:
 
 	inline PackedOrderedHashNode<T> *Set(const std::int64_t IntKey, const T &Value)
 	{
+		// Nodes may move, including the one that contains the value.
+		if (NextNodePos == NumNodes)
+		{
+			T TempValue(Value);
+			PackedOrderedHashNode<T> *TempNode = Set(IntKey);
+			TempNode->Value = TempValue;
+
+			return TempNode;
+		}
+
 		PackedOrderedHashNode<T> *Node = Set(IntKey);
 		Node->Value = Value;
 
@@ -257,6 +267,16 @@ public:
 
 	inline PackedOrderedHashNode<T> *Set(const char *StrKey, const size_t StrLen, const T &Value)
 	{
+		// Nodes may move, including the one that contains the value.
+		if (NextNodePos == NumNodes)
+		{
+			T TempValue(Value);
+			PackedOrderedHashNode<T> *TempNode = Set(StrKey, StrLen);
+			TempNode->Value = TempValue;
+
+			return TempNode;
+		}
+
 		PackedOrderedHashNode<T> *Node = Set(StrKey, StrLen);
 		Node->Value = Value;
 
-- 
2.43.0


From e9173a0e80d419592c3e8a1ac72ad79f1b4bdf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 81/89] fix: StaticMixedVar corrupted its text when appending
 or prepending its own text

Property: M01
---
 templates/static_mixed_var.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index ad6d33e..6bbe13a 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -158,7 +158,7 @@ namespace CubicleSoft
 			if (MxStrPos + y <= sizeof(MxStr) - 1)
 			{
 				memmove(MxStr + y, MxStr, MxStrPos + 1);
-				memcpy(MxStr, str, y);
+				memcpy(MxStr, (str >= MxStr && str <= MxStr + MxStrPos ? MxStr + y + (str - MxStr) : str), y);
 				MxStrPos += y;
 			}
 		}
@@ -168,7 +168,7 @@ namespace CubicleSoft
 			if (MxStrPos + size <= sizeof(MxStr) - 1)
 			{
 				memmove(MxStr + size, MxStr, MxStrPos + 1);
-				memcpy(MxStr, str, size);
+				memcpy(MxStr, (str >= MxStr && str <= MxStr + MxStrPos ? MxStr + size + (str - MxStr) : str), size);
 				MxStrPos += size;
 			}
 		}
@@ -200,11 +200,7 @@ namespace CubicleSoft
 
 		void AppendStr(const char *str)
 		{
-			while (MxStrPos < sizeof(MxStr) - 1 && *str)
-			{
-				MxStr[MxStrPos++] = *str++;
-			}
-			MxStr[MxStrPos] = '\0';
+			AppendData(str, strlen(str));
 		}
 
 		void AppendData(const char *str, size_t size)
-- 
2.43.0


From 02f806f8006628e971d847d1be529e54333411ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 82/89] fix: Sync::TLS::MixedVar used freed memory when setting
 or appending its own text

Property: T02
---
 sync/sync_tls.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 2815e1c..6d69caf 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -302,10 +302,11 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetData(const char *str, size_t size)
 		{
+			char *str2 = (char *)MxTLS->malloc(size + 1);
+			memcpy(str2, str, size);
 			MxMode = TMV_Str;
 			if (MxStr != NULL)  MxTLS->free(MxStr);
-			MxStr = (char *)MxTLS->malloc(size + 1);
-			memcpy(MxStr, str, size);
+			MxStr = str2;
 			MxStrPos = size;
 			MxStr[MxStrPos] = '\0';
 		}
@@ -358,7 +359,11 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendData(const char *str, size_t size)
 		{
+			bool inside = (MxStr != NULL && str >= MxStr && str <= MxStr + MxStrPos);
+			size_t pos = (inside ? (size_t)(str - MxStr) : 0);
+
 			MxStr = (char *)MxTLS->realloc(MxStr, MxStrPos + size + 1);
+			if (inside)  str = MxStr + pos;
 			memcpy(MxStr + MxStrPos, str, size);
 			MxStrPos += size;
 			MxStr[MxStrPos] = '\0';
-- 
2.43.0


From d7afffc1aed889330819d56665124346206dfad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:58 +0000
Subject: [PATCH 83/89] fix: JSON::Serializer::AppendDouble() wrote invalid
 JSON in locales with another decimal separator

Property: J01
---
 json/json_serializer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 868e931..af57828 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -183,7 +183,15 @@ namespace CubicleSoft
 			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)Precision, Val);
 #endif
 
-			size_t x = strlen(TempBuffer);
+			// JSON always uses '.' but the C library uses the decimal separator of the current locale.
+			size_t x = 0;
+			for (size_t y = 0; TempBuffer[y]; y++)
+			{
+				if ((TempBuffer[y] >= '0' && TempBuffer[y] <= '9') || TempBuffer[y] == '-' || TempBuffer[y] == '+' || TempBuffer[y] == 'e')  TempBuffer[x++] = TempBuffer[y];
+				else if (!x || TempBuffer[x - 1] != '.')  TempBuffer[x++] = '.';
+			}
+			TempBuffer[x] = '\0';
+
 			if (!InternalAppendNextPrefix(Key, x))  return false;
 
 			strcpy((char *)MxBuffer + MxBufferPos, TempBuffer);
-- 
2.43.0


From 93abf290112f7b8dba7964f81bfab2ef51e307e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:55 +0000
Subject: [PATCH 84/89] fix: Convert::Int::ToFilesizeString() wrote outside its
 buffer for an enormous number of fraction digits

---
 convert/convert_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 275e729..aa7e61a 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -161,7 +161,7 @@ namespace CubicleSoft
 
 			if (NumFrac)
 			{
-				if (x < NumFrac + 2)  return false;
+				if (x < 2 || NumFrac > x - 2)  return false;
 
 				// Long division, one digit at a time, to avoid overflow.  The largest remainder is less than 2^60.
 				Extra = Num % Divider;
-- 
2.43.0


From a327d05bf3e7d0e30ee33281c6c9900510f03788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:55 +0000
Subject: [PATCH 85/89] fix: JSON::Serializer wrote outside a buffer of size 0
 and through a missing buffer

Property: J02
---
 json/json_serializer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index af57828..e1241c9 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -27,9 +27,10 @@ namespace CubicleSoft
 
 		void Serializer::SetBuffer(std::uint8_t *Buffer, size_t BufferSize)
 		{
-			MxBuffer = Buffer;
+			// A buffer without room for the terminator can't be used.
+			MxBuffer = (BufferSize ? Buffer : NULL);
 			MxBufferPos = 0;
-			MxBufferSize = BufferSize - 1;
+			MxBufferSize = (MxBuffer != NULL ? BufferSize - 1 : 0);
 		}
 
 		bool Serializer::StartObject(const char *Key)
@@ -205,7 +206,7 @@ namespace CubicleSoft
 			if (Val == NULL)  return false;
 
 			size_t x = CalculateStrSize(Val, false);
-			if ((MxModes[MxModeDepth] != ModeStr && !InternalAppendNextPrefix(Key, x)) || (MxModes[MxModeDepth] == ModeStr && MxBufferPos + x > MxBufferSize))  return false;
+			if ((MxModes[MxModeDepth] != ModeStr && !InternalAppendNextPrefix(Key, x)) || (MxModes[MxModeDepth] == ModeStr && (MxBuffer == NULL || MxBufferPos + x > MxBufferSize)))  return false;
 
 			InternalAppendStr(Val);
 
@@ -217,7 +218,7 @@ namespace CubicleSoft
 			if (Val == NULL)  return false;
 
 			size_t x = CalculateStrSize(Val, Size, false);
-			if ((MxModes[MxModeDepth] != ModeStr && !InternalAppendNextPrefix(Key, x)) || (MxModes[MxModeDepth] == ModeStr && MxBufferPos + x > MxBufferSize))  return false;
+			if ((MxModes[MxModeDepth] != ModeStr && !InternalAppendNextPrefix(Key, x)) || (MxModes[MxModeDepth] == ModeStr && (MxBuffer == NULL || MxBufferPos + x > MxBufferSize)))  return false;
 
 			InternalAppendStr(Val, Size);
 
@@ -226,7 +227,7 @@ namespace CubicleSoft
 
 		bool Serializer::Append(const char *Val, size_t Size)
 		{
-			if (MxBufferPos + Size > MxBufferSize || Val == NULL)  return false;
+			if (MxBuffer == NULL || MxBufferPos + Size > MxBufferSize || Val == NULL)  return false;
 
 			while (Size)
 			{
-- 
2.43.0


From 11a382af7e7adb5250efe6caf436b506eade9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 86/89] fix: UTF8::File::LineInput() split lines in two when a
 read returns less than requested

---
 utf8/utf8_file_dir.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index d5e9506..5911fc9 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1952,7 +1952,15 @@ namespace CubicleSoft
 					}
 				}
 
-				if (!Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize))  ReadSize = 0;
+				// Reads may return less than requested before the end of the file is reached.
+				x = 0;
+				do
+				{
+					if (!Read((std::uint8_t *)(Result + CurrSize - SizeHint + x), SizeHint - x, ReadSize))  ReadSize = 0;
+					x += ReadSize;
+				} while (ReadSize && x < SizeHint);
+				ReadSize = x;
+
 				if (ReadSize < SizeHint)
 				{
 					CurrSize -= (SizeHint - ReadSize);
-- 
2.43.0


From bf6cb978e49d1a37ee07b2afc9d722fab81b01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:16 +0000
Subject: [PATCH 87/89] fix: File::GetAbsoluteFilename resolves absolute names
 without a current directory

---
 utf8/utf8_file_dir.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 5911fc9..c8005c3 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1515,7 +1515,9 @@ namespace CubicleSoft
 				}
 				else
 				{
-					if (!Dir::Getcwd(Filename2, 8192))  return false;
+					// The filename is absolute by now and does not depend on the current directory.
+					Filename2[0] = '/';
+					Filename2[1] = '\0';
 				}
 
 				// Require the base directory to be absolute.
-- 
2.43.0


From 1d0908d30fb31f4a9387079e499b0cd8fdf87910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 88/89] fix: JSON::Serializer with a maximum depth of zero
 wrote outside its memory

---
 json/json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index e1241c9..a08845e 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -11,7 +11,7 @@ namespace CubicleSoft
 	namespace JSON
 	{
 		Serializer::Serializer(const bool EscapeSlashes, const char *KeySplitter, const char *ValSplitter, size_t MaxDepth)
-			: MxModes(MaxDepth), MxModeDepth(0), MxBuffer(NULL), MxBufferPos(0), MxBufferSize(0), MxEscapeSlashes(EscapeSlashes), MxKeySplitter(KeySplitter), MxValSplitter(ValSplitter)
+			: MxModes(MaxDepth ? MaxDepth : 1), MxModeDepth(0), MxBuffer(NULL), MxBufferPos(0), MxBufferSize(0), MxEscapeSlashes(EscapeSlashes), MxKeySplitter(KeySplitter), MxValSplitter(ValSplitter)
 		{
 			MxModes[0] = ModeRootFirst;
 			MxKeySplitterLen = strlen(KeySplitter);
-- 
2.43.0


From 0ff667474a415e85c4431ca79f8f5db118b5cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 89/89] fix: OrderedHash with an estimated size of zero divided
 by zero

---
 templates/detachable_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 8fc4973..94ccd39 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -24,7 +24,7 @@ public:
 #endif
 		(size_t EstimatedSize = 23, std::uint64_t HashKey = 5381) : UseSipHash(false), Key1(HashKey), Key2(0), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : 1);
 	}
 
 	// Keys are securely hashed via SipHash-2-4.
@@ -36,7 +36,7 @@ public:
 #endif
 		(size_t EstimatedSize, std::uint64_t HashKey1, std::uint64_t HashKey2) : UseSipHash(true), Key1(HashKey1), Key2(HashKey2), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : 1);
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
-- 
2.43.0

