From 64fc700816671d80e32c3b507d536f65b0a59224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 01/96] fix: UTF8Len must not read past a NUL that truncates a
 UTF-8 sequence

---
 include/char_encoding.h | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..4d7fa7d 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,30 +155,22 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
-		// Fall through
-	case 1:
-		return len;
-	case 0:
-	default:					// Cannot happen, but keep the compiler happy
-	illegal:
+	int len = UTF8CorrectLen(*cp);
+	if (len == 0)
+		goto illegal;
+	// Check the following bytes in order, to not look past a NUL (or other 1st byte) that cuts the sequence short:
+	for (int i = 1; i < len; i++)
+		if (UTF8Is1st(cp[i]))
+			goto illegal;
+	return len;
+
+illegal:
 #if defined(UTF8_ASSERT)
-		assert(!"Illegal or unsupported UTF-8 sequence");
-		return 0;
+	assert(!"Illegal or unsupported UTF-8 sequence");
+	return 0;
 #else
-		return 1;		// Use a replacement character
+	return 1;		// Use a replacement character
 #endif
-	}
 }
 
 inline UCS4
-- 
2.43.0


From d27dacd412c2c327a4fea6f1d7cd65260fb80d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 02/96] fix: UTF8Backup must treat a truncated sequence as
 UTF8Get does, as separate illegal bytes

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 4d7fa7d..026b591 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -241,8 +241,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8Len(sp) >= cp-sp)
+				return sp;		// Legal UTF8 sequence that reaches (at least) to cp
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From 79abb594cddca7f9b0e7b2e95cde09168d737461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 03/96] fix: UTF8PutPaddedZero chose the lead byte of the next
 longer sequence

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 026b591..d264df3 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -254,7 +254,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 2e6e11c070f1741e7565c39c9b5e1c01d8850099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 04/96] fix: a title-case digraph is its own title case, not
 the upper-case digraph

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From ad863678c5c7f282ed09ced8b2e6781745588136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 05/96] fix: UCS4Digit never reached its ideographic zero and
 Hangzhou numerals

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..29fb87d 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From bfffe35d9f8427c03805d83ee64761541d313629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 06/96] fix: slicing up to the end of an array failed an
 assertion

---
 include/array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..619b344 100644
--- a/include/array.h
+++ b/include/array.h
@@ -441,11 +441,10 @@ public:
 			}
 #endif
 
-	ArrayR(Body* body, Index offs, Index len)
-			: body(body), offset(offs), num_elements(len)
+	ArrayR(Body* _body, Index offs, Index len)
+			: body(_body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs+len <= (_body ? _body->length() : 0));
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From f621326dcf9aff76e9324049e5ed6678fbda6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 07/96] fix: push, insert and remove on an unshared slice
 ignored its offset in the body

---
 include/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index 619b344..946572f 100644
--- a/include/array.h
+++ b/include/array.h
@@ -210,7 +210,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -231,7 +231,7 @@ public:
 	ArrayR&		operator+=(const Element& addend)
 			{
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &addend, 1);
 				num_elements++;
 				return *this;
 			}
@@ -269,7 +269,7 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
+				body->insert(offset+pos, addend.asElements(), addend.length());
 				num_elements += addend.length();
 				return *this;
 			}
-- 
2.43.0


From 3eecf8578dd4eaa31850f2c4abf01cc979f57dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 08/96] fix: inserting an array into itself used its storage
 after freeing it

---
 include/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array.h b/include/array.h
index 946572f..f58a867 100644
--- a/include/array.h
+++ b/include/array.h
@@ -247,6 +247,12 @@ public:
 			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
+				if (&addend == this)
+				{		// Inserting into ourself; the copy will make us Unshare
+					const ArrayR	copy(addend);
+					return insert(pos, copy);
+				}
+
 				if ((Body*)body == (Body*)addend.body)	// From the same body
 				{
 					// Handle the rare but important cases of extending a slice
-- 
2.43.0


From 4c5be43e1ba90b23f3d3c5523ec864eccb9f1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 09/96] fix: appending arrays, unshift, reverse, elem_ref and
 last_ref did not compile when used

---
 include/array.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index f58a867..0259231 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
@@ -244,7 +245,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if (&addend == this)
@@ -280,7 +281,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -288,8 +289,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
@@ -453,7 +454,8 @@ public:
 				assert(offs+len <= (_body ? _body->length() : 0));
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From 341121ac74f68962b9a40f6dea4317100489bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 10/96] fix: Array::rfind never looked at the first element,
 and looked past the end of the slice

---
 include/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index 0259231..588b126 100644
--- a/include/array.h
+++ b/include/array.h
@@ -151,8 +151,8 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (*bp == e)
+				for (const Element* bp = dp + (before < 0 || before > num_elements ? num_elements : before); bp > dp;)
+					if (*--bp == e)
 						return bp-dp;
 				return -1;				// Not found
 			}
@@ -381,8 +381,8 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (match(*bp))
+				for (const Element* bp = dp + (before < 0 || before > num_elements ? num_elements : before); bp > dp;)
+					if (match(*--bp))
 						return bp-dp;
 				return -1;				// Not found
 			}
-- 
2.43.0


From ce7a9037abb846d10b6522810c9c15faad45caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 11/96] fix: Array::compare found an array equal to its own
 prefix

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index 588b126..ffb1605 100644
--- a/include/array.h
+++ b/include/array.h
@@ -100,6 +100,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
-- 
2.43.0


From 8df4e167bc6e3d03856fd806db89b2f134646677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 12/96] fix: Array::bsearch probed past the end of the slice
 and skipped elements

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index ffb1605..01bde59 100644
--- a/include/array.h
+++ b/include/array.h
@@ -426,12 +426,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;	// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From 5e5b0e0b928b8b42c30d4fc8113c688f4cfaa18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 13/96] fix: searching or iterating over an empty array
 dereferenced its null body

---
 include/array.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/array.h b/include/array.h
index 01bde59..54e401a 100644
--- a/include/array.h
+++ b/include/array.h
@@ -142,7 +142,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -151,7 +151,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 || before > num_elements ? num_elements : before); bp > dp;)
 					if (*--bp == e)
@@ -329,7 +329,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -338,7 +338,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -347,7 +347,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -356,7 +356,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -372,7 +372,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -381,7 +381,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 || before > num_elements ? num_elements : before); bp > dp;)
 					if (match(*--bp))
@@ -393,7 +393,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -404,7 +404,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -413,7 +413,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -421,7 +421,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From 46fbe522eb2757c6f189a815338f1091233a81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 14/96] fix: Array::delete_if never deleted anything

---
 include/array.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/array.h b/include/array.h
index 54e401a..53a5aa6 100644
--- a/include/array.h
+++ b/include/array.h
@@ -305,24 +305,26 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	bp = dp;			// Output pointer
+				Element*	ep = dp+num_elements;		// End of our slice
+				for (Element* sp = dp; sp < ep; sp++, bp++)
 					if (condition(*sp))
 					{
 						if (isShared())
 						{
+							Element*	old = dp;
 							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
+							dp = body->data()+offset;
+							bp = dp + (bp-old);
+							ep = dp + (ep-old);
+							sp = dp + (sp-old);
 						}
 						bp--;	// Skip this element in the output
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+					else if (bp != sp)
+						*bp = *sp;
+				num_elements -= (ep-bp);
 				return *this;
 			}
 
-- 
2.43.0


From 0bafd4b08d1d44948c7a9992cc50142922b44f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 15/96] fix: Array::tail and shorter of more elements than
 there are were not clamped

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 53a5aa6..fd9dbfd 100644
--- a/include/array.h
+++ b/include/array.h
@@ -135,9 +135,9 @@ public:
 	Self		head(Index num_elem) const
 			{ return slice(0, num_elem); }
 	Self		tail(Index num_elem) const
-			{ return slice(length()-num_elem, num_elem); }
+			{ return num_elem < length() ? slice(length()-num_elem, num_elem) : slice(0); }
 	Self		shorter(Index num_elem) const	// all elements up to tail
-			{ return slice(0, length()-num_elem); }
+			{ return slice(0, num_elem < length() ? length()-num_elem : 0); }
 
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
-- 
2.43.0


From 8d2fcd311cc342a1cd753fafb09f36192821d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 16/96] fix: a string made from counted bytes read one byte
 beyond them

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..fd4bc20 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -78,13 +78,13 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(data, dt != StrStatic, length == 0 ? strlen(data)+1 : dt == StrStatic ? length+1 : length, allocate > length ? allocate : length+1)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
 				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+					Body::insert(num_elements, "", 1);	// We didn't copy a NUL, so add one
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From 52d9e1ce055e89aaa9fec2a1ae781af674c35e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 17/96] fix: copying a substring made a bookmark from before
 its start point outside it

---
 include/strval.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fd4bc20..94af9a0 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -799,8 +799,13 @@ private:
 				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				if (savemark.char_num > offset)			// Restore the bookmark, if it's inside this substring
+				{
+					mark.char_num = savemark.char_num - offset;
+					mark.byte_num = savemark.byte_num - prefix_bytes;
+				}
+				else
+					mark = Bookmark();
 				offset = 0;
 			}
 
-- 
2.43.0


From 2701151bf4ecc6c3570bdf440e060c0f845b14e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 18/96] fix: changing a substring that is the last reference to
 its body used the wrong part of the body

---
 include/strval.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 94af9a0..0a38b2c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -811,10 +811,10 @@ private:
 
 	void		Unshare()
 			{
-				// A substring on Unallocated memory which is the last remaining ref
-				// cannot be terminated correctly, so must be copied even if unshared
-				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// A substring which is the last remaining ref must be copied even if unshared,
+				// because mutation works on the whole Body
+				bool	must_copy_part = offset > 0 || offset+length() < body->numChars();
+				if (must_copy_part || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From b1ce4c7cd7dd3c9399fe41ef7be7047c73829bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 19/96] fix: a bookmark survived changes to the text before it

---
 include/strval.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 0a38b2c..c8341e1 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -700,7 +700,7 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				mark = Bookmark();		// REVISIT: Only necessary if it's after the insertion point
 				num_chars += addend.length();
 				return *this;
 			}
@@ -716,6 +716,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -723,6 +724,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -732,6 +734,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
-- 
2.43.0


From 841e6d3ef871b052cd51f8aa5eed655170a0def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 20/96] fix: inserting a string into itself used its storage
 after freeing it

---
 include/strval.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index c8341e1..ba11dca 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -685,6 +685,12 @@ public:
 
 	StrValI&	insert(Index pos, const StrValI& addend)
 			{
+				if (&addend == this)
+				{		// Inserting into ourself; the copy will make us Unshare
+					const StrValI	copy(addend);
+					return insert(pos, copy);
+				}
+
 				// Handle the rare but important case of extending a slice with a contiguous slice of the same body
 				if (pos == length()			// Appending at the end
 				 && static_cast<Body*>(body) == static_cast<Body*>(addend.body)	// From the same body
-- 
2.43.0


From e0f4b4236b9e96962ddc69a2fa19b4cdafb41971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 21/96] fix: comparing strings looked beyond the end of the
 shorter one

---
 include/strval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index ba11dca..a23af9f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -875,10 +875,14 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index	bytes = numBytes();
+		Index	comparand_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes < comparand_bytes ? -1 : bytes > comparand_bytes;
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From e7281f7dbd3cc5dbb5cee2bcf55276b1fbc28919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 22/96] fix: searching a string for characters looked at the
 character after its end

---
 include/strval.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index a23af9f..6169d4e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -507,7 +507,7 @@ public:
 			}
 	int		rfind(UCS4 ch, int before = -1) const
 			{
-				Index		n = (before == -1 ? length() : before)-1; // First Index we'll look at
+				Index		n = ((Index)before > length() ? length() : before)-1; // First Index we'll look at
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
@@ -558,7 +558,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -571,7 +571,7 @@ public:
 			}
 	int		rfindAny(const StrValI& s1, int before = -1) const
 			{
-				Index		n = before == -1 ? length()-1 : before-1;	// First Index we'll look at
+				Index		n = ((Index)before > length() ? length() : before)-1;	// First Index we'll look at
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
@@ -589,7 +589,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -604,7 +604,7 @@ public:
 			}
 	int		rfindNot(const StrValI& s1, int before = -1) const
 			{
-				Index		n = (before == -1 ? length() : before)-1;	// First Index we'll look at
+				Index		n = ((Index)before > length() ? length() : before)-1;	// First Index we'll look at
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
-- 
2.43.0


From 383a4d9a935d56567536872a33d5abdcb7120525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 23/96] fix: searching for a substring looked beyond the end of
 the string, and from position 0 backwards searched all of it

---
 include/strval.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 6169d4e..0724b76 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -525,11 +525,12 @@ public:
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
+				const char*	ep = nthChar(length());
 				const char*	up;
-				while (n <= last_start && (up = nthChar(n)) != 0)
+				while (s1.length() <= length() && n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (s1.numBytes() <= ep-up && memcmp(up, s1start, s1.numBytes()) == 0)
 						return n;
 					n++;
 				}
@@ -537,16 +538,19 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length() || before == 0)
+					return -1;
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
 				const char*	s1start = s1.nthChar(0);
+				const char*	ep = nthChar(length());
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (s1.numBytes() <= ep-bp && memcmp(bp, s1start, s1.numBytes()) == 0)
 						return n;
 					n--;
 				}
-- 
2.43.0


From 884f3bd39b858ff0221e50852d3ed893fecd8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 24/96] fix: StrVal::tail and shorter of more characters than
 there are were not clamped

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 0724b76..48e4b7a 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -486,9 +486,9 @@ public:
 	StrValI		head(Index chars) const
 			{ return substr(0, chars); }
 	StrValI		tail(Index chars) const
-			{ return substr(length()-chars, chars); }
+			{ return substr(chars < length() ? length()-chars : 0, chars); }
 	StrValI		shorter(Index chars) const	// all chars up to tail
-			{ return substr(0, length()-chars); }
+			{ return substr(0, chars < length() ? length()-chars : 0); }
 //	StrValI&	remove(Index at, int len = -1);	// Delete a substring from the middle
 
 	// Search for a character:
-- 
2.43.0


From ef37d60dda87760588ed1dc35b19f7df6056756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 25/96] fix: threads that count the characters of a shared body
 at the same time counted them twice

---
 include/strval.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 48e4b7a..31d2144 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -238,19 +238,20 @@ public:	void		insertBytes(Index pos, const char* addend, Index len)
 				assert(s1.num_alloc == 0);	// Must not do this if we would make two references to allocated data
 				start = s1.start;
 				this->AddRef();			// Ensure we don't get deleted
-				num_chars = s1.num_chars;
+				num_chars = (Index)s1.num_chars;
 				num_elements = s1.num_elements;
 				num_alloc = 0;
 				return *this;
 			}
 
 protected:
-	Index		num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
+	std::atomic<Index>	num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
 	void		countChars()
 			{
 				if (isRawBinary())
 					return;
 
+				Index		counted = 0;		// Other threads may be counting too
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
 				while (cp < ep)
@@ -260,8 +261,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					counted++;
 				}
+				num_chars = counted;
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From fe04733e90910da43d03e031375a9e5a84d66974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 26/96] fix: the body of empty strings could be referenced
 before it was constructed, and deleted at exit

---
 include/strval.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 31d2144..f29de4e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -73,7 +73,8 @@ template<typename Index> class StrBodyI
 	using Body::ref_count;
 
 public:
-	static	StrBodyI nullBody;
+	static	StrBodyI& nullBody()			// Constructed on first use, which may be by another static
+			{ static StrBodyI empty("", StrStatic, 0, 0); return empty; }
 
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
@@ -281,8 +282,6 @@ protected:
 			}
 };
 
-template<typename Index> class StrBodyI<Index> StrBodyI<Index>::nullBody("", StrStatic, 0, 0);
-
 // A StrVal defined by number of bits in the index:
 template<unsigned int IndexBits = StrValIndexBits>
 class StrValB
@@ -301,7 +300,7 @@ class StrRefI
 public:
 	~StrRefI() {}			// Destructor
 	StrRefI()			// Empty string
-			: body(&Body::nullBody)
+			: body(&Body::nullBody())
 			, offset(0)
 			, num_chars(0)
 			{}
@@ -311,7 +310,7 @@ public:
 			}
 
 	StrRefI(const char* data, StrDataType dt = StrUTF8)	// construct by copying NUL-terminated data
-			: body(data == 0 || data[0] == '\0' ? &Body::nullBody : new Body(data, dt))
+			: body(data == 0 || data[0] == '\0' ? &Body::nullBody() : new Body(data, dt))
 			, offset(0)
 			, num_chars(body->numChars())
 			{
@@ -324,7 +323,7 @@ public:
 				if (allocate <= length)
 					allocate = 0;
 				if (length == 0)
-					body = &Body::nullBody;	// Don't use strlen!
+					body = &Body::nullBody();	// Don't use strlen!
 				else
 					body = new Body(data, StrUTF8, length, allocate);
 				num_chars = body->numChars();
-- 
2.43.0


From dae6253dd5973686fe78fa08d53717dce1a795d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 27/96] fix: error flag bits overlaid the set number instead of
 the top two bits

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..6c75e9d 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = 0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From 4552a48d9407e0b61d623f23fafd0aa3773d1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 28/96] fix: asInt32 accepted numbers that do not fit in 32
 bits

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index f29de4e..d0272e8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1095,7 +1095,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From f40aa093990035954658ef30bb68dfb4d32b1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 29/96] fix: asInt32 did not accept the documented 0b and 0x
 prefixes with an explicit radix

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index d0272e8..93842e4 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1026,7 +1026,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary) or skip its prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1057,7 +1057,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
-- 
2.43.0


From 374afd36388665f526afb7ed6a8aa496db2356ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 30/96] fix: a NUL character rendered as \0, which is not valid
 JSON

---
 include/strval.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 93842e4..53f3724 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1142,8 +1142,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
-- 
2.43.0


From 9685486f333dd7434a77dbfd80c054b9ee878cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 31/96] fix: JSON surrogate pairs encoded the wrong character,
 and aborted above U+FFFFF

---
 include/strval.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 53f3724..53a24d0 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1191,10 +1191,9 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
-				u4(0xD800+((ch>>10)&0x3FF), op);
-				u4(0xDC00+(ch&0x3FF), op);
+				assert(ch <= 0x10FFFF);
+				u4(UCS4HighSurrogate(ch), op);
+				u4(UCS4LowSurrogate(ch), op);
 				break;
 			}
 			*op = '\0';
-- 
2.43.0


From 21cac68235dc6f071cf572befa9a23495d36d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 32/96] fix: compact JSON relied on shorter() not clamping for
 the blank before the closing bracket

---
 include/variant.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..a25b2b4 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -208,7 +208,7 @@ public:
 			for (int i = 0; i < u.str_arr.length(); i++)
 				str += (i > 0 ? sep : StrVal())
 				    + Variant(u.str_arr[i]).as_json(next_indent);
-			return str+sep.substr(1).shorter(2)+"]";
+			return str+sep.substr(1).shorter(indent == -1 ? 0 : 2)+"]";
 			}
 
 		case VarArray:
@@ -217,7 +217,7 @@ public:
 			for (int i = 0; i < u.var_arr.length(); i++)
 				str += (i > 0 ? sep : StrVal())
 				    + u.var_arr[i].as_json(next_indent);
-			return str+sep.substr(1).shorter(2)+"]";
+			return str+sep.substr(1).shorter(indent == -1 ? 0 : 2)+"]";
 			}
 
 		case StrVarMap:
@@ -230,7 +230,7 @@ public:
 				    + (indent==-2 ? ":" : ": ")
 				    + (*iter).second.as_json(next_indent);
 			}
-			return str+sep.substr(1).shorter(2)+"}";
+			return str+sep.substr(1).shorter(indent == -1 ? 0 : 2)+"}";
 			}
 		}
 	}
-- 
2.43.0


From 741b92abd6a3da83ce90cd8e3a898b4aa0993b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 33/96] fix: coercing a variant between integer types left its
 type unchanged

---
 include/variant.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index a25b2b4..fe6798b 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,9 +288,9 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (!e)				// Some error in conversion
 						break;
@@ -308,10 +308,10 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (!e)				// Some error in conversion
 						break;
@@ -329,8 +329,8 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
-- 
2.43.0


From 0541ad880f296c9e71ea077c1775166efb21b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 34/96] fix: coercing a string variant to int or long refused
 numbers and accepted anything else

---
 include/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index fe6798b..eb2ad69 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -292,7 +292,7 @@ protected:
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
 					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.i = i32;
 					_type = new_type;
@@ -313,7 +313,7 @@ protected:
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
 					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.l = i32;
 					_type = new_type;
-- 
2.43.0


From 7cd294672557ef2107f0051d1a4ffc7f109a28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 35/96] fix: coercing a string variant to an integer never
 released the string

---
 include/variant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/variant.h b/include/variant.h
index eb2ad69..529573b 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -294,6 +294,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -315,6 +316,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -335,6 +337,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From d661d9ede4d1997dc7033336790264e4ace66fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 36/96] fix: a doubled percent sign in a format produced
 nothing

---
 include/strformat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index fb8bde5..3cb0764 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -78,6 +78,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 			result += args[a++].as_json();
 			break;
 
+		case '%':
+			result += c;
+			break;
+
 		default:
 			break;
 		}
-- 
2.43.0


From 057b7f91b0efe8d4748d1eb0111d441b0878503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 37/96] fix: explicit argument numbers in a format were
 ignored, and swallowed a character

---
 include/strformat.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/strformat.h b/include/strformat.h
index 3cb0764..59afbb4 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -9,7 +9,7 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 	bool	leading_zeroes;	// Whether to pad with leading zeroes
 	int	d;		// A digit
 	int	a = 0;		// Arg index
-	int	numbered_arg;
+	int	numbered_arg;	// Explicit arg number (from 1), or zero
 
 	Index	m = f.length();
 	for (Index i = 0; i < m; i++)
@@ -21,12 +21,13 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 			continue;
 		}
 		c = f[++i];	// Skip the %
+		numbered_arg = 0;
 
 		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
 		{		// Extract the argument sequence digit
 			numbered_arg = d;
 			i += 2;
-			c = f[++i];	// Skip ASD
+			c = f[i];	// Skip the digit and the $
 		}
 
 		// Get the size
@@ -68,14 +69,14 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 		case 's':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_strval();
+			result += args[numbered_arg ? numbered_arg-1 : a++].as_strval();
 			break;
 
 		case 'd':
 		case 'f':
 		case 'g':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_json();
+			result += args[numbered_arg ? numbered_arg-1 : a++].as_json();
 			break;
 
 		case '%':
-- 
2.43.0


From 728811e2f8009302488286ccb9738d4a6c6abeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 38/96] fix: a format with * as width or precision lost the
 conversion

---
 include/strformat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index 59afbb4..a18eac7 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -34,7 +34,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		size = 0;
 		leading_zeroes = false;
 		if (c == '*')
+		{
 			size = -1;
+			c = f[++i];
+		}
 		else if ((d = Digit(c, 10)) >= 0)
 		{
 			if (d == 0)
@@ -50,7 +53,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 			c = f[++i];
 			if (c == '*')
+			{
 				prec = -1;
+				c = f[++i];
+			}
 			else if ((d = Digit(c, 10)) >= 0)
 			{
 				prec = d;
-- 
2.43.0


From f4850215d793bb55f76592427a470d80a9cf9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 39/96] fix: CowMap::put erased the old entry from a shared
 body

---
 include/cowmap.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..a2decc0 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,9 +75,8 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
+				Unshare();
+				body->erase(k);
 				insert(k, v);
 				return k;
 			}
-- 
2.43.0


From 21bc8946a2b9dd472b4e13150b230b7d1803b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 40/96] fix: the functional methods of CowMap did not compile
 when used

---
 include/cowmap.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index a2decc0..4ed39c1 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -84,35 +84,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<K>	all_keys((const Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
-				Array<Value>	all_values((Value*)0, 0, size());
+				Array<Value>	all_values((const Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -120,7 +120,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -134,8 +134,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -143,7 +143,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	e = map1(it->first, it->second);
+					output.put(e.first, e.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -151,7 +154,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From 60f487e0566d22fc286eab35b114b89f6fdd8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 41/96] fix: CowMap::put used the key it was given after
 erasing the entry holding it

---
 include/cowmap.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 4ed39c1..52b83cf 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,10 +75,11 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
+				Key	key(k);		// k might be the key of the entry we erase
 				Unshare();
-				body->erase(k);
-				insert(k, v);
-				return k;
+				body->erase(key);
+				insert(key, v);
+				return key;
 			}
 
 	// Functional methods (these don't mutate or Unshare the subject):
-- 
2.43.0


From a4a460db7033d761ff7b335c33f665b0ff396fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 42/96] fix: a StringArray made from several StrVals stepped
 through them as if they were StrRefs

---
 include/strval.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 53a24d0..c35317f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1213,13 +1213,15 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
-	{
+	: Array((const StrRef*)0, 0, size > allocate ? size : allocate)
+	{			// A StrVal is larger than a StrRef, so we must convert each one
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
 	StringArray(const Array<const char*> strings)
-	: Array((const StrVal*)0, 0, strings.length())
+	: Array((const StrRef*)0, 0, strings.length())
 	{
 		strings.each([&](const char* s) { append(s); });
 	}
-- 
2.43.0


From c22ac412508d311ab59202fe0d5d8ad474381d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 43/96] fix: subtracting from a NulGuardedCharPtr moved it
 forwards, past the NUL

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 1422b271ea70e8189a137214189a19f4ace3edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 44/96] fix: adding to a GuardedCharPtr went on past the NUL

---
 include/char_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..6f47acd 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -109,9 +109,9 @@ public:
 	GuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
-				if (-i > s-origin)	// Or backup
+				if (i < origin-s)	// Or backup
 					s = origin;	// Either return as far as the origin
-				else
+				else if (i < 0)
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
-- 
2.43.0


From 5934c81b8b746c814163a84471a1e537ae7b7350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 45/96] fix: a GuardedCharPtr could be decremented or
 subtracted from to before its origin

---
 include/char_ptr.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 6f47acd..bcc0a29 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -115,6 +115,25 @@ public:
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
+
+	// Redefine these to use our operator+=, which knows the origin
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr&	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+	long		operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ return *this += 1; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr&	predecr()	{ return *this += -1; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
 };
 
 #endif
-- 
2.43.0


From c5d7966a4ad1cbd22e5d541c92ae73bd635f15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 46/96] fix: a GuardedUTF8Ptr could be decremented or
 subtracted from to before its origin

---
 include/utf8_ptr.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..ca9948c 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,12 +80,30 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
 	bool		at_bot()
 			{ return data == origin; }
+
+	// Redefine these to use our operator+=, which knows the origin
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr&	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* cp)	{ return data-cp; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr&	preincr()	{ return *this += 1; }
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
+	GuardedUTF8Ptr&	predecr()	{ return *this += -1; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
 };
 
 #endif	// UTF8_PTR_H
-- 
2.43.0


From f3a479ab020a8e659560548754a885360553ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 47/96] fix: a guarded UTF-8 pointer took a padded zero for the
 end of the text

---
 include/utf8_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index ca9948c..55e0cce 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -23,7 +23,7 @@ public:
 			{ data = s.data; return *this; }
 
 	bool		at_eof()
-			{ return this->operator*() == '\0'; }
+			{ return *data == '\0'; }	// A padded zero is not the end
 
 	UCS4		operator*()		// Dereference to char under the pointer
 			{ const UTF8* s = data; return UTF8Get(s); }
-- 
2.43.0


From 113b88a09bc25d04b890d703197694740f593a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 48/96] fix: the state of a new thread was not initialised, so
 joinAny could return it before it ran

---
 include/thread.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..92fac66 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
-- 
2.43.0


From 18cdca643bf5c57da7d37e977d876feccc9b4afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 49/96] fix: joinAny did not return the last thread

---
 src/thread.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..0bb92fc 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -80,16 +80,16 @@ Thread*
 Thread::joinAny()
 {
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
-
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
 	for (;;)
 	{
+		if (threads.size() <= (Thread::find(currentId()) ? 1 : 0))
+		{
+			thread_latch.leave();
+			return 0;	// No threads except this one. Main is not in the map
+		}
+
 		if (ended_count == 0)	// None have exited but not been joined
 		{
 			ended_threads_condition.wait(&thread_latch);
@@ -107,6 +107,7 @@ Thread::joinAny()
 			threads.erase(tid);
 			assert(!Thread::find(tid));
 			ended_count--;
+			ended_threads_condition.broadcast();	// Others might be waiting here, perhaps for nothing now
 			thread_latch.leave();
 			return thread;
 		}
-- 
2.43.0


From f2cd86a70d01987d0a1969f62fe5f59680f5b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 50/96] fix: destroying a joined thread forgot a new thread
 that was given the same id

---
 include/thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index 92fac66..ca53ea3 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -198,7 +198,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// The id might already belong to a new thread
 	{
 		if (state == Ended)
 			ended_count--;
-- 
2.43.0


From bb10eef298d7accde7f99dba794d4bd7a43265f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 51/96] fix: a thread created while another was being joined
 could be forgotten if it got the same id

---
 src/thread.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 0bb92fc..fac3882 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -27,12 +27,12 @@ Thread::ThreadProc(void* _this)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
@@ -123,21 +123,24 @@ Thread::join()		// Wait for this thread to end
 	assert(thread_id != 0);		// Can't join a thread that hasn't started
 
 #if	defined(HAVE_PTHREADS)
-	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
-	int	error = pthread_join(thread_id, &retval);
-	if (error)
-		; // posixError("join", error, thread_id);	// Translate and report the error
-
+	// Wait until it has ended, and forget it before its thread_id can be given to a new thread
 	thread_latch.enter();
-	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	while (state != Ended)
+		ended_threads_condition.wait(&thread_latch);
+	if (Thread::find(thread_id) == this)
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
 		ended_count--;
+		ended_threads_condition.broadcast();	// There might be none left for joinAny to wait for
 	}
 	thread_latch.leave();
 
+	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
+	int	error = pthread_join(thread_id, &retval);
+	if (error)
+		; // posixError("join", error, thread_id);	// Translate and report the error
+
 #elif	defined(MSW)
 	if (state < THREAD_STATE_ENDED) // Thread hasn't finished yet, so wait
 	{
-- 
2.43.0


From 762f50629d26c08bc2f73add8db1f57cb11e1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 52/96] fix: Thread::exit could not be linked, and did not exit
 the thread

---
 include/thread.h | 2 +-
 src/thread.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index ca53ea3..d58cfd8 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -49,7 +49,7 @@ public:
 	static	inline ThreadId		currentId();	// current thread id, fast
 	static	inline ProcessId	currentProcessId();
 	static	inline Thread*		current();	// current thread, slower
-	inline void			exit(int);	// exit the current thread
+	void			exit(int);	// exit the current thread
 	static	inline Thread*		main();		// main thread. REVISIT: needed?
 
 	// REVISIT: Iterate over all live threads
diff --git a/src/thread.cpp b/src/thread.cpp
index fac3882..9c43372 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -71,6 +71,7 @@ void Thread::exit(int code)
 	thread_latch.leave();
 
 #if	defined(HAVE_PTHREADS)
+	pthread_exit((void*)(long)code);
 #elif	defined(MSW)
 	ExitThread(code);
 #endif
-- 
2.43.0


From 55273034afd58589298b8da6d12632ab78058dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 53/96] fix: a timed wait on a Condition gave up at once

---
 src/condition.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..9938064 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,6 +6,7 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
@@ -145,9 +146,15 @@ Condition::wait(		// Wait for a ticket
 {
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
-	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	struct timespec	ts;			// The time when the wait must end
+	clock_gettime(CLOCK_REALTIME, &ts);
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
-- 
2.43.0


From 4aaa3db6e6cfc512f49a93834cfa208bc8a61a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 54/96] fix: a Latch created by one thread while another
 creates the first could use uninitialised attributes

---
 include/lockfree.h | 14 ++++----------
 src/lockfree.cpp   |  5 +----
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..ff9f75c 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,11 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
-
+	pthread_mutexattr_t	attr;
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..586f2d6 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -6,10 +6,7 @@
 #include	<assert.h>
 #include	<lockfree.h>
 
-#if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
-#else
+#if	!defined(HAVE_PTHREADS)
 
 int			Latch::num_cores;
 
-- 
2.43.0


From 03a084987f40832552a4f9bdf41eb2e2ef5e813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 55/96] fix: Latch::holding blocked while another thread held
 the latch

---
 include/lockfree.h | 16 +++++++++-------
 src/condition.cpp  |  4 ++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index ff9f75c..b3ee13c 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -38,6 +38,7 @@ public:
 #if	defined(HAVE_PTHREADS)
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
+	std::atomic<ThreadId> holder;	// The thread that holds the mutex, or 0
 
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
@@ -56,6 +57,7 @@ public:
 
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
+: holder(0)
 {
 	pthread_mutexattr_t	attr;
 	pthread_mutexattr_init(&attr);
@@ -72,7 +74,10 @@ Latch::~Latch()
 bool
 Latch::probe()		// Gain the latch if possible immediately
 {
-	return pthread_mutex_trylock(&mutex) == 0;
+	if (pthread_mutex_trylock(&mutex) != 0)
+		return false;
+	holder = pthread_self();
+	return true;
 }
 
 void
@@ -80,23 +85,20 @@ Latch::enter()		// Wait for the latch
 {
 	int ret = pthread_mutex_lock(&mutex);
 	assert(ret != EDEADLK);
+	holder = pthread_self();
 }
 
 bool
 Latch::holding()	// Latch is held by calling thread?
 {
-	int ret = pthread_mutex_lock(&mutex);
-	if (ret == EDEADLK)
-		return true;
-	if (ret == 0)
-		leave();
-	return false;
+	return holder == pthread_self();	// Only this thread sets it to this value
 }
 
 void
 Latch::leave()		// Release the latch
 {
 	assert(pthread_mutex_lock(&mutex) == EDEADLK);
+	holder = 0;
 	pthread_mutex_unlock(&mutex);
 }
 
diff --git a/src/condition.cpp b/src/condition.cpp
index 9938064..918cb4b 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -62,7 +62,9 @@ Condition::wait(
 )
 {
 #if	defined(HAVE_PTHREADS)
+	user_latch->holder = 0;
 	pthread_cond_wait(&cond, &user_latch->mutex);
+	user_latch->holder = pthread_self();
 #elif	defined(MSW)
 	// Increment the count of waiters and grab the generation count:
 	ThreadId	tid = Thread::currentId();
@@ -155,7 +157,9 @@ Condition::wait(		// Wait for a ticket
 		ts.tv_sec++;
 		ts.tv_nsec -= 1000000000L;
 	}
+	user_latch->holder = 0;
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
+	user_latch->holder = pthread_self();
 	if (retcode == ETIMEDOUT)
 	{
 		timeout = 0;
-- 
2.43.0


From 3423e97b2ad5a24a9f3cb36b91ad0c576e9e46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 56/96] fix: the resources of threads returned by joinAny, or
 never joined, were not reclaimed

---
 include/thread.h | 3 +++
 src/thread.cpp   | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index d58cfd8..9ae960b 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -203,6 +203,9 @@ Thread::remove_ended()
 		if (state == Ended)
 			ended_count--;
 		threads.erase(thread_id);	// Remove from map
+#if	defined(HAVE_PTHREADS)
+		pthread_detach(thread_id);	// Nobody joined it
+#endif
 	}
 	thread_latch.leave();
 	thread_id = 0;
diff --git a/src/thread.cpp b/src/thread.cpp
index 9c43372..a3ef520 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -110,6 +110,9 @@ Thread::joinAny()
 			ended_count--;
 			ended_threads_condition.broadcast();	// Others might be waiting here, perhaps for nothing now
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, 0);			// It has ended, so this only reclaims its resources
+#endif
 			return thread;
 		}
 	}
@@ -128,7 +131,8 @@ Thread::join()		// Wait for this thread to end
 	thread_latch.enter();
 	while (state != Ended)
 		ended_threads_condition.wait(&thread_latch);
-	if (Thread::find(thread_id) == this)
+	bool	unjoined = Thread::find(thread_id) == this;
+	if (unjoined)
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
@@ -136,6 +140,8 @@ Thread::join()		// Wait for this thread to end
 		ended_threads_condition.broadcast();	// There might be none left for joinAny to wait for
 	}
 	thread_latch.leave();
+	if (!unjoined)
+		return;		// Someone else has joined it
 
 	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
 	int	error = pthread_join(thread_id, &retval);
-- 
2.43.0


From 7cd84dcd282832e79b2fbfea3e384c5c24ea4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 57/96] fix: a repetition or assertion of a repetition or of
 alternates was not skipped in full

---
 include/pegexp.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..9a2e92f 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -615,7 +615,8 @@ protected:
 					context->rollback_capture(iteration_captures);
 
 					// printf("iterated %d (>=min %d <=max %d)\n", repetitions, min, max);
-					skip_atom(state.pattern);	// We're done with these repetitions, move on
+					state.pattern = repeat_pattern;
+					skip_operand(state.pattern);	// We're done with these repetitions, move on
 					break;
 				}
 				if (state.source.same(iteration_start.source))
@@ -757,6 +758,15 @@ protected:
 		pattern++;
 	}
 
+	// Skip the operand of a prefix operator, which might be a set of alternates
+	void		skip_operand(PatternP& pattern)
+	{
+		bool	alternates = *pattern == '|';
+		skip_atom(pattern);
+		while (alternates && *pattern == '|')
+			skip_atom(pattern);
+	}
+
 	const PatternP	skip_atom(PatternP& pattern)
 	{
 		switch (char rc = *pattern++)
@@ -794,9 +804,12 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
-			skip_atom(pattern);
+			skip_operand(pattern);
 			break;
 
 		// Extended commands:
-- 
2.43.0


From 142a25c4a69789019b30e91a5ea1a0c0d5d3f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 58/96] fix: a group whose last alternate is empty swallowed
 the following character of the pegexp

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 9a2e92f..5892ed7 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -547,8 +547,8 @@ protected:
 		switch (rc = *state.pattern++)
 		{
 		case '\0':	// End of expression
-			state.pattern--;
 		case ')':	// End of group
+			state.pattern--;
 			matched = true;
 			break;
 
-- 
2.43.0


From d0d6e91f31783ee440c92e2850e2008bd8a1f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 59/96] fix: a character range in a pegexp could not start with
 an escape such as \\t

---
 include/pegexp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 5892ed7..536bc15 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -471,6 +471,11 @@ protected:
 		}
 	}
 
+	static bool	is_property(PatternP pattern)
+	{
+		return pattern[0] == '\\' && pattern[1] != '\0' && strchr("adhLUsw", pattern[1]) != 0;
+	}
+
 	bool		char_class(State& state)
 	{
 		if (state.source.at_eof())		// End of input never matches a char_class
@@ -490,8 +495,7 @@ protected:
 			Char	c1;
 
 			// Handle actual properties, not other escapes
-			char	esc = state.pattern[1];
-			if (*state.pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+			if (is_property(state.pattern))
 			{
 				state.pattern++;
 				if (char_property(state.pattern, ch))
-- 
2.43.0


From 3bd8c84979f5e48b43e83d443b767c7b7d6f6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 60/96] fix: skipping a class with a hyphen after a property
 went past its end

---
 include/pegexp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 536bc15..99a10b6 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -785,8 +785,9 @@ protected:
 				pattern++;
 			while (*pattern != '\0' && *pattern != ']')
 			{
+				bool	property = is_property(pattern);
 				(void)literal_char(pattern);
-				if (*pattern == '-')
+				if (*pattern == '-' && !property)
 				{
 					pattern++;
 					(void)literal_char(pattern);
-- 
2.43.0


From 6c2c7b2c0b79a6b0586c1a9983f2b860bfde3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 61/96] fix: \\L and \\U in a pegexp read outside the C library
 tables for characters above U+00FF

---
 include/char_encoding.h | 2 ++
 include/pegexp.h        | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index d264df3..a9c544b 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -87,6 +87,8 @@ inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
+inline bool	islower(UCS4 c) { return UCS4ToLower(c) == c && UCS4ToUpper(c) != c; }
+inline bool	isupper(UCS4 c) { return UCS4ToUpper(c) == c && UCS4ToLower(c) != c; }
 
 inline bool
 UCS4IsIllegal(UCS4 ucs4)	// Does this UCS4 character encode an illegal utf-8 byte?
diff --git a/include/pegexp.h b/include/pegexp.h
index 99a10b6..7bfcd0c 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -461,8 +461,8 @@ protected:
 		case 'a':	return isalpha(ch);	// Alphabetic
 		case 'd':	return isdigit(ch);	// Digit
 		case 'h':	return isdigit(ch) || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');	// Hexadecimal
-		case 'L':	return islower(ch);
-		case 'U':	return isupper(ch);
+		case 'L':	return islower(ch);	// Lowercase
+		case 'U':	return isupper(ch);	// Uppercase
 		case 's':	return isspace(ch);
 		case 'w':	return isalnum(ch);	// Alphabetic or digit
 		default:	pattern -= 2;		// oops, not a property
-- 
2.43.0


From bebf790d0eb4084bd7c8f3f437415d9a90e9ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 62/96] fix: a Peg with the default context did not compile

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..d2a6705 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -61,6 +61,7 @@ class PegContextNoCapture
 public:
 	using	Match = _Match;
 	using	Source = typename Match::Source;
+	using	State = typename Match::State;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
 	using	PegT = Peg<Source, Match, PegContextNoCapture>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From 0b83095fc4efcdb2d32a5f30841307404705ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 63/96] fix: a rule could not be found if another had a name
 that extends its name with a digit

---
 include/peg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index d2a6705..bd86a63 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -281,11 +281,11 @@ public:
 			[](const void* key, const void* r2) {
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
-				int		len = strlen(rule_name);
+				int		len = strcspn(key_name, ">");	// The key may be followed by > and more
 
 				int		cval = strncmp(key_name, rule_name, len);
-				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
-					cval = 1;	// This rule has a shortened version of this key
+				if (cval == 0 && rule_name[len] != '\0')
+					cval = -1;	// The key is a shortened version of this rule's name
 				return cval;
 			}
 		);
-- 
2.43.0


From e697c12a3d3306c65d7a73b2ef6c916f2696c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 64/96] fix: a rule captured a label that only starts with a
 name it captures

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..ef99d34 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -104,8 +104,12 @@ public:
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
+		{
+			size_t	len = strlen(captures[i]);
+			if (0 == strncmp(captures[i], label, len)
+			 && !isalnum(label[len]) && label[len] != '_')	// The label must end there too
 				return true;
+		}
 		return false;
 	}
 };
-- 
2.43.0


From 1eef86a6999f0c1d9ade14d1c9489d4d529091d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 65/96] fix: labelled atoms were captured although the rule
 does not list their label

---
 include/peg_ast.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index ef99d34..9972be1 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -150,6 +150,9 @@ public:
 
 	int		capture(PatternP name, int name_len, Match r, bool in_repetition)
 	{
+		if (!rule->is_captured(name))
+			return num_captures;	// This rule doesn't want it
+
 		StrVal		key(name, name_len);
 		Variant		value(r.var);
 		Variant		existing;
-- 
2.43.0


From 68f9166174fdbcfe3bbb09c538e41e2130cacde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 66/96] fix: captures of a failed path were kept if others had
 been made before it

---
 include/peg_ast.h | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 9972be1..8ed1bfa 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -162,10 +162,11 @@ public:
 
 		// REVISIT: If this rule captures one item only, can we collapse the AST?
 
+		bool		converted = false;
 		if (ast.contains(key))
 		{		// There are previous captures under this name
 			existing = ast[key];
-			if (existing.type() != Variant::VarArray)
+			if ((converted = existing.type() != Variant::VarArray))
 				existing = Variant(&existing, 1);	// Convert it to an array
 			VariantArray va = existing.as_variant_array();
 			va += value;		// This Unshares va from the entry stored in the map, so
@@ -175,6 +176,7 @@ public:
 		else	// Insert the match as the first element in an array, or just as itself:
 			ast.insert(key, in_repetition ? Variant(&value, 1) : value);
 
+		captured.append({key, converted});
 		num_captures++;
 		return 0;
 	}
@@ -184,18 +186,34 @@ public:
 		return num_captures;
 	}
 
-	// The grammar should not capture anything that rolls back except to zero, unless on failure:
 	void		rollback_capture(int count)
 	{
 		if (count >= num_captures)
 			return;
 		if (count == 0)
-		{		// We can rollback to zero, but not partway
+		{
 			ast.clear();
+			captured.clear();
 			num_captures = 0;
 			return;
 		}
-		printf("REVISIT: Not rolling back to %d from %d\n", count, num_captures);
+		while (num_captures > count)	// Undo the latest capture
+		{
+			Captured	last = captured.pull();
+			num_captures--;
+
+			Variant		existing = ast[last.key];
+			if (existing.type() != Variant::VarArray || existing.as_variant_array().length() < 2)
+			{
+				ast.remove(last.key);
+				continue;
+			}
+			VariantArray	va = existing.as_variant_array();
+			existing = Variant();	// Don't share the array
+			Variant		first = va[0];
+			va.pull();
+			ast.put(last.key, last.converted ? first : Variant(va));
+		}
 	}
 
 	void		record_failure(PatternP op, PatternP op_end, Source location)
@@ -267,8 +285,15 @@ public:
 	int		capture_disabled;	// Counter that bumps up from zero to disable captures
 
 protected:
+	struct Captured
+	{
+		StrVal		key;
+		bool		converted;	// A single capture became an array
+	};
+
 	int		num_captures;
 	StrVariantMap	ast;
+	Array<Captured>	captured;		// What was added to the ast, for rollback
 
 	// The next two are populated only on the outermost Context, to be returned from the parse
 	Source		furthermost_success;	// Source location of the farthest location the parser reached
-- 
2.43.0


From 55a58531f67ebe0fd3e56ffc4e5c1cefe7a8eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 67/96] fix: a failed parse did not report where it failed

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 8ed1bfa..31dd41e 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -256,7 +256,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From 62d3a8108f019cd684de2d3d260866549ca03d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 68/96] fix: a labelled atom captured the tree so far instead
 of its text

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 7bfcd0c..faea7b7 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -749,7 +749,7 @@ protected:
 			if (context->capture_disabled == 0)
 				(void)context->capture(
 					name, name_end-name,
-					context->match_result(start_state, state),
+					Match(start_state, state),	// Just this atom, not the result so far
 					context->repetition_nesting > 0
 				);
 		}
-- 
2.43.0


From 2d5fd8182757f0c8a74f0f14540a66352b3c1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 69/96] fix: the failure of a control character literal was
 reported with no length

---
 include/pegexp.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index faea7b7..53642c5 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -529,10 +529,8 @@ protected:
 
 	bool		match_literal(State& state, Context* context)
 	{
-		if (state.source.at_eof() || *state.pattern != state.source.get_char())
-			return false;
-		state.pattern++;
-		return true;
+		char	literal = *state.pattern++;	// Advance even if it fails, the failure report needs the end
+		return !state.source.at_eof() && literal == state.source.get_char();
 	}
 
 	/*
-- 
2.43.0


From aacbc7f7d39df7b600336621b32a5833e276c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 70/96] fix: an expression with a named group never matched

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..71fdc96 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From 4b6b258d1189c6e78c52873274a7e707850fc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 71/96] fix: matching continued at the wrong offset after a
 negative lookahead

---
 rx/rxmatch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 71fdc96..b608cb7 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -433,7 +433,8 @@ next:
 	{
 		TRACK(("\t\tthread %d evaluating negative lookahead at %d, text %d '%c'\n", thread.thread_number, thread.station, offset, target[offset]&0xFF));
 		RxMatch		match(*this);
-		RxResult	result = match.matchAt(instr.next, offset);	// REVISIT: Arrange to not keep captures here
+		StrValIndex	lookahead = offset;	// matchAt advances this
+		RxResult	result = match.matchAt(instr.next, lookahead);	// REVISIT: Arrange to not keep captures here
 
 		if (!result)
 		{
-- 
2.43.0


From 39af5ed23b2e3ea24f1d202c1ee9fec1c6cb7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 72/96] fix: a NUL character was mistaken for the end of the
 text, and the reverse

---
 rx/rxmatch.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index b608cb7..8393c92 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -494,6 +494,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
 			UCS4		ch = target[offset];
+			bool		at_end = offset >= target.length();	// The text may contain NUL characters
 			enum {
 				failed,
 				eof,
@@ -518,14 +519,14 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoAny:			// Any single char
 				// As long as we aren't at the end, all is good
 				// REVISIT: Add except-newline mode behaviour
-				if (ch != 0)
+				if (!at_end)
 					break;
 				step_status = eof;
 				break;
 
 			case RxOp::RxoChar:			// A specific UCS4 character
 				// REVISIT: Add case-insensitive mode behaviour
-				if (ch == instr.character)
+				if (!at_end && ch == instr.character)
 					break;
 				step_status = failed;
 				break;
@@ -533,7 +534,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoCharClass:		// Character class
 			case RxOp::RxoNegCharClass:		// Negated Character class
 			{
-				if (ch == 0)
+				if (at_end)
 				{
 					step_status = eof;
 					break;
@@ -559,7 +560,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case RxOp::RxoCharProperty:		// A character with a named Unicode property
 			{
-				if (ch == 0)
+				if (at_end)
 				{
 					step_status = eof;
 					break;
-- 
2.43.0


From e84d8718980fba475b828950cf88b34ceb602369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 73/96] fix: an owned program was freed with the wrong form of
 delete

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 8393c92..7e0816d 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From 7d9024ba989060e9a8090030305be208a7a71c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 74/96] fix: threads with different counters were dropped as
 duplicates, and too many threads or alternates aborted

---
 rx/rxmatch.cpp | 191 ++++++++++++++++++-------------------------------
 rx/strregex.h  |   4 +-
 2 files changed, 72 insertions(+), 123 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 7e0816d..86c82d4 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -6,7 +6,9 @@
  */
 #include	<strregex.h>
 #include	<cstring>
+#include	<set>
 #include	<utility>
+#include	<vector>
 
 #ifdef	TRACK_RESULTS
 #define	TRACK(arglist)	printf arglist
@@ -15,6 +17,7 @@
 #endif
 
 #define	NORESULT	((StrValIndex)~0)
+#define	RxCountEnough	0x100	// Set in a counter below its minimum if the minimum need not be reached
 
 /*
  * To make it easy to pass around and modify capture sets, we use a reference counted body.
@@ -38,8 +41,9 @@ public:
 
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
+	StrValIndex	counterStart(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 2] : 0; }
 	void		counterPushZero(StrValIndex offset);
-	StrValIndex 	counterIncr(StrValIndex offset);
+	void		counterSet(StrValIndex offset, StrValIndex count);
 	void		counterPop();
 	const RxResult::Counter	counterTop();
 
@@ -63,7 +67,7 @@ private:
 
 class RxMatch
 {
-	// It is possible there can be as many threads as Stations in the program.
+	// There can be as many threads as Stations in the program, times the number of states of any counters.
 	// Each cycle traverses an array of current threads, building an array for the next cycle.
 	struct Thread {
 		Thread();
@@ -79,7 +83,6 @@ class RxMatch
 public:
 	RxMatch(const RxProgram& _program, StrVal _target);
 	RxMatch(const RxMatch& _tocopy);
-	~RxMatch();
 
 	const RxResult	matchAt(RxStationID start, StrValIndex& offset);
 
@@ -89,11 +92,12 @@ private:
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-	Thread*		current_threads;	// The threads we're currently evaluating
-	RxStationID	current_count;		// How many of the above are populated
-	Thread*		next_threads;		// The threads that lead on from here
-	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+	std::vector<Thread> current_threads;	// The threads we're currently evaluating
+	std::vector<Thread> next_threads;	// The threads that lead on from here
+
+	// The station and counters of every thread that was added at the next offset. The first is kept, it started earliest.
+	std::set<std::vector<StrValIndex>> visited;
+	void		addthread(Thread thread, StrValIndex offset);
 };
 
 static int32_t zagzig(int32_t i)
@@ -259,28 +263,12 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 : program(_program)
 , target(_target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
-}
-
-RxMatch::~RxMatch()
-{
-	delete[] current_threads;
-	delete[] next_threads;
 }
 
 RxMatch::Thread::Thread()
@@ -304,59 +292,22 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset)
 {
-	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
-		{
-			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
-			return;
-		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
-	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
-	}
-	shunts[num_shunt++] = thread.station;
-
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
-
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
-
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
 	 */
 	RxDecoded	instr;
 next:
+	// A thread that gets to a place with the same counters as a previous one can't do any better (or is in an empty loop)
+	std::vector<StrValIndex>	place = thread.result.counterState(offset);
+	place.push_back(thread.station);
+	if (!visited.insert(place).second)
+	{
+		TRACK(("\t\tthread %d at %d is a duplicate\n", thread.thread_number, thread.station));
+		return;
+	}
+
 	program.decode(thread.station, instr);
 	switch (instr.op)
 	{
@@ -383,8 +334,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
+		addthread(Thread(instr.alternate, thread.result), offset);
+		addthread(Thread(instr.next, thread.result, &thread), offset);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -406,24 +357,33 @@ next:
 
 	case RxOp::RxoCount:	// This instruction follows a repeated item, so the pre-incremented counter tells how many we've passed
 	{
-		RxResult::Counter	previous = thread.result.counterTop();
-
-		short	counter = thread.result.counterIncr(offset);
-
-		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
-		if (previous.offset == offset)
-			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
-
-		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
+		RxResult::Counter	counter = thread.result.counterTop();
+		StrValIndex		min = instr.repetition.min, max = instr.repetition.max;
+		StrValIndex		count = counter.count & ~RxCountEnough;
+
+		bool			advanced = counter.offset != offset;
+		bool			enough = (counter.count & RxCountEnough) != 0 || count >= min;
+		bool			again = advanced || !enough;	// Otherwise there's no use for another repetition
+
+		if (max != 0 || count < min)		// Without a maximum, there's no need to count past the minimum
+			count++;
+		if (!advanced)				// Having matched nothing, it could do that until the minimum is reached
+			enough = true;
+		if (count >= min)
+			enough = true;
+
+		if (again && (count < max || max == 0))	// Greedily repeat
+		{
+			RxResult	repeat = thread.result;
+			repeat.counterSet(offset, count | (enough && count < min ? RxCountEnough : 0));
+			addthread(Thread(instr.alternate, repeat), offset);
+		}
 
-		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
-		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
+		if (enough)
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset);
 		}
 		thread.result.clear();
 	}
@@ -440,7 +400,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -462,10 +422,7 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		next_threads.push_back(thread);
 	}
 };
 
@@ -476,20 +433,16 @@ next:
 const RxResult
 RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 {
-	Thread*		thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
-	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
 	std::swap(current_threads, next_threads);
-	current_count = next_count;
-	next_count = 0;
-	for (; current_count > 0 && offset <= target.length(); offset++)
+	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
 	{
-		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, current_count, target.substr(offset, 1).asUTF8()));
-		for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
+		visited.clear();
+		for (Thread* thread_p = current_threads.data(); thread_p < current_threads.data()+current_threads.size(); thread_p++)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
@@ -637,7 +590,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1);
 				break;
 
 			case accepted:			// This thread has matched
@@ -662,17 +615,13 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 		}
 
 		std::swap(current_threads, next_threads);
-		current_count = next_count;
-		next_count = 0;
+		next_threads.clear();
 	}
 
 	// If we have a result, it's in `result`.
 	// If not, we ran out of threads that could move forward, or ran out of input to move forward on.
 	// REVISIT: Might it be useful to know on which Station(s) we ran out of input? Or callback to get more?
 
-	// Wipe old result references, we already copied the one we chose:
-	for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
-		thread_p->result.clear();
 	return result;
 }
 
@@ -710,14 +659,13 @@ RxCaptures::counterPushZero(StrValIndex offset)
 	values.at(counterBase()+counters_used++) = 0;
 }
 
-StrValIndex
-RxCaptures::counterIncr(StrValIndex offset)
+void
+RxCaptures::counterSet(StrValIndex offset, StrValIndex count)
 {
 	reserve();
 	assert(counters_used > 0);
-	// TRACK(("Incrementing counter %d = %d\n", counters_used-1, values.at(counterBase()+counters_used-1)+1));
 	values.at(counterBase()+counters_used-2) = offset;
-	return ++values.at(counterBase()+counters_used-1);
+	values.at(counterBase()+counters_used-1) = count;
 }
 
 void
@@ -853,15 +801,16 @@ RxResult::captureSet(int index, StrValIndex val)
 	return *this;
 }
 
-bool
-RxResult::countersSame(RxResult& other) const
+std::vector<StrValIndex>
+RxResult::counterState(StrValIndex offset) const	// Each count, and whether its repetition has advanced
 {
-	if (counterNum() != other.counterNum())
-		return false;
+	std::vector<StrValIndex>	state;
 	for (int i = 0; i < counterNum(); i++)
-		if (counterGet(i) != other.counterGet(i))
-			return false;
-	return true;
+	{
+		state.push_back(captures->counterGet(i));
+		state.push_back(captures->counterStart(i) == offset);
+	}
+	return state;
 }
 
 int
@@ -884,12 +833,12 @@ RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 	captures->counterPushZero(offset);
 }
 
-StrValIndex
-RxResult::counterIncr(StrValIndex offset)	// Increment and return top counter of stack
+void
+RxResult::counterSet(StrValIndex offset, StrValIndex count)	// Set the top counter of the stack
 {
 	Unshare();
 	assert(captures);
-	return captures->counterIncr(offset);
+	captures->counterSet(offset, count);
 }
 
 void
diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..4266194 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -206,10 +206,10 @@ public:
 	RxResult&	captureSet(int index, StrValIndex val);
 	int		counterNum() const;	// How many counters are in use?
 	bool		hasCounter() const { return counterNum() > 0; }
-	bool		countersSame(RxResult& other) const;
+	std::vector<StrValIndex> counterState(StrValIndex offset) const; // The count of each counter, and whether it has advanced from offset
 	int		counterGet(int = 0) const;		// get the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
-	StrValIndex	counterIncr(StrValIndex offset);	// Increment and return top counter of stack
+	void		counterSet(StrValIndex offset, StrValIndex count);	// Set the top counter of the stack
 	void		counterPop();		// Discard the top counter of the stack
 	const Counter	counterTop();		// Top counter value, if any
 
-- 
2.43.0


From 98b693d1a7d22c572febc005566c5aa05aa03e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 75/96] fix: a repetition with a minimum of zero and a maximum
 had to match once

---
 rx/rxmatch.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 86c82d4..2204cb3 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -351,6 +351,15 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		// Find the Count that ends this repetition. If its minimum is zero, the repetition can be bypassed
+		RxDecoded	count;
+		program.decode(instr.next, count);
+		while (count.op != RxOp::RxoCount || count.alternate != instr.next)
+			program.decode(count.next, count);
+		if (count.repetition.min == 0)
+			addthread(Thread(count.next, thread.result), offset);
+	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
 		goto next;
-- 
2.43.0


From 82cd07555a71c72a6beaba6164117e6978f47fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 76/96] fix: a comma after a repetition count was taken as part
 of it

---
 rx/rxcompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..52edadf 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -169,9 +169,9 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the first number:
-			close = param.find(',');
-			if (close < 0)
-				close = param.find('}'); // Just one number?
+			close = param.find('}');
+			if (close >= 0 && param.substr(0, close).find(',') >= 0)
+				close = param.find(',');	// There are two numbers
 			if (close < 0)
 			{
 		bad_repetition:	error_message = "Bad repetition count";
-- 
2.43.0


From 416588e7d9e8122a8c7f90244b7cfaf4b4042134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 77/96] fix: a maximum repetition of zero was taken as no
 maximum

---
 rx/rxcompile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 52edadf..f0b9c1d 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -182,6 +182,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				min = param.substr(0, close).asInt32(&int_error, 10, &scanned);
 				if ((int_error && int_error != STRERR_NO_DIGITS) || min < 0)
 					goto bad_repetition;
+				if (!int_error && min == 0 && param[close] == '}')
+					goto zero_maximum;
 			}
 			i += close;	// Skip the ',' or '}'
 
@@ -194,6 +196,11 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				max = param.substr(0, close).asInt32(&int_error, 10, &scanned);
 				if ((int_error && int_error != STRERR_NO_DIGITS) || (max && max < min))
 					goto bad_repetition;
+				if (!int_error && max == 0)
+				{
+		zero_maximum:		error_message = "Maximum repetition of zero is not supported";
+					break;
+				}
 				i += close;
 			}
 			else
-- 
2.43.0


From 99c2b988a1c7510234473260eafc5b7c59936445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 78/96] fix: the offset of an error was that of the end of the
 expression

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index f0b9c1d..0145f31 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -113,7 +113,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
-	for (; ok && i < re.length(); i++)
+	for (; ok && !error_message && i < re.length(); i++)
 	{
 		switch (ch = re[i])
 		{
-- 
2.43.0


From 50ecc752da058c35f8600a0ccde8183bb80bf2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 79/96] fix: an unmatched closing parenthesis was rejected
 without a message

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 0145f31..d796390 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -641,7 +641,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// The first is the whole expression
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From e31b3b3ea7c49eedab02f7d87e462aa006a8a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 80/96] fix: ? was a repetition although the feature was not
 enabled, or rejected

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index d796390..06c17ee 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -139,6 +139,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = flush())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
-- 
2.43.0


From 6b949154d936392ebb556e4e7e519ed85c71b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 81/96] fix: a group was rejected for another kind of group's
 rejected feature

---
 rx/rxcompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 06c17ee..108f3e8 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -384,7 +384,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 
 			i += 2;	// Skip the '(?'
-			if (supported(RxFeature::Capture) && re[i] == '<')		// Capture
+			if (re[i] == '<' && supported(RxFeature::Capture))		// Capture
 			{
 				param = re.substr(++i);
 				close = param.find('>');
@@ -398,12 +398,12 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				ok = func(RxToken(RxOp::RxoNamedCapture, param));
 				break;
 			}
-			else if (supported(RxFeature::NonCapture) && re[i] == ':')	// Noncapturing group
+			else if (re[i] == ':' && supported(RxFeature::NonCapture))	// Noncapturing group
 			{
 				ok = func(RxToken(RxOp::RxoNonCapturingGroup));
 				break;
 			}
-			else if (supported(RxFeature::NegLookahead) && re[i] == '!') // Negative Lookahead
+			else if (re[i] == '!' && supported(RxFeature::NegLookahead)) // Negative Lookahead
 			{
 				ok = func(RxToken(RxOp::RxoNegLookahead));
 				break;
-- 
2.43.0


From 0a1b2d97fa9327d8ad75dd87628fd4b804f2d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 82/96] fix: escapes were accepted although their feature was
 rejected

---
 rx/rxcompile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 108f3e8..c9a97d5 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -214,16 +214,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '\\':		// Escape sequence
 			switch (ch = re[++i])
 			{
-			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-			case 'e': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-			case 'f': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
-			case 'n': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
-			case 't': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
-			case 'r': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
+			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
+			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
+			case 'f': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
+			case 'n': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
+			case 't': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
+			case 'r': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
 
 			case '0': case '1': case '2': case '3':	// Octal char constant
 			case '4': case '5': case '6': case '7':
-				if (!enabled(RxFeature::OctalChar))
+				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
 				param = re.substr(i, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
@@ -236,7 +236,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'x':			// Hex byte (1 or 2 hex digits follow)
-				if (!enabled(RxFeature::HexChar))
+				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
 				param = re.substr(++i, 2);
@@ -250,7 +250,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'u':			// Unicode (1-5 hex digits follow)
-				if (!enabled(RxFeature::UnicodeChar))
+				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
 				param = re.substr(++i, 5);
@@ -267,7 +267,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case 's':			// Whitespace
 			case 'd':			// Digit
 			case 'h':			// Hexdigit
-				if (!enabled(RxFeature::Shorthand))
+				if (!supported(RxFeature::Shorthand))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				// REVISIT: Also support \w, etc
@@ -275,7 +275,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				break;
 
 			case 'p':			// Posix character type
-				if (!enabled(RxFeature::PropertyChars))
+				if (!supported(RxFeature::PropertyChars))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				if (re[++i] != '{')
-- 
2.43.0


From 3bd77254ec183d9cec742b79e31f38d48d898b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 83/96] fix: a sign, blank or prefix was taken as part of a
 character escape

---
 rx/rxcompile.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index c9a97d5..939f4b5 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -101,6 +101,22 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 	int		min, max;
 	bool		char_class_negated;
 	StrVal		delayed;	// A sequence of ordinary characters to be matched.
+	// Scan up to max_digits digits at offset i. No sign, blank or prefix is part of a character escape.
+	auto		digits = [&](int max_digits, int radix) {
+				UCS4	value = 0;
+				for (scanned = 0; scanned < max_digits; scanned++)
+				{
+					UCS4	digit = re[i+scanned];
+					digit = digit >= '0' && digit <= '9' ? digit-'0'
+						: digit >= 'a' && digit <= 'f' ? digit-'a'+10
+						: digit >= 'A' && digit <= 'F' ? digit-'A'+10
+						: radix;
+					if (digit >= radix)
+						break;
+					value = value*radix + digit;
+				}
+				return value;
+			};
 	auto		flush = [&delayed, func]() {
 				if (delayed.length() > 0)
 				{
@@ -225,9 +241,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case '4': case '5': case '6': case '7':
 				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
-				param = re.substr(i, 3);
-				ch = param.asInt32(&int_error, 8, &scanned);
-				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
+				ch = digits(3, 8);
+				if (scanned == 0)
 				{
 					error_message = "Illegal octal character";
 					break;
@@ -239,9 +254,9 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
-				param = re.substr(++i, 2);
-				ch = param.asInt32(&int_error, 16, &scanned);
-				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
+				++i;
+				ch = digits(2, 16);
+				if (scanned == 0)
 				{
 					error_message = "Illegal hexadecimal character";
 					break;
@@ -253,9 +268,9 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
-				param = re.substr(++i, 5);
-				ch = param.asInt32(&int_error, 16, &scanned);
-				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
+				++i;
+				ch = digits(5, 16);
+				if (scanned == 0)
 				{
 					error_message = "Illegal Unicode escape";
 					break;
-- 
2.43.0


From 4b52fde881fa87283bf36dd358434d38ce13a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 84/96] fix: a backslash at the end of an expression was taken
 as an escaped NUL

---
 rx/rxcompile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 939f4b5..d00ba4b 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -228,6 +228,11 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '\\':		// Escape sequence
+			if (i+1 >= re.length())
+			{
+				error_message = "Incomplete escape";
+				break;
+			}
 			switch (ch = re[++i])
 			{
 			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-- 
2.43.0


From b5dcf1fc85abe02ac2da574cf5c2b50c5362f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 85/96] fix: a repetition after extended-RE whitespace repeated
 all the characters before it

---
 rx/rxcompile.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index d00ba4b..cfbe517 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -117,6 +117,18 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				}
 				return value;
 			};
+	auto		flush_to_repeat = [&delayed, func]() {	// A repetition applies just to the last character
+				bool	ok = true;
+				if (delayed.length() > 1)	// There's something between them, like extended-RE whitespace
+				{
+					ok = func(RxToken(RxOp::RxoLiteral, delayed.shorter(1)));
+					delayed = delayed.tail(1);
+				}
+				if (ok && delayed.length() > 0)
+					ok = func(RxToken(RxOp::RxoLiteral, delayed));
+				delayed = StrVal::null;
+				return ok;
+			};
 	auto		flush = [&delayed, func]() {
 				if (delayed.length() > 0)
 				{
@@ -157,7 +169,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '?':
 			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = enabled(RxFeature::AnyIsQuest) ? flush() : flush_to_repeat())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
 			else
@@ -167,7 +179,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '*':
 			if (!supported(RxFeature::ZeroOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_to_repeat())) break;
 			if (enabled(RxFeature::ZeroOrMoreAny))
 				ok = func(RxToken(RxOp::RxoAny));
 			ok = func(RxToken(RxOp::RxoRepetition, 0, 0));
@@ -176,14 +188,14 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '+':
 			if (!supported(RxFeature::OneOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_to_repeat())) break;
 			ok = func(RxToken(RxOp::RxoRepetition, 1, 0));
 			break;
 
 		case '{':
 			if (!supported(RxFeature::CountRepetition))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_to_repeat())) break;
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the first number:
-- 
2.43.0


From e6d463d879edaed1a580a841abd7c168fef47a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 86/96] fix: matching took time quadratic in the length of
 non-ASCII text

---
 include/strval.h |  3 +++
 rx/rxmatch.cpp   | 33 ++++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index c35317f..726c92c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -776,6 +776,9 @@ public:
 
 	static StrVal	format(StrVal f, VariantArray args);
 
+	bool		isRawBinary() const	// One character per byte?
+			{ return body->isRawBinary(); }
+
 protected:
 	StrValI(Body* s1, Index offs, Index len)	// offs/len not bounds-checked!
 			: Base(s1, offs, len) { }
diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2204cb3..56fc4b8 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -81,7 +81,7 @@ class RxMatch
 	};
 
 public:
-	RxMatch(const RxProgram& _program, StrVal _target);
+	RxMatch(const RxProgram& _program, StrVal _target, StrValIndex offset);
 	RxMatch(const RxMatch& _tocopy);
 
 	const RxResult	matchAt(RxStationID start, StrValIndex& offset);
@@ -91,6 +91,12 @@ private:
 	StrVal		target;			// The string we are searching
 	RxResult	result;			// Result from the successful thread
 
+	// The characters either side of the offset where threads are being added. Indexing would rescan UTF-8 from the start
+	const UTF8*	following;		// Pointer to what follows the after character
+	UCS4		before;
+	UCS4		after;
+	UCS4		nextChar() { return target.isRawBinary() ? *following++ : UTF8Get(following); }
+
 	// Concurrent threads of execution:
 	std::vector<Thread> current_threads;	// The threads we're currently evaluating
 	std::vector<Thread> next_threads;	// The threads that lead on from here
@@ -150,7 +156,7 @@ RxProgram::group_name(int group_number) const
 const RxResult
 RxProgram::matchAfter(StrVal target, StrValIndex offset) const
 {
-	RxMatch		match(*this, target);
+	RxMatch		match(*this, target, offset);
 	RxResult	result = match.matchAt(searchStation(), offset);
 	return result;
 }
@@ -158,7 +164,7 @@ RxProgram::matchAfter(StrVal target, StrValIndex offset) const
 const RxResult
 RxProgram::matchAt(StrVal target, StrValIndex offset) const
 {
-	RxMatch		match(*this, target);
+	RxMatch		match(*this, target, offset);
 	RxResult	result = match.matchAt(startStation(), offset);
 	return result;
 }
@@ -259,15 +265,26 @@ RxProgram::decode(RxStationID station, RxDecoded& instr) const
 	instr.next = (RxStationID)(nfa_p-nfa);
 }
 
-RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
+RxMatch::RxMatch(const RxProgram& _program, StrVal _target, StrValIndex offset)
 : program(_program)
 , target(_target)
+, before(0)
+, after(0)
 {
+	StrValIndex	bytes;
+	following = target.substr(offset).asUTF8(bytes);
+	if (offset > 0 && offset <= target.length())
+		before = target[offset-1];
+	if (offset < target.length())
+		after = nextChar();
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
+, following(_tocopy.following)
+, before(_tocopy.before)
+, after(_tocopy.after)
 {
 }
 
@@ -312,7 +329,7 @@ next:
 	switch (instr.op)
 	{
 	case RxOp::RxoBOL:			// Beginning of Line
-		if (offset == 0 || target[offset-1] == '\n')
+		if (offset == 0 || before == '\n')
 		{
 			thread.station = instr.next;
 			goto next;
@@ -321,7 +338,7 @@ next:
 
 	case RxOp::RxoEOL:			// End of Line
 		if (offset == target.length()	// REVISIT: If the input can be extended, this condition will become false
-		 || target[offset] == '\n')
+		 || after == '\n')
 		{
 			thread.station = instr.next;
 			goto next;
@@ -451,11 +468,13 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	{
 		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
 		visited.clear();
+		before = after;		// Add threads at the next offset
+		after = offset+1 < target.length() ? nextChar() : 0;
 		for (Thread* thread_p = current_threads.data(); thread_p < current_threads.data()+current_threads.size(); thread_p++)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
-			UCS4		ch = target[offset];
+			UCS4		ch = before;
 			bool		at_end = offset >= target.length();	// The text may contain NUL characters
 			enum {
 				failed,
-- 
2.43.0


From e970ecc6391f7c4b83ae5acca568ce4bb7d3e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 87/96] fix: Reserve enough NFA space for padded offsets and
 the station count

---
 rx/rxcompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index cfbe517..281be36 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -775,7 +775,8 @@ RxCompiler::compile(char*& nfa)
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
 	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
 	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	bytes_required += offsets_required * offset_max_bytes;
+	bytes_required += UTF8Len(2*station_count);	// The station count isn't bounded by the NFA size
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
-- 
2.43.0


From 8c57b29d625698db62cc051a315fd8a2dba76cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 88/96] fix: a repetition count above 65535 was taken modulo
 65536

---
 rx/strregex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/strregex.h b/rx/strregex.h
index 4266194..2362e08 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -87,8 +87,8 @@ enum class RxOp: char
 
 struct RxRepetitionRange
 {
-	uint16_t	min;
-	uint16_t	max;	// Zero means no maximum
+	int32_t		min;
+	int32_t		max;	// Zero means no maximum
 };
 
 class	RxToken;	// Passes information between the lexer and the parser
-- 
2.43.0


From eaf1742f0484393fef0c52cf0824e99d742b3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 89/96] fix: a forward offset was wrong when its adjustment
 made its encoding shorter

---
 rx/rxcompile.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 281be36..115dd97 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -864,11 +864,15 @@ RxCompiler::compile(char*& nfa)
 			 * taking one fewer bytes, a process that can only happen once(?).
 			 */
 			int		offset = offset_to - patch_location;
-			StrValIndex	byte_count = UTF8Len(zigzag(offset));
-			StrValIndex	shrinkage = offset_max_bytes - byte_count;
-			if (byte_count < offset_max_bytes	// We'll shuffle
-			 && patch_location < offset_to)		// And the patch location is prior to the target
-				offset -= shrinkage;		// The offset is now smaller
+			if (patch_location < offset_to)		// The patch location is prior to the target
+			{
+				StrValIndex	byte_count = offset_max_bytes, fewer;
+				while ((fewer = UTF8Len(zigzag(offset))) < byte_count)
+				{		// We'll shuffle, and the offset is now smaller
+					offset -= byte_count-fewer;
+					byte_count = fewer;
+				}
+			}
 
 			return patch_value_at(patch_location, offset);
 		};
-- 
2.43.0


From 29cf076fe76b9a154c4c1ac118029f0d210454c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 90/96] fix: a string that borrows static text leaked its body

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 726c92c..bf4bb42 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -314,6 +314,8 @@ public:
 			, offset(0)
 			, num_chars(body->numChars())
 			{
+				if (body->isStatic() && (Body*)body != &Body::nullBody())
+					body->Release();	// The Body keeps a reference to itself, but we must delete it
 			}
 	StrRefI(const char* data, Index length, size_t allocate = 0) // construct from length-terminated char data
 			: body(0)
@@ -831,7 +833,7 @@ private:
 				// A substring which is the last remaining ref must be copied even if unshared,
 				// because mutation works on the whole Body
 				bool	must_copy_part = offset > 0 || offset+length() < body->numChars();
-				if (must_copy_part || body->isShared())
+				if (must_copy_part || body->isShared() || body->isStatic())
 					copyBody();
 			}
 
-- 
2.43.0


From 5e22bd12ac480e79a5fadc5be13eeb3701725911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 91/96] fix: CowMap::remove used a key of the map after
 releasing the shared body it was in

---
 include/cowmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 52b83cf..790b2c6 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -71,7 +71,7 @@ public:
 	void	clear() { body = new Body(); }
 	void	insert(const Key k, const Value v)
 			{ Unshare(); body->insert(BaseVP(k, v)); }
-	void	remove(const Key& k)
+	void	remove(const Key k)		// Not a reference, k might be the key of an entry that Unshare releases
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-- 
2.43.0


From 8e12b6ffd4bee6f5d42e8c876ccf17b962bcd319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 92/96] fix: an array with a 16-bit index overran its
 allocation near the most elements it can hold

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index fd9dbfd..f86266e 100644
--- a/include/array.h
+++ b/include/array.h
@@ -611,6 +611,8 @@ protected:
 					return;		// Never release memory on a downsize
 
 				minimum = ((minimum-1)|0x7)+1;	// round up to multiple of 8
+				if (minimum > (Index)-1)
+					minimum = (Index)-1;	// The allocation must fit in an Index as well
 				if (num_alloc)	// Minimum growth 50% rounded up to nearest 16
 					num_alloc = ((num_alloc*3/2) | 0xF) + 1;
 				if (num_alloc < minimum)
-- 
2.43.0


From e5b877317bd6ade8d5beb9f122de060b4c7da2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 93/96] fix: scanning and indexing a string was quadratic,
 because the bookmark was never kept

---
 include/strval.h | 69 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index bf4bb42..5790fe4 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -425,13 +425,11 @@ public:
 	// Access the characters and character value:
 	UCS4		operator[](int charNum) const
 			{
-				if (charNum == length())
-					return '\0';
-				const char*	cp = nthChar(charNum);
-				if (!cp)
-					return UCS4_NONE;
-				return body->isRawBinary() ? *cp : UTF8Get(cp);
+				Bookmark	unsaved = mark;
+				return charAt(charNum, unsaved);
 			}
+	UCS4		operator[](int charNum)		// Save the bookmark, for scanning the characters in order
+			{ return charAt(charNum, mark); }
 	const char*	asUTF8()	// Null terminated. Must unshare data if it's a substring with elided suffix
 			{
 				if (offset+length() < body->numChars() // Substring ends before body does
@@ -499,7 +497,8 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				while (n < length() && (up = nthChar(n, scan)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -512,7 +511,8 @@ public:
 			{
 				Index		n = ((Index)before > length() ? length() : before)-1; // First Index we'll look at
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				while ((bp = nthChar(n, scan)) != 0)
 				{
 					if (ch == getChar(bp))
 						return n;		// Found at n
@@ -528,12 +528,14 @@ public:
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
 				const char*	ep = nthChar(length());
 				const char*	up;
-				while (s1.length() <= length() && n <= last_start && (up = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				while (s1.length() <= length() && n <= last_start && (up = nthChar(n, scan)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (s1.numBytes() <= ep-up && memcmp(up, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-up && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -548,12 +550,14 @@ public:
 					n = length()-s1.length();
 
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
 				const char*	ep = nthChar(length());
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				while ((bp = nthChar(n, scan)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (s1.numBytes() <= ep-bp && memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-bp && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
@@ -565,11 +569,13 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				Bookmark	s1scan(s1.mark);
+				while (n < length() && (up = nthChar(n, scan)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-						if (ch == s1[i])
+						if (ch == s1.charAt(i, s1scan))
 							return n;	// Found at n
 					n++;
 				}
@@ -580,11 +586,13 @@ public:
 			{
 				Index		n = ((Index)before > length() ? length() : before)-1;	// First Index we'll look at
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				Bookmark	s1scan(s1.mark);
+				while ((bp = nthChar(n, scan)) != 0)
 				{
 					UCS4	ch = getChar(bp);
 					for (Index i = 0; i < s1.length(); i++)
-						if (ch == s1[i])
+						if (ch == s1.charAt(i, s1scan))
 							return n;
 					n--;
 				}
@@ -596,11 +604,13 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				Bookmark	s1scan(s1.mark);
+				while (n < length() && (up = nthChar(n, scan)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-						if (ch == s1[i])
+						if (ch == s1.charAt(i, s1scan))
 							goto next;	// Found at n
 					return n;
 				next:
@@ -613,11 +623,13 @@ public:
 			{
 				Index		n = ((Index)before > length() ? length() : before)-1;	// First Index we'll look at
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	scan(mark);
+				Bookmark	s1scan(s1.mark);
+				while ((bp = nthChar(n, scan)) != 0)
 				{
 					UCS4	ch = getChar(bp);
 					for (Index i = 0; i < s1.length(); i++)
-						if (ch == s1[i])
+						if (ch == s1.charAt(i, s1scan))
 							goto next;	// Found at n
 					return n;
 				next:
@@ -785,11 +797,15 @@ protected:
 	StrValI(Body* s1, Index offs, Index len)	// offs/len not bounds-checked!
 			: Base(s1, offs, len) { }
 	const char*	nthChar(Index char_num) const	// Return a pointer to the start of the nth character
+			{
+				Bookmark	unsaved = mark;
+				return nthChar(char_num, unsaved);
+			}
+	const char*	nthChar(Index char_num, Bookmark& scan) const	// The same, saving the place in the caller's bookmark
 			{
 				if (char_num < 0 || char_num > length())
 					return 0;
-				Bookmark	unsaved = mark;
-				return body->nthChar(offset+char_num, unsaved);
+				return body->nthChar(offset+char_num, scan);
 			}
 	const char*	nthChar(Index char_num)	// Return a pointer to the start of the nth character
 			{
@@ -803,6 +819,15 @@ protected:
 private:
 	Bookmark	mark;
 
+	UCS4		charAt(int charNum, Bookmark& scan) const
+			{
+				if (charNum == length())
+					return '\0';
+				const char*	cp = nthChar(charNum, scan);
+				if (!cp)
+					return UCS4_NONE;
+				return body->isRawBinary() ? *cp : UTF8Get(cp);
+			}
 	UCS4		getChar(const char*& cp) const
 			{
 				if (body->isRawBinary())
-- 
2.43.0


From 4a7c630482cd0dffefd4da18530d7a8316bbb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 94/96] fix: copying an empty string allocated memory

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 5790fe4..f492447 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -393,7 +393,7 @@ public:
 	StrValI(const StrValI& s1)	// Normal copy constructor
 			: Base(s1)
 			{
-				if (s1.body->isStatic())	// Must not copy a reference to a non-allocated body
+				if (s1.body->isStatic() && (Body*)s1.body != &Body::nullBody())	// Must not copy a reference to a non-allocated body
 					Unshare();
 			}
 	StrValI(const StrRefI<Index>& s1)	// Copy from StrRef
-- 
2.43.0


From 4e70d81c09da4e05d2477e851c66513e9e56d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:41 +0000
Subject: [PATCH 95/96] fix: appending or unshifting an array's own element
 used its storage after freeing it

---
 include/array.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f86266e..34633a1 100644
--- a/include/array.h
+++ b/include/array.h
@@ -233,8 +233,9 @@ public:
 			}
 	ArrayR&		operator+=(const Element& addend)
 			{
+				const Element	copy(addend);	// addend might be one of our own elements
 				Unshare(1);
-				body->insert(offset+num_elements, &addend, 1);
+				body->insert(offset+num_elements, &copy, 1);
 				num_elements++;
 				return *this;
 			}
@@ -247,7 +248,13 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
+			{
+				const Element	copy(e);	// e might be one of our own elements
+				Unshare(1);
+				body->insert(offset, &copy, 1);
+				num_elements++;
+				return *this;
+			}
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if (&addend == this)
-- 
2.43.0


From d289439c27cf9713548ed5da88f6dc02c41c0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 96/96] fix: setting an array element from another of its own
 read the old body after releasing it

---
 include/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 34633a1..cc84734 100644
--- a/include/array.h
+++ b/include/array.h
@@ -188,8 +188,9 @@ public:
 	// Following methods usually mutate the current slice so must Unshare (copy) it.
 
 	const Element&	set(int elem_num, const Element& e)
-			{ Element& r = elem_mut(elem_num);	// Causes Unshare
-			  r = e;
+			{ const Element copy(e);		// e might be in the body that we stop sharing
+			  Element& r = elem_mut(elem_num);	// Causes Unshare
+			  r = copy;
 			  return r;
 			}
 	ArrayR&		remove(Index at, int len = -1)			// Delete a section from the middle
-- 
2.43.0

