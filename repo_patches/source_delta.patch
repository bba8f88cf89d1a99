From f8d9642fb749cedc373dad6c39be65265cf1a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 01/87] fix: reject surrogates and negative values as code
 points in UTF-8/UTF-16 conversion

---
 include/cybozu/string.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..f21e0c1 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -113,6 +113,7 @@ namespace string {
 */
 inline int GetCharSize(Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) return 1;
 	if (c <= 0x7ff) return 2;
 	if (c <= 0xd7ff) return 3;
@@ -200,6 +201,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 	};
 	Char16 c0 = *begin++;
 	if (!string_local::isLead(c0)) {
+		if (string_local::isTrail(c0)) return false;
 		c = c0;
 		return true;
 	}
@@ -216,7 +218,9 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 
 inline int toUtf8(char out[4], Char c)
 {
-	if (c <= 0x7f) {
+	if (c < 0) {
+		return 0;
+	} else if (c <= 0x7f) {
 		out[0] = static_cast<char>(c);
 		return 1;
 	} else if (c <= 0x7ff) {
@@ -243,7 +247,9 @@ inline int toUtf8(char out[4], Char c)
 
 inline int toUtf16(Char16 out[2], Char c)
 {
-	if (c <= 0xffff) {
+	if (!IsValidChar(c)) {
+		return 0;
+	} else if (c <= 0xffff) {
 		out[0] = static_cast<Char16>(c);
 		return 1;
 	} else if (c <= 0x0010ffff) {
-- 
2.43.0


From e480f45b3872bf3ee8bd40477e3b927da4cf437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:01 +0000
Subject: [PATCH 02/87] fix: String assign/append from a part of the string
 itself

---
 include/cybozu/string.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index f21e0c1..6187274 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -530,7 +530,7 @@ public:
 	*/
 	StringT& append(const CharT *str, size_type count)
 	{
-		return append(str, str + count);
+		str_.append(str, count); return *this;
 	}
 
 	/**
@@ -621,7 +621,7 @@ public:
 	*/
 	StringT& assign(const StringT& str)
 	{
-		clear(); return append(str);
+		str_.assign(str.str_); return *this;
 	}
 
 	/**
@@ -632,7 +632,7 @@ public:
 	*/
 	StringT& assign(const StringT& str, size_type off, size_type count)
 	{
-		clear(); return append(str, off, count);
+		str_.assign(str.str_, off, count); return *this;
 	}
 
 	/**
@@ -642,7 +642,7 @@ public:
 	*/
 	StringT& assign(const CharT *str, size_type count)
 	{
-		return assign(str, str + count);
+		str_.assign(str, count); return *this;
 	}
 
 	/**
@@ -651,7 +651,7 @@ public:
 	*/
 	StringT& assign(const CharT *str)
 	{
-		clear(); return append(str);
+		str_.assign(str); return *this;
 	}
 	StringT& assign(const Char16 *str)
 	{
-- 
2.43.0


From 6dbb77187740aef1a8f3d2deb96a5281f0a74eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 03/87] fix: CaseFind with a non-ASCII target read past the end
 of the target

---
 include/cybozu/string_operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index 92a0ddf..af07122 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -280,10 +280,10 @@ bool CaseEqual(const StringT& lhs, const char *rhs)
 template<class CharT>
 const CharT *CaseFind(const CharT *begin, const CharT *end, const char *targetBegin, const char *targetEnd = 0)
 {
-	const size_t n = targetEnd ? targetEnd - targetBegin : ::strlen(targetBegin);
-	typename string_local::SelectString<CharT>::string_type t(targetBegin, n);
+	typename string_local::SelectString<CharT>::string_type t(targetBegin, targetEnd ? targetEnd - targetBegin : ::strlen(targetBegin));
 	ToLower(t);
-	while (begin + n <= end) {
+	const size_t n = t.size();
+	while (n <= size_t(end - begin)) {
 		bool found = true;
 		for (size_t i = 0; i < n; i++) {
 			if (cybozu::tolower(begin[i]) != t[i]) {
-- 
2.43.0


From 8f019afed47a3fda71f0d70454c2ab7595803cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 04/87] fix: atoi accepted trailing characters after the
 minimum value and read past short strings

---
 include/cybozu/atoi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/atoi.hpp b/include/cybozu/atoi.hpp
index 3b5970a..2490c94 100644
--- a/include/cybozu/atoi.hpp
+++ b/include/cybozu/atoi.hpp
@@ -6,7 +6,7 @@
 	@author MITSUNARI Shigeo(@herumi)
 */
 
-#include <memory.h>
+#include <string.h>
 #include <limits>
 #include <cybozu/exception.hpp>
 
@@ -28,7 +28,7 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 			// skip leading zero
 			while (i < size && p[i] == '0') i++;
 			// check minimum
-			if (isMinus && size - i >= n - 1 && memcmp(max, &p[i], n - 1) == 0) {
+			if (isMinus && size - i >= n - 1 && strncmp(max, &p[i], n - 1) == 0 && (size - i == n - 1 || p[i + n - 1] == '\0')) {
 				if (b) *b = true;
 				return min;
 			}
-- 
2.43.0


From 98e16db874fbc44f597b10a0f6fc9dc32412bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 05/87] fix: exception::makeString read past the end of short
 NUL terminated strings

---
 include/cybozu/exception.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/exception.hpp b/include/cybozu/exception.hpp
index a9668ba..a9a98db 100644
--- a/include/cybozu/exception.hpp
+++ b/include/cybozu/exception.hpp
@@ -63,7 +63,10 @@ namespace exception {
 /* get max 16 characters to avoid buffer overrun */
 inline std::string makeString(const char *str, size_t size)
 {
-	return std::string(str, std::min<size_t>(size, 16));
+	const size_t maxLen = std::min<size_t>(size, 16);
+	size_t len = 0;
+	while (len < maxLen && str[len]) len++;
+	return std::string(str, len);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From a6cb308b57801abdbb038857aa8d3b42b3ee31e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:06 +0000
Subject: [PATCH 06/87] fix: loading a bool from a byte other than 0 and 1 was
 undefined behavior

---
 include/cybozu/serializer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/serializer.hpp b/include/cybozu/serializer.hpp
index 8deb19a..8ef61c8 100644
--- a/include/cybozu/serializer.hpp
+++ b/include/cybozu/serializer.hpp
@@ -99,7 +99,15 @@ void save(OutputStream& os, const T& x)
 template<class InputStream>void load(type& x, InputStream& is) { loadPod(x, is); } \
 template<class OutputStream>void save(OutputStream& os, type x) { savePod(os, x); }
 
-CYBOZU_SERIALIZER_MAKE_SERIALIZER_F(bool)
+// any nonzero byte means true
+template<class InputStream>void load(bool& x, InputStream& is)
+{
+	uint8_t v;
+	loadPod(v, is);
+	x = v != 0;
+}
+template<class OutputStream>void save(OutputStream& os, bool x) { savePod(os, x); }
+
 CYBOZU_SERIALIZER_MAKE_SERIALIZER_F(char)
 CYBOZU_SERIALIZER_MAKE_SERIALIZER_F(short)
 CYBOZU_SERIALIZER_MAKE_SERIALIZER_F(unsigned char)
-- 
2.43.0


From 47ef30286205314b92c35f9c4a3b8a9adaa5bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 07/87] fix: loading a set/map kept the previous elements
 unlike vector/list

---
 include/cybozu/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/serializer.hpp b/include/cybozu/serializer.hpp
index 8ef61c8..6ad93ab 100644
--- a/include/cybozu/serializer.hpp
+++ b/include/cybozu/serializer.hpp
@@ -302,6 +302,7 @@ void load(Container<K, Pred, Alloc>& x, InputStream& is, typename stream_local::
 {
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		K t;
 		load(t, is);
@@ -326,6 +327,7 @@ void load(Container<K, V, Pred, Alloc>& x, InputStream& is, typename stream_loca
 	typedef Container<K, V, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		std::pair<typename Map::key_type, typename Map::mapped_type> vt;
 		load(vt.first, is);
@@ -352,6 +354,7 @@ void load(Container<K, V, Hash, Pred, Alloc>& x, InputStream& is, typename strea
 	typedef Container<K, V, Hash, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 //	x.reserve(size); // tr1::unordered_map may not have reserve
 	cybozu::serializer_local::reserve_if_exists(x, size);
 	for (size_t i = 0; i < size; i++) {
-- 
2.43.0


From 8a75fa94c2a0804cb8f43a70e34c34e5e92e2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 08/87] fix: LineStream rejected a one character line with CRLF
 when maxLineSize is 1

---
 include/cybozu/line_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/line_stream.hpp b/include/cybozu/line_stream.hpp
index ac45ab1..f65c829 100644
--- a/include/cybozu/line_stream.hpp
+++ b/include/cybozu/line_stream.hpp
@@ -58,7 +58,7 @@ public:
 	explicit LineStreamT(Reader& reader, size_t maxLineSize = 1024 * 2)
 		: reader_(reader)
 		, maxLineSize_(maxLineSize)
-		, buf_(maxLineSize * 2, 0)
+		, buf_(maxLineSize < 2 ? maxLineSize + 2 : maxLineSize * 2, 0)
 		, bufSize_(0)
 		, next_(buf_.data())
 		, eof_(false)
-- 
2.43.0


From 2efdd0b195a9384416944e2d743466b9e7333cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:30 +0000
Subject: [PATCH 09/87] fix: CsvReader applied the line size limit to the whole
 input

---
 include/cybozu/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index f397105..ea6b197 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -60,6 +60,7 @@ public:
 	{
 		if (eof_) return false;
 		line_++;
+		lineSize_ = 0;
 		out.clear();
 		enum {
 			Top,
-- 
2.43.0


From c554e2065e862b84fcd7c56d65d244363551070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:30 +0000
Subject: [PATCH 10/87] fix: CsvReader lost the last row without LF and the
 missing quote error if the last field is empty

---
 include/cybozu/csv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index ea6b197..170ceec 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -76,7 +76,7 @@ public:
 		std::string str;
 		for (;;) {
 			int c = my_getchar();
-			if (c == EOF && str.empty()) return false;
+			if (c == EOF && state == Top && out.empty()) return false;
 			if (c == CR) continue;
 			switch (state) {
 			case Top:
-- 
2.43.0


From 89d403db5e892742233858c1c4fbe3a4a549361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:30 +0000
Subject: [PATCH 11/87] fix: CsvReader treated byte 0xff as end of file

---
 include/cybozu/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index 170ceec..f487cfe 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -154,12 +154,12 @@ private:
 	int my_getchar()
 	{
 		if (pos_ < bufSize_) {
-			return buf_[pos_++];
+			return static_cast<unsigned char>(buf_[pos_++]);
 		}
 		bufSize_ = cybozu::readSome(buf_, sizeof(buf_), is_);
 		if (bufSize_ > 0) {
 			pos_ = 1;
-			return buf_[0];
+			return static_cast<unsigned char>(buf_[0]);
 		} else {
 			pos_ = 0;
 			eof_ = true;
-- 
2.43.0


From a6667f6cc90aeb0bce14b0de00b043bbcb44e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 12/87] fix: MiniXml leaked the tree when parsing failed in the
 constructor or twice

---
 include/cybozu/minixml.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index e22c891..86ede7c 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -406,6 +406,9 @@ class MiniXml {
 		is.skipSpace();
 		std::string w = is.getWord(minixml::isName);
 		if (w != "<?xml") throw cybozu::Exception("xml:readHeader:") << w;
+		minixml::Attributes().swap(xmlAttr_);
+		delete root_;
+		root_ = 0;
 		root_ = new minixml::Node();
 		is.parseAttributes(xmlAttr_, false);
 	}
@@ -419,7 +422,12 @@ public:
 	MiniXml(const char *begin, const char *end)
 		: root_(0)
 	{
-		parse(begin, end);
+		try {
+			parse(begin, end);
+		} catch (...) {
+			delete root_;
+			throw;
+		}
 	}
 	template<class InputStream>
 	void parse(InputStream& is)
-- 
2.43.0


From abddec17b52ca8da0fa0e92c439b97d6edef4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 13/87] fix: MiniXml took the slash of an empty-element tag
 without attributes as a part of the name

---
 include/cybozu/minixml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index 86ede7c..e1bf699 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -209,7 +209,7 @@ inline bool isName(char c)
 
 inline bool isName2(char c)
 {
-	return !isSpace(c) && !isEqual(c) && !isQuote(c) && c != '>';
+	return !isSpace(c) && !isEqual(c) && !isQuote(c) && c != '>' && c != '/';
 }
 
 struct isAttrValue {
-- 
2.43.0


From db91e7128a777c6a9e1fa4520b436972f7de7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 14/87] fix: MiniXml output lost the text of elements

---
 include/cybozu/minixml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index e1bf699..2a0184d 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -178,7 +178,7 @@ struct Node {
 	}
 	friend inline std::ostream& operator<<(std::ostream& os, const Node& node)
 	{
-		os << "<" << node.name << node.attr << ">";
+		os << "<" << node.name << node.attr << ">" << node.content;
 		for (NodeList::const_iterator i = node.child.begin(), ie = node.child.end(); i != ie; ++i) {
 			os << **i;
 		}
-- 
2.43.0


From e1c3fbc3bbadd5ec8884b8dd65734bfba7f78795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:10 +0000
Subject: [PATCH 15/87] fix: ZlibDecompressor ignored the CRC32 and the size in
 the gzip trailer

---
 include/cybozu/zlib.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 41835f0..3f5cb93 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -216,6 +216,19 @@ class ZlibDecompressorT {
 		}
 		throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipHeader:bad gzip header") << std::string(header, 10);
 	}
+	void verifyGzipTail()
+	{
+		char tail[8];
+		size_t n = 0;
+		while (n < sizeof(tail) && z_.avail_in > 0) {
+			tail[n++] = (char)*z_.next_in++;
+			z_.avail_in--;
+		}
+		if (n < sizeof(tail)) readAll(&tail[n], sizeof(tail) - n);
+		if (cybozu::Get32bitAsLE(&tail[0]) != crc_ || cybozu::Get32bitAsLE(&tail[4]) != totalSize_) {
+			throw cybozu::Exception("zlib:ZlibDecompressorT:verifyGzipTail:bad gzip trailer");
+		}
+	}
 	ZlibDecompressorT(const ZlibDecompressorT&);
 	void operator=(const ZlibDecompressorT&);
 public:
@@ -265,12 +278,12 @@ public:
 			readGzipHeader();
 			readGzipHeader_ = true;
 		}
+		if (ret_ == Z_STREAM_END) return 0;
 		z_.next_out = (Bytef*)buf;
 		z_.avail_out = size;
 		do {
 			if (z_.avail_in == 0) {
 				z_.avail_in = (uint32_t)cybozu::readSome(buf_, maxBufSize, is_);
-				if (ret_ == Z_STREAM_END && z_.avail_in == 0) return 0;
 				z_.next_in = (Bytef*)buf_;
 			}
 			ret_ = inflate(&z_, Z_NO_FLUSH);
@@ -280,6 +293,11 @@ public:
 			}
 		} while (size == z_.avail_out);
 
+		if (useGzip_) {
+			crc_ = crc32(crc_, (const Bytef *)buf, size - z_.avail_out);
+			totalSize_ += size - z_.avail_out;
+			if (ret_ == Z_STREAM_END) verifyGzipTail();
+		}
 		return size - z_.avail_out;
 	}
 	bool isEmpty() const { return ret_ == Z_STREAM_END; }
-- 
2.43.0


From 560d19cd2ecb7a8740d3597aa1385124eb0a379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:10 +0000
Subject: [PATCH 16/87] fix: ZlibCompressor leaked the deflate state if writing
 the gzip header failed

---
 include/cybozu/zlib.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 3f5cb93..541c8e4 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -69,7 +69,12 @@ public:
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit2") << zlib_local::safePtr(z_.msg);
 			}
 			char header[] = "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03"; /* OS_CODE = 0x03(Unix) */
-			write_os(header, 10);
+			try {
+				write_os(header, 10);
+			} catch (...) {
+				deflateEnd(&z_);
+				throw;
+			}
 		} else {
 			if (deflateInit(&z_, compressionLevel) != Z_OK) {
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit") << zlib_local::safePtr(z_.msg);
-- 
2.43.0


From 6353bf41bdfd578b5131f365606127d78758b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 17/87] fix: BitVector comparison ignored the size

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index d53e9fd..8b66fc3 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -345,8 +345,8 @@ public:
 		}
 		return v;
 	}
-	bool operator==(const BitVectorT<T>& rhs) const { return v_ == rhs.v_; }
-	bool operator!=(const BitVectorT<T>& rhs) const { return v_ != rhs.v_; }
+	bool operator==(const BitVectorT<T>& rhs) const { return bitLen_ == rhs.bitLen_ && v_ == rhs.v_; }
+	bool operator!=(const BitVectorT<T>& rhs) const { return !(*this == rhs); }
 };
 
 #if (CYBOZU_OS_BIT == 32)
-- 
2.43.0


From e9452457551702c899b12915e7e8eb46ed1590b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 18/87] fix: BitVector init/append left bits beyond the end,
 which showed up after append or resize

---
 include/cybozu/bitvector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 8b66fc3..ab68afa 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -200,7 +200,7 @@ public:
 	void init(const T *buf, size_t bitLen)
 	{
 		resize(bitLen);
-		std::copy(buf, buf + v_.size(), &v_[0]);
+		CopyBit(v_.data(), buf, bitLen);
 	}
 	void resize(size_t bitLen)
 	{
@@ -274,9 +274,7 @@ public:
 		if (bitLen > unitBitSize) {
 			throw cybozu::Exception("BitVectorT:append:bad bitLen") << bitLen;
 		}
-		if (bitLen < unitBitSize) {
-			src &= GetMaskBit<T>(bitLen);
-		}
+		src = bitLen < unitBitSize ? src & GetMaskBit<T>(bitLen) : T(src);
 		const size_t q = bitLen_ / unitBitSize;
 		const size_t r = bitLen_ % unitBitSize;
 		resize(bitLen_ + bitLen);
-- 
2.43.0


From b7dd4e481c9d6a91bdbca5055c8d56f1b7414a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 19/87] fix: appending a BitVector to itself read freed memory

---
 include/cybozu/bitvector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index ab68afa..ce607d6 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -247,8 +247,8 @@ public:
 		ResetBlockBit(v_.data(), idx);
 	}
 	size_t size() const { return bitLen_; }
-	const T *getBlock() const { return &v_[0]; }
-	T *getBlock() { return &v_[0]; }
+	const T *getBlock() const { return v_.data(); }
+	T *getBlock() { return v_.data(); }
 	size_t getBlockSize() const { return v_.size(); }
 	/*
 		append src[0, bitLen)
@@ -292,6 +292,11 @@ public:
 	*/
 	void append(const BitVectorT<T>& v)
 	{
+		if (&v == this) {
+			const std::vector<T> src(v_);
+			append(src.data(), v.size());
+			return;
+		}
 		append(v.getBlock(), v.size());
 	}
 	/*
-- 
2.43.0


From b409c6447ab92679bd051ebbb60951508d1ae9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 20/87] fix: BitVector::extract accepted a huge position by
 integer overflow

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index ce607d6..f95ba7b 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -305,7 +305,7 @@ public:
 	void extract(T* dst, size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return;
-		if (pos + bitLen > bitLen_) {
+		if (pos > bitLen_ || bitLen > bitLen_ - pos) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
@@ -330,7 +330,7 @@ public:
 	T extract(size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return 0;
-		if (bitLen > unitBitSize || pos + bitLen > bitLen_) {
+		if (bitLen > unitBitSize || pos > bitLen_ || bitLen > bitLen_ - pos) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
-- 
2.43.0


From 8441780bd49b433b4156d9cc6850fdaca859e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 21/87] fix: SucVector counted the padding after the last bit
 in size(false) and select

---
 include/cybozu/sucvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 54c3039..8996395 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -164,6 +164,7 @@ class SucVectorT {
 				uint64_t v;
 				if (buf) {
 					v = pos < blkNum ? buf[pos++] : 0;
+					if (pos == blkNum && (bitSize_ & 63)) v &= cybozu::makeBitMask64(bitSize_ & 63);
 					blk.org[j] = v;
 				} else {
 					v = blk.org[j];
@@ -176,7 +177,7 @@ class SucVectorT {
 				subNum1 += c;
 			}
 		}
-		numTbl_[0] = blkNum * 64 - num1;
+		numTbl_[0] = bitSize_ - num1;
 		numTbl_[1] = num1;
 		initSelTbl();
 		freezed_ = true;
-- 
2.43.0


From 9a482345d0737ef427afa0b2544eda2254887c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 22/87] fix: a loaded SucVector accepted set() without updating
 rank

---
 include/cybozu/sucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 8996395..253de41 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -216,6 +216,7 @@ public:
 		} else {
 			initSelTbl();
 		}
+		freezed_ = true;
 	}
 	SucVectorT() : bitSize_(0), freezed_(false) { numTbl_[0] = numTbl_[1] = 0; }
 	SucVectorT(const uint64_t *buf, uint64_t bitSize)
-- 
2.43.0


From afa424d2d9e6d304d8cbfdd93ffd8533a4399996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 23/87] fix: CSucVector::init kept the index of the previous
 contents

---
 include/cybozu/csucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index f28d287..6c60d39 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -490,6 +490,7 @@ struct CSucVector {
 	}
 	void initBlockVec()
 	{
+		blkVec.clear();
 		blkVec.reserve(bitSize_ / skip + 16);
 		uint32_t orgPos = 0;
 		uint32_t rk = 0;
-- 
2.43.0


From 66845c6d814c63ede957d9f108f6a6a6393ce109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:54 +0000
Subject: [PATCH 24/87] fix: FMindex::init kept the frequencies and the sampled
 positions of the previous data

---
 include/cybozu/fmindex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 161c5c4..6cfe8a2 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -144,6 +144,8 @@ public:
 			throw cybozu::Exception("FMindexT:buildFMindex:skip is positive") << skip;
 		}
 		skip_ = skip;
+		freq.clear();
+		alignedSa.clear();
 		Vec v;
 		initCf(v, begin, end);
 		const size_t dataSize = v.size();
-- 
2.43.0


From 8f1f19704a59adbdbfadf8e50806f51300212807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:54 +0000
Subject: [PATCH 25/87] fix: FMindex of raw uint16_t data always failed because
 of too large valBitLen

---
 include/cybozu/fmindex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 6cfe8a2..00aca10 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -157,7 +157,7 @@ public:
 		}
 		Vec bwt;
 		initBwt(bwt, v, sa);
-		wm.init(bwt, getBitLen(charNum_));
+		wm.init(bwt, getBitLen(charNum_ - 1));
 
 #if 1
 		cybozu::BitVector bv;
-- 
2.43.0


From 15d340cc9a156238b1925e85e523eafed2823bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:54 +0000
Subject: [PATCH 26/87] fix: a copy of Frequency referred to the elements of
 the original

---
 include/cybozu/frequency.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cybozu/frequency.hpp b/include/cybozu/frequency.hpp
index 851ce45..2221d92 100644
--- a/include/cybozu/frequency.hpp
+++ b/include/cybozu/frequency.hpp
@@ -177,6 +177,20 @@ public:
 		clear();
 		init(begin, end);
 	}
+	// idx2ref_ must refer to its own m_
+	Frequency(const Frequency& rhs)
+		: m_(rhs.m_)
+	{
+		if (!rhs.idx2ref_.empty()) initIdx2Ref();
+	}
+	Frequency& operator=(const Frequency& rhs)
+	{
+		if (this == &rhs) return *this;
+		m_ = rhs.m_;
+		idx2ref_.clear();
+		if (!rhs.idx2ref_.empty()) initIdx2Ref();
+		return *this;
+	}
 	void clear()
 	{
 		m_.clear();
-- 
2.43.0


From 5cac0c918a14edf5a7da17eba204e233db19baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:04 +0000
Subject: [PATCH 27/87] fix: V128::shrBit and shlBit used an undefined
 operator|

---
 include/cybozu/v128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/v128.hpp b/include/cybozu/v128.hpp
index d3d129e..67d1bf6 100644
--- a/include/cybozu/v128.hpp
+++ b/include/cybozu/v128.hpp
@@ -318,7 +318,7 @@ template<int n>
 inline void V128::shrBit()
 {
 	assert(n < 64);
-	*this = psrlq<n>(*this) | psllq<64 - n>(psrldq<8>(*this));
+	*this = por(psrlq<n>(*this), psllq<64 - n>(psrldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = psrldq<8>(*this);
@@ -332,7 +332,7 @@ template<int n>
 inline void V128::shlBit()
 {
 	assert(n < 64);
-	*this = psllq<n>(*this) | psrlq<64 - n>(pslldq<8>(*this));
+	*this = por(psllq<n>(*this), psrlq<64 - n>(pslldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = pslldq<8>(*this);
-- 
2.43.0


From 1602d253aa63a0d15ac5c64b594ee3457bf1c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:24 +0000
Subject: [PATCH 28/87] fix: AlignedArray allocated too small memory for a huge
 size by integer overflow

---
 include/cybozu/array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/array.hpp b/include/cybozu/array.hpp
index 30df366..3c0fea1 100644
--- a/include/cybozu/array.hpp
+++ b/include/cybozu/array.hpp
@@ -77,6 +77,7 @@ class AlignedArray {
 	size_t allocSize_;
 	T *alloc(size_t size) const
 	{
+		if (size > size_t(-1) / sizeof(T)) throw std::bad_alloc();
 		T *p = static_cast<T*>(AlignedMalloc(size * sizeof(T), N));
 		if (p == 0) throw std::bad_alloc();
 		return p;
-- 
2.43.0


From f442374eab1a936543225699417d7e15267d5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 29/87] fix: a copy of Sha256/Sha512 shared and double freed
 the OpenSSL context

---
 include/cybozu/sha2.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/cybozu/sha2.hpp b/include/cybozu/sha2.hpp
index b977a4c..eca8c66 100644
--- a/include/cybozu/sha2.hpp
+++ b/include/cybozu/sha2.hpp
@@ -60,6 +60,19 @@ struct NewHash {
 		}
 		assert(md_);
 	}
+	NewHash(const NewHash& rhs)
+		: mdctx_(EVP_MD_CTX_new())
+		, md_(rhs.md_)
+	{
+		EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_);
+	}
+	NewHash& operator=(const NewHash& rhs)
+	{
+		if (this == &rhs) return *this;
+		md_ = rhs.md_;
+		EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_);
+		return *this;
+	}
 	~NewHash()
 	{
 		EVP_MD_CTX_free(mdctx_);
-- 
2.43.0


From 06cab653a2cf623c80da105a9b31d1310d827eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 30/87] fix: a copy of crypto::Hash shared and double freed the
 OpenSSL context

---
 include/cybozu/crypto.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 78c95e0..491171e 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -123,6 +123,21 @@ public:
 		reset();
 	}
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
+	Hash(const Hash& rhs)
+		: name_(rhs.name_)
+		, hashSize_(rhs.hashSize_)
+		, ctx_(EVP_MD_CTX_new())
+	{
+		EVP_MD_CTX_copy_ex(ctx_, rhs.ctx_);
+	}
+	Hash& operator=(const Hash& rhs)
+	{
+		if (this == &rhs) return *this;
+		name_ = rhs.name_;
+		hashSize_ = rhs.hashSize_;
+		EVP_MD_CTX_copy_ex(ctx_, rhs.ctx_);
+		return *this;
+	}
 	~Hash()
 	{
 		EVP_MD_CTX_free(ctx_);
-- 
2.43.0


From 851fa13eb7a4866be25893bc327556b86a6c405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 31/87] fix: a copy of crypto::Cipher shared and double freed
 the OpenSSL context

---
 include/cybozu/crypto.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 491171e..5a9bae5 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -327,6 +327,22 @@ public:
 			throw cybozu::Exception("crypto:Cipher:Cipher:name") << (int)name;
 		}
 	}
+	Cipher(const Cipher& rhs)
+		: cipher_(rhs.cipher_)
+		, ctx_(0)
+	{
+		ctx_ = EVP_CIPHER_CTX_new();
+		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
+		if (EVP_CIPHER_CTX_cipher(rhs.ctx_)) EVP_CIPHER_CTX_copy(ctx_, rhs.ctx_);
+	}
+	Cipher& operator=(const Cipher& rhs)
+	{
+		if (this == &rhs) return *this;
+		cipher_ = rhs.cipher_;
+		EVP_CIPHER_CTX_reset(ctx_);
+		if (EVP_CIPHER_CTX_cipher(rhs.ctx_)) EVP_CIPHER_CTX_copy(ctx_, rhs.ctx_);
+		return *this;
+	}
 	~Cipher()
 	{
 		if (ctx_) EVP_CIPHER_CTX_free(ctx_);
-- 
2.43.0


From 9ea7882a1a3c474ede287d869d469f7fd58c711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:47 +0000
Subject: [PATCH 32/87] fix: Cipher::setup read past the end of a short iv

---
 include/cybozu/crypto.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 5a9bae5..fb5c804 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -357,6 +357,11 @@ public:
 		if (keyLen != expectedKeyLen) {
 			throw cybozu::Exception("crypto:Cipher:setup:keyLen") << keyLen << expectedKeyLen;
 		}
+		const int ivLen = static_cast<int>(iv.size());
+		const int expectedIvLen = EVP_CIPHER_iv_length(cipher_);
+		if (ivLen < expectedIvLen) {
+			throw cybozu::Exception("crypto:Cipher:setup:ivLen") << ivLen << expectedIvLen;
+		}
 
 		int ret = EVP_CipherInit_ex(ctx_, cipher_, NULL, cybozu::cast<const uint8_t*>(key.c_str()), cybozu::cast<const uint8_t*>(iv.c_str()), mode == Encoding ? 1 : 0);
 		if (ret != 1) {
@@ -366,13 +371,6 @@ public:
 		if (ret != 1) {
 			throw cybozu::Exception("crypto:Cipher:setup:EVP_CIPHER_CTX_set_padding") << ret;
 		}
-/*
-		const int ivLen = static_cast<int>(iv.size());
-		const int expectedIvLen = EVP_CIPHER_CTX_iv_length(&ctx_);
-		if (ivLen != expectedIvLen) {
-			throw cybozu::Exception("crypto:Cipher:setup:ivLen") << ivLen << expectedIvLen;
-		}
-*/
 	}
 	/*
 		the size of outBuf must be larger than inBufSize + blockSize
-- 
2.43.0


From 9fe92944e011e2378e490f0df4bd93a96c6c0bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:52 +0000
Subject: [PATCH 33/87] fix: the error message of Time::fromString read past
 the end of short input

---
 include/cybozu/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index fbf7355..21c1347 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -160,7 +160,7 @@ public:
 			*pb = false;
 			return;
 		}
-		throw cybozu::Exception("time::fromString") << std::string(begin, 24);
+		throw cybozu::Exception("time::fromString") << std::string(begin, len < 24 ? len : 24);
 	}
 	void fromString(const char *begin, const char *end) { fromString(0, begin, end); }
 
-- 
2.43.0


From ab2979277f15195e3dd0b5e0cf71f666847ed881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:52 +0000
Subject: [PATCH 34/87] fix: Time::fromString read past the end of input with a
 month name

---
 include/cybozu/time.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index 21c1347..ab78662 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -110,6 +110,7 @@ public:
 			p = getMonth(&num, p);
 			if (p == 0) goto ERR;
 			tm.tm_mon = num;
+			if (end - p < 12) goto ERR; // -ddTHH:MM:SS
 			if (*p++ != sep) goto ERR;
 
 			tm.tm_mday = getNum(&b, p, 2, 1, 31);
-- 
2.43.0


From f154c89ba336a94475f87c0c738374290b40fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 35/87] fix: a failed Time::fromString changed msec

---
 include/cybozu/time.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index ab78662..92ec3d1 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -100,6 +100,7 @@ public:
 			const char *p = begin;
 			struct tm tm;
 			int num;
+			int msec = 0;
 			bool b;
 			tm.tm_year = getNum(&b, p, 4, 1970, 3000) - 1900;
 			if (!b) goto ERR;
@@ -134,12 +135,12 @@ public:
 			p += 2;
 
 			if (p == end) {
-				msec_ = 0;
+				msec = 0;
 			} else if (p + 1 == end && *p == 'Z') {
-				msec_ = 0;
+				msec = 0;
 				p++;
 			} else if (*p == '.' && (p + 4 == end || (p + 5 == end && *(p + 4) == 'Z'))) {
-				msec_ = getNum(&b, p + 1, 3, 0, 999);
+				msec = getNum(&b, p + 1, 3, 0, 999);
 				if (!b) goto ERR;
 //				p += 4;
 			} else {
@@ -151,6 +152,7 @@ public:
 #else
 			time_ = timegm(&tm);
 #endif
+			msec_ = msec;
 			if (pb) {
 				*pb = true;
 			}
-- 
2.43.0


From 6d5518971bd59cba81f0a4fa8e4489334903e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 36/87] fix: Time::fromString accepted -0 as a field

---
 include/cybozu/time.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index 92ec3d1..7bd2db0 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -234,6 +234,12 @@ private:
 
 	int getNum(bool *b, const char *in, size_t len, int min, int max) const
 	{
+		for (size_t i = 0; i < len; i++) {
+			if (in[i] < '0' || '9' < in[i]) {
+				*b = false;
+				return 0;
+			}
+		}
 		int ret = cybozu::atoi(b, in, len);
 		if (min <= ret && ret <= max) {
 			return ret;
-- 
2.43.0


From 59c57d6d0f075130e5f2b2e7af0688836cd47fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 37/87] fix: Pcg32::read could be used only for uint8_t,
 uint32_t and uint64_t

---
 include/cybozu/pcg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/pcg.hpp b/include/cybozu/pcg.hpp
index a02739b..5358dce 100644
--- a/include/cybozu/pcg.hpp
+++ b/include/cybozu/pcg.hpp
@@ -50,7 +50,7 @@ public:
 	void read(T *x, size_t n)
 	{
 		const size_t size = sizeof(T) * n;
-		uint8_t *p8 = static_cast<uint8_t*>(x);
+		uint8_t *p8 = static_cast<uint8_t*>(static_cast<void*>(x));
 		for (size_t i = 0; i < size; i++) {
 			p8[i] = static_cast<uint8_t>(get32());
 		}
-- 
2.43.0


From bd2625e1bf78a6e6c42051f2e0c0a3624e73fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 38/87] fix: RandomGenerator::read of 2GiB or more overflowed
 int

---
 include/cybozu/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/random_generator.hpp b/include/cybozu/random_generator.hpp
index 303b31c..be0f0d6 100644
--- a/include/cybozu/random_generator.hpp
+++ b/include/cybozu/random_generator.hpp
@@ -92,7 +92,7 @@ private:
 			return;
 		}
 		const size_t byteSize = sizeof(T) * bufNum;
-		*pb = ::fread(buf, 1, (int)byteSize, fp_) == byteSize;
+		*pb = ::fread(buf, 1, byteSize, fp_) == byteSize;
 	}
 private:
 	FILE *fp_;
-- 
2.43.0


From 923a7d856db01ad46551f906b1542173f8fa6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 39/87] fix: NormalRandomGenerator used the seed as the lower
 bound of the uniform generator

---
 include/cybozu/nlp/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/random.hpp b/include/cybozu/nlp/random.hpp
index 93f397d..c2bd542 100644
--- a/include/cybozu/nlp/random.hpp
+++ b/include/cybozu/nlp/random.hpp
@@ -52,7 +52,7 @@ class NormalRandomGenerator {
 	double s_;
 public:
 	explicit NormalRandomGenerator(double u = 0, double s = 1, int seed = 0)
-		: gen_(seed)
+		: gen_(0, 1, seed)
 		, u_(u)
 		, s_(s)
 	{
-- 
2.43.0


From 629e5c8dc6f950698b745ace5daeaade03d6994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 40/87] fix: Option silently dropped a bad value for
 appendParamVec

---
 include/cybozu/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 5dac705..ada1d0d 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -619,7 +619,10 @@ public:
 				}
 				if (!used) {
 					if (paramMode_ == P_variable) {
-						remains_.var.set(argv[pos]);
+						if (!remains_.var.set(argv[pos])) {
+							err.set(OptionError::BAD_VALUE, pos) << (std::string(argv[pos]) + " for " + remains_.opt);
+							goto ERR;
+						}
 					} else {
 						err.set(OptionError::REDUNDANT_VAL, pos) << argv[pos];
 						goto ERR;
-- 
2.43.0


From 528b815d5655649b6996c09b03759962f1b0e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 41/87] fix: a vector option took the delimiter as its value

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index ada1d0d..3d10dbf 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -587,7 +587,7 @@ public:
 					{
 						pos++;
 						int j = 0;
-						while (pos < argc && !isOpt(argv[pos])) {
+						while (pos < argc && !isOpt(argv[pos]) && !inDelimiters(argv[pos])) {
 							if (!info.var.set(argv[pos])) {
 								err.set(OptionError::BAD_VALUE, pos) << (std::string(argv[pos]) + " for -" + info.opt) << j;
 								goto ERR;
-- 
2.43.0


From 645d79dc672e8a3de7836897712d77c27b8dbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 42/87] fix: copying Option without appendParamVec dereferenced
 a null pointer

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 3d10dbf..a43ff11 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -252,7 +252,7 @@ class Var {
 	bool isSet_;
 public:
 	Var() : p_(0), isSet_(false) { }
-	Var(const Var& rhs) : p_(rhs.p_->clone()), isSet_(false) { }
+	Var(const Var& rhs) : p_(rhs.p_ ? rhs.p_->clone() : 0), isSet_(false) { }
 	template<class T>
 	explicit Var(T *x) : p_(new Holder<T>(x)), isSet_(false) { }
 
-- 
2.43.0


From 45d021bde981d7b15d8a73600f725a9c1652a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:26 +0000
Subject: [PATCH 43/87] fix: Option took the argument - as the help option if
 appendHelp was not called

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index a43ff11..7ea2a1e 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -553,7 +553,7 @@ public:
 			}
 			if (isOpt(argv[pos])) {
 				const std::string str = argv[pos] + 1;
-				if (helpOpt_ == str) {
+				if (!helpOpt_.empty() && helpOpt_ == str) {
 					usage();
 					exit(0);
 				}
-- 
2.43.0


From ecb45233cf394de9f5ea273d4f08b0856e79fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:22 +0000
Subject: [PATCH 44/87] fix: File::read looped forever at the end of file

---
 include/cybozu/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e177a2c..9607044 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -293,6 +293,7 @@ public:
 		char *p = static_cast<char *>(buf);
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("File:read:unexpected end of file") << name_ << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From 86c97f03a5def4fbd072aa509334625df632ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:22 +0000
Subject: [PATCH 45/87] fix: ~File did not close the file if sync failed

---
 include/cybozu/file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 9607044..0f5baf5 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -163,6 +163,12 @@ public:
 		if (!doClose_) return;
 		try {
 			sync();
+		} catch (std::exception& e) {
+			fprintf(stderr, "File:dstr:%s\n", e.what());
+		} catch (...) {
+			fprintf(stderr, "File:dstr:unknown\n");
+		}
+		try {
 			close();
 		} catch (std::exception& e) {
 			fprintf(stderr, "File:dstr:%s\n", e.what());
-- 
2.43.0


From 743aede5afcbf3cad27efd0e80bc8ebf5f39576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:22 +0000
Subject: [PATCH 46/87] fix: File leaked the file descriptor if seek failed in
 opening with append mode

---
 include/cybozu/file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 0f5baf5..71b2d6f 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -127,7 +127,12 @@ class File {
 		setHandle(name, mode);
 		if (isOpen()) {
 			if (mode & std::ios::app) {
-				seek(getSize(), std::ios::beg);
+				try {
+					seek(getSize(), std::ios::beg);
+				} catch (...) {
+					close();
+					throw;
+				}
 			}
 			return;
 		}
-- 
2.43.0


From f1f79b3a84ba30ebf987380dfd82fc8136bf1fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:22 +0000
Subject: [PATCH 47/87] fix: GetFileList returned a truncated list if readdir
 failed

---
 include/cybozu/file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 71b2d6f..7388852 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -620,8 +620,9 @@ inline bool GetFileList(FileList &list, const std::string& dir, const std::strin
 	Handle hdl(::opendir(dir.c_str()));
 	if (!hdl.isValid()) return false;
 	for (;;) {
+		errno = 0;
 		struct dirent *dp = ::readdir(hdl.dir_);
-		if (dp == 0) return true;
+		if (dp == 0) return errno == 0;
 		FileInfo fi(dp->d_name, (uint8_t)dp->d_type);
 		file_local::filterAndPush(list, fi, extension, cond);
 	}
-- 
2.43.0


From a961a85abb329883f9b860015ce2aac23e8a9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:27 +0000
Subject: [PATCH 48/87] fix: Socket::setLinger passed the address of the option
 as the option

---
 include/cybozu/socket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index c7493bd..3ef2f99 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -710,7 +710,7 @@ public:
 		struct linger linger;
 		linger.l_onoff = l_onoff;
 		linger.l_linger = l_linger;
-		setSocketOption(SO_LINGER, &linger);
+		setSocketOption(SO_LINGER, linger);
 	}
 	/**
 		get receive buffer size
-- 
2.43.0


From f81d4e84e11f99d457983feb75158fabc8b2b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:27 +0000
Subject: [PATCH 49/87] fix: SocketAddr::set leaked the first result if
 forceIpV6

---
 include/cybozu/socket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 3ef2f99..7e5c524 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -255,6 +255,7 @@ public:
 		const int s = getaddrinfo(address.c_str(), portStr, &hints, &result);
 		// s == EAI_AGAIN
 		if (s || forceIpV6) {
+			if (s == 0) freeaddrinfo(result);
 			hints.ai_family = AF_INET6;
 			hints.ai_flags |= AI_V4MAPPED;
 			if (getaddrinfo(address.c_str(), portStr, &hints, &result)) {
-- 
2.43.0


From 2e5d14a2d2f1e3fe8963bfe0c46607e2ebfcd275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:27 +0000
Subject: [PATCH 50/87] fix: a Socket stayed valid after a failed connect

---
 include/cybozu/socket.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 7e5c524..8abebac 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -547,6 +547,16 @@ public:
 	void connect(const cybozu::SocketAddr& addr, int msec = 0)
 	{
 		if (isValid()) throw cybozu::Exception("Socket:connect:already connect");
+		try {
+			connectInner(addr, msec);
+		} catch (...) {
+			close(cybozu::DontThrow);
+			throw;
+		}
+	}
+private:
+	void connectInner(const cybozu::SocketAddr& addr, int msec)
+	{
 		sd_ = ::socket(addr.getFamily(), SOCK_STREAM, IPPROTO_TCP);
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:connect:socket") << cybozu::NetErrorNo();
@@ -572,6 +582,7 @@ public:
 		}
 	}
 
+public:
 	static const int allowIPv4 = 1;
 	static const int allowIPv6 = 2;
 	/**
-- 
2.43.0


From fba72e830eb02f1693bbb37ada3efd980f79820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:27 +0000
Subject: [PATCH 51/87] fix: Socket::bind leaked the previous socket

---
 include/cybozu/socket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 8abebac..5d92020 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -592,6 +592,7 @@ public:
 	void bind(uint16_t port, int mode = allowIPv4 | allowIPv6)
 	{
 		const int family = (mode & allowIPv6) ? AF_INET6 : AF_INET;
+		close(cybozu::DontThrow);
 		sd_ = ::socket(family, SOCK_STREAM, IPPROTO_TCP);
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
-- 
2.43.0


From b2184dff013e2e636a1232a1a9a89fa5266a568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:27 +0000
Subject: [PATCH 52/87] fix: Socket::accept leaked the previous socket of
 client and hid the error of accept

---
 include/cybozu/socket.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 5d92020..82ee121 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -685,15 +685,16 @@ public:
 	*/
 	void accept(Socket& client, SocketAddr *paddr = 0) const
 	{
+		client.close(cybozu::DontThrow);
 		if (paddr) {
 			struct sockaddr *psa = &paddr->addr_.sa;
 			paddr->addrlen_ = sizeof(paddr->addr_);
 			client.sd_ = ::accept(sd_, psa, &paddr->addrlen_);
-			paddr->verify();
 		} else {
 			client.sd_ = ::accept(sd_, 0, 0);
 		}
 		if (!client.isValid()) throw cybozu::Exception("Socket:accept") << cybozu::NetErrorNo();
+		if (paddr) paddr->verify();
 	}
 
 	template<typename T>
-- 
2.43.0


From 59e8216db3afb5994db4e180c81e676e7f983c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 53/87] fix: ssl::ClientSocket::read looped forever at the end
 of the stream

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 83cbf24..c07cbbb 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -156,6 +156,7 @@ public:
 		char *p = (char *)buf;
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("ssl:ClientSocket:read:readSize is zero");
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From ae3f36157e2f7d7c3700dffb51b73abfc21c490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 54/87] fix: ssl::ClientSocket::close threw an exception unless
 the peer had already closed

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index c07cbbb..27a7a5d 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -181,7 +181,7 @@ public:
 	{
 		bool isOK = true;
 		if (soc_.isValid()) {
-			isOK = SSL_shutdown(ssl_) == 1;
+			isOK = SSL_shutdown(ssl_) >= 0;
 			if (!isOK) {
 				Engine::getInstance().putError();
 			}
-- 
2.43.0


From 97699d9e1c05af14183c8bf3daf1562a153ef27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 55/87] fix: ssl::ClientSocket took an old OpenSSL error of the
 thread as a failure of read/write

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 27a7a5d..96e70de 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -143,6 +143,7 @@ public:
 	{
 		int size = (int)std::min((size_t)0x7fffffff, bufSize);
 	RETRY:
+		ERR_clear_error(); // SSL_get_error refers to the error queue
 		int ret = SSL_read(ssl_, buf, size);
 		if (ret > 0) return ret;
 		ret = SSL_get_error(ssl_, ret);
@@ -166,6 +167,7 @@ public:
 		const char *p = (const char *)buf;
 		while (bufSize > 0) {
 			int size = (int)std::min((size_t)0x7fffffff, bufSize);
+			ERR_clear_error(); // SSL_get_error refers to the error queue
 			int ret = SSL_write(ssl_, p, size);
 			if (ret <= 0) {
 				ret = SSL_get_error(ssl_, ret);
-- 
2.43.0


From c5e4e36e5e5224cae6399911caf33977d965cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:13 +0000
Subject: [PATCH 56/87] fix: ssl::ClientSocket::connect failed if a signal
 interrupted the handshake

---
 include/cybozu/ssl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 96e70de..ec8f1c6 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -132,7 +132,14 @@ public:
 #endif
 		isOK = SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0;
 		if (!isOK) goto ERR_EXIT;
-		isOK = SSL_connect(ssl_) == 1;
+		for (;;) {
+			ERR_clear_error(); // SSL_get_error refers to the error queue
+			int ret = SSL_connect(ssl_);
+			isOK = ret == 1;
+			if (isOK) break;
+			ret = SSL_get_error(ssl_, ret);
+			if (ret != SSL_ERROR_WANT_READ && ret != SSL_ERROR_WANT_WRITE) break;
+		}
 		if (!isOK) goto ERR_EXIT;
 		return;
 	ERR_EXIT:
-- 
2.43.0


From 096ee9b4ee4df0a2ade1b7551007b0858423a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:43 +0000
Subject: [PATCH 57/87] fix: ssl.hpp freed the compression methods which
 OpenSSL 1.1.0 or later frees at exit

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index ec8f1c6..e2bc1e2 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -40,8 +40,10 @@ struct Engine {
 		ENGINE_cleanup();
 		ERR_free_strings();
 //		CONF_modules_unload(1); // openssl/conf.h
+#if OPENSSL_VERSION_NUMBER < 0x10100000L
 		/* this decreases one leak, but is this correct? */
 		OPENSSL_free(SSL_COMP_get_compression_methods());
+#endif
 	}
 	static Engine& getInstance()
 	{
-- 
2.43.0


From abea06f56786495cf65eb5827848978b0d586026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:57 +0000
Subject: [PATCH 58/87] fix: ThreadBase joined an undefined handle after a
 failed beginThread

---
 include/cybozu/thread.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/thread.hpp b/include/cybozu/thread.hpp
index ad92897..3f7a910 100644
--- a/include/cybozu/thread.hpp
+++ b/include/cybozu/thread.hpp
@@ -122,7 +122,11 @@ inline bool Begin(ThreadHandle& hdl, ThreadEntryCallback entryFct, void *arg, in
 			goto EXIT;
 		}
 	}
-	ret = pthread_create(&hdl, &attr, entryFct, arg);
+	{
+		ThreadHandle newHdl; // undefined if pthread_create fails
+		ret = pthread_create(&newHdl, &attr, entryFct, arg);
+		if (ret == 0) hdl = newHdl;
+	}
 EXIT:
 	if (pthread_attr_destroy(&attr)) {
 		perror("pthread_attr_destroy");
-- 
2.43.0


From 299e30fce3f593665928781a5a9c70617d11777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:57 +0000
Subject: [PATCH 59/87] fix: quit_signal_handler.hpp used CYBOZU_NOEXCEPT
 without including inttype.hpp

---
 include/cybozu/quit_signal_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/quit_signal_handler.hpp b/include/cybozu/quit_signal_handler.hpp
index 4ac2fea..f2e380a 100644
--- a/include/cybozu/quit_signal_handler.hpp
+++ b/include/cybozu/quit_signal_handler.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <stdio.h>
 #include <stdlib.h>
+#include <cybozu/inttype.hpp>
 
 namespace cybozu {
 
-- 
2.43.0


From e979083d86baee43bcfb1a443365b4efe821d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 60/87] fix: parallel_for destroyed running threads if
 beginThread failed

---
 include/cybozu/parallel.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 2d0afec..339659a 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -73,7 +73,11 @@ void parallel_for(T& target, N n, N threadNum)
 			begin = end;
 		}
 		for (N i = 0; i < threadNum; i++) {
-			if (!thread[i].beginThread()) throw cybozu::Exception("cybozu:parallel_for:can't beginThread") << i;
+			if (!thread[i].beginThread()) {
+				// the running threads use thread[]
+				for (N j = 0; j < i; j++) thread[j].joinThread();
+				throw cybozu::Exception("cybozu:parallel_for:can't beginThread") << i;
+			}
 		}
 		for (N i = 0; i < threadNum; i++) {
 			if (!thread[i].joinThread()) throw cybozu::Exception("cybozu:parallel_for:can't joinThread") << i;
-- 
2.43.0


From 305dacb3e287d40901725c7c1e3aad8264f935ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 61/87] fix: parallel_for lost an exception with an empty
 message and terminated for other types

---
 include/cybozu/parallel.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 339659a..2fd218b 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -20,12 +20,14 @@ struct Thread : public cybozu::ThreadBase {
 	N begin_;
 	N end_;
 	N threadIdx_;
+	bool hasErr_;
 	std::string err_;
 	Thread()
 		: t_(0)
 		, begin_(0)
 		, end_(0)
 		, threadIdx_(0)
+		, hasErr_(false)
 	{
 	}
 	void init(T& t, N begin, N end, N threadIdx)
@@ -34,6 +36,7 @@ struct Thread : public cybozu::ThreadBase {
 		begin_ = begin;
 		end_ = end;
 		threadIdx_ = threadIdx;
+		hasErr_ = false;
 		err_.clear();
 	}
 	void threadEntry()
@@ -42,11 +45,17 @@ struct Thread : public cybozu::ThreadBase {
 			try {
 				if (!(*t_)(i, threadIdx_)) break;
 			} catch (std::exception& e) {
+				hasErr_ = true;
 				err_ = e.what();
 				break;
+			} catch (...) {
+				hasErr_ = true;
+				err_ = "unknown exception";
+				break;
 			}
 		}
 	}
+	bool hasErr() const { return hasErr_; }
 	const std::string& getErr() const { return err_; }
 };
 
@@ -83,8 +92,7 @@ void parallel_for(T& target, N n, N threadNum)
 			if (!thread[i].joinThread()) throw cybozu::Exception("cybozu:parallel_for:can't joinThread") << i;
 		}
 		for (N i = 0; i < threadNum; i++) {
-			const std::string& err = thread[i].getErr();
-			if (!err.empty()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
+			if (thread[i].hasErr()) throw cybozu::Exception("cybozu:paralell_for") << i << thread[i].getErr();
 		}
 	}
 }
-- 
2.43.0


From 85a8631255d9034be16927ad1487200099256e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 62/87] fix: Logger::openFile leaked the new file if the old
 one could not be closed

---
 include/cybozu/log.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/log.hpp b/include/cybozu/log.hpp
index 21a16fe..593e090 100644
--- a/include/cybozu/log.hpp
+++ b/include/cybozu/log.hpp
@@ -94,7 +94,10 @@ public:
 		fp = fopen(path.c_str(), "a+b");
 #endif
 		if (fp == 0) throw cybozu::Exception("cybozu:Logger:openFile") << path;
-		if (!closeFile()) throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		if (!closeFile()) {
+			fclose(fp);
+			throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		}
 		fp_ = fp;
 		doClose_ = true;
 		useSyslog_ = false;
-- 
2.43.0


From 2a3881891c311adcdf7f2a73a16d7ee685a992f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 63/87] fix: process.hpp defined a non-inline function

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 62c264b..129aa5c 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -81,7 +81,7 @@ public:
 	}
 };
 
-bool toDevNull(int fd, int flags)
+inline bool toDevNull(int fd, int flags)
 {
 	int newFd = open("/dev/null", flags);
 
-- 
2.43.0


From 3388173d02f34c12048dd0ec63b4e6467361929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 64/87] fix: a child process got a closed stdin/stdout/stderr
 if it was closed in the parent

---
 include/cybozu/process.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 129aa5c..2e68fa3 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -86,6 +86,7 @@ inline bool toDevNull(int fd, int flags)
 	int newFd = open("/dev/null", flags);
 
 	if (newFd < 0) return false;
+	if (newFd == fd) return true;
 
 	int ret = dup2(newFd, fd);
 	close(newFd);
-- 
2.43.0


From bb5994bdb62ca8923e1dfa3636eec9bbabc83f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 65/87] fix: Process::run took a failed exec as success if a
 signal arrived and left a zombie process

---
 include/cybozu/process.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 2e68fa3..78e760b 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -23,6 +23,7 @@
 	#include <sys/types.h>
 	#include <sys/wait.h>
 	#include <stdlib.h>
+	#include <errno.h>
 #endif
 
 namespace cybozu {
@@ -72,7 +73,10 @@ public:
 	}
 	int read(char* buf, size_t size)
 	{
-		return ::read(fd_[Read], buf, size);
+		for (;;) {
+			int ret = ::read(fd_[Read], buf, size);
+			if (ret >= 0 || errno != EINTR) return ret;
+		}
 	}
 	~Pipe()
 	{
@@ -194,7 +198,7 @@ ERR_EXIT:
 		otherwise gets 'x' from child
 	*/
 	if (pipe.read(buf, 1) == 1) {
-		waitpid(pid, 0, WNOHANG);
+		while (waitpid(pid, 0, 0) < 0 && errno == EINTR) {}
 		return false;
 	}
 
-- 
2.43.0


From 1605f908c11910036b27105d4d733db94fd87733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 66/87] fix: a child process whose exec failed wrote the
 buffered output of the parent again

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 78e760b..dd07d95 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -187,7 +187,7 @@ ERR_EXIT:
 		*/
 		pipe.write("x", 1);
 		pipe.close(Pipe::Write);
-		::exit(1);
+		::_exit(1); // don't flush the buffers and call the atexit handlers of the parent
 	}
 
 	pipe.close(Pipe::Write);
-- 
2.43.0


From 7e77ac084771eb0c477cffe78e498bd5021de703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 67/87] fix: Process::run closed an undefined number of
 descriptors in the child

---
 include/cybozu/process.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index dd07d95..fc75567 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -67,6 +67,7 @@ public:
 			fd_[mode] = -1;
 		}
 	}
+	int getFd(Mode mode) const { return fd_[mode]; }
 	int write(const char* buf, size_t size)
 	{
 		return ::write(fd_[Write], buf, size);
@@ -174,9 +175,9 @@ static inline bool Start(Handle* hdl, const std::string& exe, const std::vector<
 		}
 		{
 			const int ret = static_cast<int>(sysconf(_SC_OPEN_MAX));
-			const int maxFd = ret < 0 ? 1024 : maxFd;
+			const int maxFd = ret < 0 ? 1024 : ret;
 			for (int i = 3; i < maxFd; i++) {
-				close(i);
+				if (i != pipe.getFd(Pipe::Write)) close(i); // used if execv fails
 			}
 		}
 
-- 
2.43.0


From fecbb2d62535a0a35b3fd1cc76267210c4871f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 68/87] fix: TopScore::add wrote out of range after getTable or
 setSize

---
 include/cybozu/nlp/top_score.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 7b4e446..0e1c8ec 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -5,6 +5,8 @@
 	@author MITSUNARI Shigeo(@herumi)
 */
 #include <vector>
+#include <algorithm>
+#include <stddef.h>
 
 namespace cybozu { namespace nlp {
 
@@ -40,6 +42,8 @@ public:
 	}
 	void add(Double score, T idx)
 	{
+		// getTable() and setSize() shrink tbl_
+		if (tbl_.size() < maxSize_) tbl_.resize(maxSize_);
 		// short cut
 		if (size_ == maxSize_ && score <= tbl_[size_ - 1].score) {
 			return;
-- 
2.43.0


From 0fef6fefcb6223eba6dfd2f4766d859606276a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 69/87] fix: TopScore of size 0 or 1 accessed out of range

---
 include/cybozu/nlp/top_score.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 0e1c8ec..59bc7e7 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -42,6 +42,7 @@ public:
 	}
 	void add(Double score, T idx)
 	{
+		if (maxSize_ == 0) return;
 		// getTable() and setSize() shrink tbl_
 		if (tbl_.size() < maxSize_) tbl_.resize(maxSize_);
 		// short cut
@@ -52,7 +53,7 @@ public:
 		if (size_ > 0) {
 			for (size_t i = 0; i < size_; i++) {
 				if (score > tbl_[i].score) {
-					int end = (int)std::min(maxSize_ - 2, size_ - 1);
+					int end = (int)std::min(maxSize_ - 1, size_) - 1;
 					for (int j = end; j >= (int)i; j--) {
 						tbl_[j + 1] = tbl_[j];
 					}
-- 
2.43.0


From baa9f278b2603a092bee4fae89ba3ece3f0ff771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 70/87] fix: Union::const_iterator::getMode returned nothing

---
 include/cybozu/nlp/sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 3442ff1..c2ce252 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -449,7 +449,7 @@ class Union {
 			if (isEnd) return;
 			detectMode();
 		}
-		Mode getMode() const { mode_; }
+		Mode getMode() const { return mode_; }
 		size_t pos() const { return pos_; }
 		bool hasVal1() const { return mode_ == Only1 || mode_ == Small || mode_ == Equal; }
 		bool hasVal2() const { return mode_ == Only2 || mode_ == Equal || mode_ == Large; }
-- 
2.43.0


From 923646b66ac99b36ca8c0c8b36b424ea42390448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 71/87] fix: tfidf.hpp could not be compiled alone

---
 include/cybozu/nlp/tfidf.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index be31cfc..ae083a6 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -8,6 +8,10 @@
 #include <set>
 #include <map>
 #include <string>
+#include <vector>
+#include <fstream>
+#include <algorithm>
+#include <math.h>
 #include <stdio.h>
 #include <cybozu/string_operation.hpp>
 #include <cybozu/nlp/sparse.hpp>
-- 
2.43.0


From 2e41307cdfc85e5d3926f81ae3c39b529fa54f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 72/87] fix: Df counted a document more than once if a word
 appeared in upper and lower case

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index ae083a6..4123cf6 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -78,7 +78,7 @@ struct Df {
 			id2word_.push_back(lower);
 			df_.resize(id2word_.size());
 		}
-		if (set_.insert(word).second) {
+		if (set_.insert(lower).second) {
 			df_[ret.first->second]++;
 		}
 	}
-- 
2.43.0


From b291dc8b86811c093e859805336488680e5ad6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 73/87] fix: TfIdf::term made as many vectors as words, not as
 documents

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 4123cf6..9179efb 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -191,7 +191,7 @@ struct TfIdf {
 		for (size_t i = 0, n = df_.size(); i < n; i++) {
 			idf_[i] = logN - log(double(df_[i]));
 		}
-		for (size_t i = 0, n = df_.size(); i < n; i++) {
+		for (size_t i = 0, n = tf_.size(); i < n; i++) {
 			const Int2Int& iv = tf_[i];
 			DoubleSvec v;
 			for (Int2Int::const_iterator j = iv.begin(), je = iv.end(); j != je; ++j) {
-- 
2.43.0


From c837579d6ddbcfa001ba591ecd62a900d95f4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 74/87] fix: Plsi::startLearning called again made a broken
 model

---
 include/cybozu/nlp/plsi.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/nlp/plsi.hpp b/include/cybozu/nlp/plsi.hpp
index a03b0be..6f2a16c 100644
--- a/include/cybozu/nlp/plsi.hpp
+++ b/include/cybozu/nlp/plsi.hpp
@@ -220,6 +220,9 @@ public:
 	{
 		size_t M = users_.size();
 		size_t N = items_.size();
+		z_.clear();
+		user_z_.clear();
+		item_z_.clear();
 		user_z_.resize(K);
 		item_z_.resize(K);
 		cybozu::nlp::UniformRandomGenerator rand(0.25, 0.75);
-- 
2.43.0


From d75803b9e8347ef681eac3b2679b3a1094a5f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 75/87] fix: Plsi::search_items and similar_items read out of
 range for an unknown key

---
 include/cybozu/nlp/plsi.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/nlp/plsi.hpp b/include/cybozu/nlp/plsi.hpp
index 6f2a16c..094bbc2 100644
--- a/include/cybozu/nlp/plsi.hpp
+++ b/include/cybozu/nlp/plsi.hpp
@@ -9,6 +9,7 @@
 #include <map>
 #include <limits>
 #include <math.h>
+#include <cybozu/exception.hpp>
 #include <cybozu/string_operation.hpp>
 #include <cybozu/time.hpp>
 #include <cybozu/nlp/random.hpp>
@@ -104,6 +105,7 @@ public:
 	*/
 	cybozu::nlp::TopScore<size_t>::Table search_items(USER_TYPE user, int top = 10) {
 		int K = (int)z_.size();
+		if (!hasKey(users_, user)) throw cybozu::Exception("cybozu:Plsi:search_items:unknown user") << user;
 		size_t user_id = get_user_id(user);
 
 		double p_x = 0; // p(x) = sum p(z)p(x|z)
@@ -130,6 +132,7 @@ public:
 	*/
 	cybozu::nlp::TopScore<size_t>::Table similar_items(ITEM_TYPE item, SEARCH_TYPE search_type, int top=10) {
 		int K = (int)z_.size();
+		if (!hasKey(items_, item)) throw cybozu::Exception("cybozu:Plsi:similar_items:unknown item") << item;
 		size_t target_item_id = get_item_id(item);
 
 		cybozu::nlp::TopScore<size_t> ranking(top);
-- 
2.43.0


From c3c66ce4a4fe6219eb805ab8199eb8fa4617a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 76/87] fix: svd::LoadHeader used undefined values for a short
 header

---
 include/cybozu/nlp/svd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 6a2f3a0..7611238 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -228,7 +228,7 @@ inline bool LoadHeader(bool *isMatrix, bool *isSparse, int *row, int *col, std::
 	std::string line;
 	if (std::getline(ifs, line)) {
 		std::istringstream is(line);
-		char c, vec, type;
+		char c = 0, vec = 0, type = 0;
 		is >> c >> vec >> type >> *row >> *col;
 		if (c != '#') {
 			fprintf(stderr, "top char is #(%c)\n", c);
-- 
2.43.0


From 35edcd6501294bb1218c6dbd26493488f8a57f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 77/87] fix: svd::LoadMatrix and LoadSparseMatrix ignored the
 rest of a broken line

---
 include/cybozu/nlp/svd.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 7611238..7d626d2 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -291,14 +291,18 @@ bool LoadMatrix(Matrix& M, const std::string& input)
 				int idx;
 				char sep;
 				double v;
-				is >> idx >> sep >> v;
-				if (!is) break;
-				if (sep != ':' || idx < 0 || idx >= col) {
+				if (!(is >> idx)) break;
+				is >> sep >> v;
+				if (!is || sep != ':' || idx < 0 || idx >= col) {
 					fprintf(stderr, "can't read %s\n", line.c_str());
 					return false;
 				}
 				M(i, idx) = typename Matrix::Scalar(v);
 			}
+			if (!is.eof()) {
+				fprintf(stderr, "can't read %s\n", line.c_str());
+				return false;
+			}
 		}
 	} else {
 		for (int i = 0; i < row; i++) {
@@ -343,14 +347,18 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 			int idx;
 			char sep;
 			double v;
-			is >> idx >> sep >> v;
-			if (!is) break;
-			if (sep != ':' || idx < 0 || idx >= col) {
+			if (!(is >> idx)) break;
+			is >> sep >> v;
+			if (!is || sep != ':' || idx < 0 || idx >= col) {
 				fprintf(stderr, "can't read %s\n", line.c_str());
 				return false;
 			}
 			M.insertBack(i, idx) = typename Matrix::Scalar(v);
 		}
+		if (!is.eof()) {
+			fprintf(stderr, "can't read %s\n", line.c_str());
+			return false;
+		}
 	}
 	M.finalize();
 	return true;
-- 
2.43.0


From 8bdb96007bf474c70bcce7ceb0ffacb908a80037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 78/87] fix: svd::LoadSparseMatrix made a broken matrix if the
 indices were not ascending

---
 include/cybozu/nlp/svd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 7d626d2..dca27c0 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -343,6 +343,7 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 		}
 		std::istringstream is(line);
 		M.startVec(i);
+		int prev = -1;
 		for (;;) {
 			int idx;
 			char sep;
@@ -353,6 +354,11 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 				fprintf(stderr, "can't read %s\n", line.c_str());
 				return false;
 			}
+			if (idx <= prev) { // insertBack needs ascending order
+				fprintf(stderr, "bad order %s\n", line.c_str());
+				return false;
+			}
+			prev = idx;
 			M.insertBack(i, idx) = typename Matrix::Scalar(v);
 		}
 		if (!is.eof()) {
-- 
2.43.0


From dd2722051a5490cd763094eff4bb7e146306c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:56 +0000
Subject: [PATCH 79/87] fix: regex made from a String ignored the pattern after
 NUL

---
 include/cybozu/regex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/regex.hpp b/include/cybozu/regex.hpp
index fec9ff4..2bf634e 100644
--- a/include/cybozu/regex.hpp
+++ b/include/cybozu/regex.hpp
@@ -321,7 +321,7 @@ public:
 	explicit regex(const Char16* p, flag_type f = regex_constants::ECMAScript)
 		: Base(String(p).c_str(), f) {}
 	explicit regex(const String& p, flag_type f = regex_constants::ECMAScript)
-		: Base(p.c_str(), f) {}
+		: Base(p.c_str(), p.c_str() + p.size(), f) {}
 	regex(const Char* p1, const Char* p2, flag_type f = regex_constants::ECMAScript)
 		: Base(p1, p2, f) {}
 	regex(const Char* p, size_type len, flag_type f)
-- 
2.43.0


From 7b40f7810055116ec14ef3c1130cd25550aff411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:27 +0000
Subject: [PATCH 80/87] fix: Socket::bind kept the socket open if an option
 could not be set

---
 include/cybozu/socket.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 82ee121..b9e7229 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -597,13 +597,18 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
 		}
-		setSocketOption(SO_REUSEADDR, 1);
+		try {
+			setSocketOption(SO_REUSEADDR, 1);
+			if (mode & allowIPv6) setSocketOption(IPV6_V6ONLY, (mode & allowIPv4) ? 0 : 1, IPPROTO_IPV6);
+		} catch (...) {
+			close(cybozu::DontThrow);
+			throw;
+		}
 		struct sockaddr_in6 addr6;
 		struct sockaddr_in addr4;
 		struct sockaddr *addr;
 		socklen_t addrLen;
 		if (mode & allowIPv6) {
-			setSocketOption(IPV6_V6ONLY, (mode & allowIPv4) ? 0 : 1, IPPROTO_IPV6);
 			memset(&addr6, 0, sizeof(addr6));
 			addr6.sin6_family = AF_INET6;
 			addr6.sin6_port = htons(port);
-- 
2.43.0


From b7f26c8166b56309d3f82bf9f697af0bce844cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:27 +0000
Subject: [PATCH 81/87] fix: Socket::accept kept the client open if its address
 is bad

---
 include/cybozu/socket.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index b9e7229..859ac41 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -699,7 +699,14 @@ public:
 			client.sd_ = ::accept(sd_, 0, 0);
 		}
 		if (!client.isValid()) throw cybozu::Exception("Socket:accept") << cybozu::NetErrorNo();
-		if (paddr) paddr->verify();
+		if (paddr) {
+			try {
+				paddr->verify();
+			} catch (...) {
+				client.close(cybozu::DontThrow);
+				throw;
+			}
+		}
 	}
 
 	template<typename T>
-- 
2.43.0


From ffb7c37e8922b03b7a571e38807e806b288db79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 82/87] fix: intToDec of the minimum int gave a wrong text

---
 include/cybozu/itoa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/itoa.hpp b/include/cybozu/itoa.hpp
index 9686938..3d004ac 100644
--- a/include/cybozu/itoa.hpp
+++ b/include/cybozu/itoa.hpp
@@ -132,7 +132,7 @@ size_t intToDec(char *buf, size_t bufSize, T x)
 		}
 	}
 	bool negative = x < 0;
-	uint64_t absX = negative ? -x : x;
+	uint64_t absX = negative ? 0 - static_cast<uint64_t>(x) : static_cast<uint64_t>(x);
 	size_t n = uintToDec(buf, bufSize, absX);
 	if (n == 0) return 0;
 	if (negative) {
-- 
2.43.0


From 711819e791c5be925c27c315d73662bb808b4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:34 +0000
Subject: [PATCH 83/87] fix: MiniXml overflowed the stack on a deeply nested
 document

---
 include/cybozu/minixml.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index 2a0184d..d8e8048 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -134,8 +134,13 @@ struct Node {
 	}
 	~Node()
 	{
-		for (NodeList::iterator i = child.begin(); i != child.end(); ++i) {
-			delete *i;
+		// not recursive because the depth of a document is not limited
+		while (!child.empty()) {
+			Node *p = child.front();
+			child.pop_front();
+			if (p == 0) continue;
+			child.splice(child.begin(), p->child);
+			delete p;
 		}
 	}
 	/*
@@ -371,6 +376,8 @@ struct InputStream {
 	}
 	void parseNode(Node *node)
 	{
+		// not recursive because the depth of a document is not limited
+		const Node *const top = node;
 		for (;;) {
 			skipSpace();
 			if (empty()) throw cybozu::Exception("xml:parseNode:no end tag1") << node->name;
@@ -385,11 +392,13 @@ struct InputStream {
 				if (node->name != name) {
 					throw cybozu::Exception("xml:parseNode:") << node->name << name;
 				}
-				return;
+				if (node == top) return;
+				node = node->parent;
+				continue;
 			}
 			Node *child = node->appendChild(name, attr);
 			if (type == BeginTag) {
-				parseNode(child);
+				node = child;
 			}
 		}
 	}
-- 
2.43.0


From 76d80a56265499e4057af91fa05fd0e955e77a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:38 +0000
Subject: [PATCH 84/87] fix: String append and assign of a range of the string
 itself read freed memory

---
 include/cybozu/string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 6187274..3852d15 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -560,11 +560,13 @@ public:
 	template<class Iterator>
 	StringT& append(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
+		BasicString str; // [begin, end) may be a part of str_
 		while (begin != end) {
 			CharT c;
 			c = getOneChar(begin, end);
-			str_.push_back(c);
+			str.push_back(c);
 		}
+		str_.append(str);
 		return *this;
 	}
 
@@ -676,7 +678,8 @@ public:
 	template<class Iterator>
 	StringT& assign(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
-		clear(); return append(begin, end);
+		StringT str(begin, end);
+		swap(str); return *this;
 	}
 
 	// assign [First, end), const pointers
-- 
2.43.0


From 82232aee263c45fab9c4d64d262347a814fae754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 85/87] fix: ToLower and ToUpper appending a string to itself
 wrote beyond the string

ChangeCase took the end of the input after resizing the output, so when both are
the same object it transformed twice the length and wrote past the end.
---
 include/cybozu/string_operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index af07122..05ba95c 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -126,9 +126,10 @@ inline Iterator GetTrimPosition(Iterator begin, Iterator &end, bool (*isSpace)(t
 template<class StringT1, class StringT2, class Func>
 void ChangeCase(StringT1& out, const StringT2& in, Func f, bool doAppend)
 {
-	size_t offset = doAppend ? out.size() : 0;
-	out.resize(offset + in.size());
-	std::transform(in.begin(), in.end(), out.begin() + offset, f);
+	const size_t offset = doAppend ? out.size() : 0;
+	const size_t size = in.size(); // in may be out itself
+	out.resize(offset + size);
+	std::transform(in.begin(), in.begin() + size, out.begin() + offset, f);
 }
 
 template<class CharT>struct SelectString;
-- 
2.43.0


From 3e5464aaf361472cbf04059b00bb7a716bb106c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 86/87] fix: Process reported a failed start as success if
 stdin, stdout or stderr was closed

---
 include/cybozu/process.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index fc75567..7c1a562 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -55,6 +55,14 @@ public:
 		if (::pipe (fd_) < 0) {
 			return false;
 		}
+		// stdin, stdout and stderr of the child are replaced, so don't use them if they are closed in the parent
+		for (int i = 0; i < 2; i++) {
+			if (fd_[i] > 2) continue;
+			const int fd = ::fcntl(fd_[i], F_DUPFD, 3);
+			if (fd < 0) return false;
+			::close(fd_[i]);
+			fd_[i] = fd;
+		}
 		if (::fcntl (fd_[Write], F_SETFD, FD_CLOEXEC) < 0) {
 			return false;
 		}
-- 
2.43.0


From 68b855e98b8b0a724a5ea25ce5e26ccb5dd7f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 87/87] fix: ssl::ClientSocket could not connect again after
 close

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index e2bc1e2..659806b 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -132,6 +132,8 @@ public:
 			throw cybozu::Exception("ssl:ClientSocket:connect:large socket handle") << soc_.sd_;
 		}
 #endif
+		isOK = SSL_clear(ssl_) == 1; // forget the previous connection
+		if (!isOK) goto ERR_EXIT;
 		isOK = SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0;
 		if (!isOK) goto ERR_EXIT;
 		for (;;) {
-- 
2.43.0

