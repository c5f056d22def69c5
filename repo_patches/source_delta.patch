From d6125331479cc5bfe77cf0d0b0baf6e934d9f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 01/30] fix: UrlDecode must not read past the end when a
 percent sign is one of the last two characters

---
 daemon/util/Util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index f138968..f6e06f3 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1275,8 +1275,10 @@ void WebUtil::UrlDecode(char* raw)
 			case '%':
 				{
 					p++;
-					uchar c1 = *p++;
-					uchar c2 = *p++;
+					uchar c1 = *p;
+					if (c1) p++;
+					uchar c2 = *p;
+					if (c2) p++;
 					c1 = '0' <= c1 && c1 <= '9' ? c1 - '0' : 'A' <= c1 && c1 <= 'F' ? c1 - 'A' + 10 :
 						'a' <= c1 && c1 <= 'f' ? c1 - 'a' + 10 : 0;
 					c2 = '0' <= c2 && c2 <= '9' ? c2 - '0' : 'A' <= c2 && c2 <= 'F' ? c2 - 'A' + 10 :
-- 
2.43.0


From 9cd026e375670465133c28564715b5e3cb266fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 02/30] fix: XmlDecode must stop at the end of text for numeric
 or incomplete entities

---
 daemon/util/Util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index f6e06f3..1c70d5b 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -891,14 +891,14 @@ void WebUtil::XmlDecode(char* raw)
 					else if (*p == '#')
 					{
 						int code = atoi((p++)+1);
-						while (strchr("0123456789;", *p)) p++;
+						while (*p && strchr("0123456789;", *p)) p++;
 						*output++ = (char)code;
 					}
 					else
 					{
 						// unknown entity, keep as is
 						*output++ = *(p-1);
-						*output++ = *p++;
+						if (*p) *output++ = *p++;
 					}
 					break;
 				}
-- 
2.43.0


From 76b488a24cff13014a5b73c34ce10b33c8d624bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 03/30] fix: XmlRemoveEntities must stop at the end of text for
 an unterminated entity

---
 daemon/util/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 1c70d5b..af184ec 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -981,7 +981,7 @@ void WebUtil::XmlRemoveEntities(char* raw)
 			case '&':
 			{
 				char* p2 = p+1;
-				while (isalpha(*p2) || strchr("0123456789#", *p2)) p2++;
+				while (isalpha(*p2) || (*p2 && strchr("0123456789#", *p2))) p2++;
 				if (*p2 == ';')
 				{
 					*output++ = ' ';
-- 
2.43.0


From 919765b123df1ef4c7db02d3537a00760457e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 04/30] fix: JsonDecode must not read past the end when text
 ends inside an escape sequence

---
 daemon/util/Util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index af184ec..b62a682 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1164,8 +1164,11 @@ void WebUtil::JsonDecode(char* raw)
 							break;
 						case 'u':
 							*output++ = (char)strtol(p + 1, nullptr, 16);
-							p += 4;
+							for (int i = 0; i < 4 && p[1]; i++) p++;
 							break;
+						case '\0':
+							// incomplete escape-sequence at the end of text
+							goto BreakLoop;
 						default:
 							// unknown escape-sequence, should never occur
 							*output++ = *p;
-- 
2.43.0


From b8ed4eceeec5b9a7ec0602c319d0259c7da7971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 05/30] fix: HttpUnquote must consume the character following a
 backslash

---
 daemon/util/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index b62a682..5b27028 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1254,7 +1254,7 @@ void WebUtil::HttpUnquote(char* raw)
 				goto BreakLoop;
 			case '\\':
 				p++;
-				*output++ = *p;
+				if (*p) *output++ = *p++;
 				break;
 			default:
 				*output++ = *p++;
-- 
2.43.0


From 3efb9357f98132d25fa04a87ae3531fd7704cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 06/30] fix: XmlEncode and JsonEncode must escape byte 0x80 too

---
 daemon/util/Util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 5b27028..06c8b3b 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -792,7 +792,7 @@ CString WebUtil::XmlEncode(const char* raw)
 				output += 6;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1076,7 +1076,7 @@ CString WebUtil::JsonEncode(const char* raw)
 				output += 2;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
-- 
2.43.0


From 810b006d651ff82bbfd7dadacc773c91a15b4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 07/30] fix: JsonNextValue must recognise an escape which
 directly follows another escape

---
 daemon/util/Util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 06c8b3b..03f40cc 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1220,6 +1220,7 @@ const char* WebUtil::JsonNextValue(const char* jsonText, int* valueLength)
 		{
 			if (!*++pend || !*++pend) return nullptr;
 			ch = *pend;
+			continue;
 		}
 		if (str && ch == '"')
 		{
-- 
2.43.0


From d74b7b15989a9dc02c7182154e1662ae32fc9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:57 +0000
Subject: [PATCH 08/30] fix: XmlDecode must not swallow digits following a
 numeric character reference

---
 daemon/util/Util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 03f40cc..4ecdefe 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -891,7 +891,8 @@ void WebUtil::XmlDecode(char* raw)
 					else if (*p == '#')
 					{
 						int code = atoi((p++)+1);
-						while (*p && strchr("0123456789;", *p)) p++;
+						while ('0' <= *p && *p <= '9') p++;
+						if (*p == ';') p++;
 						*output++ = (char)code;
 					}
 					else
-- 
2.43.0


From 2afa46df9d63ed7a8aa3423a504286dd731448b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:33 +0000
Subject: [PATCH 09/30] fix: Decoder::Clear must reset the detected format
 before the article is fetched from another server

---
 daemon/nntp/Decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 54e5e00..451c8f7 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -34,6 +34,7 @@ Decoder::Decoder()
 
 void Decoder::Clear()
 {
+	m_format = efUnknown;
 	m_articleFilename.Clear();
 	m_body = false;
 	m_begin = false;
-- 
2.43.0


From 6af8a73423eaa61c9c9b322d59cdfac952733f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 10/30] fix: raw mode must find the end of article wherever the
 network splits it and must not read past the received data

---
 daemon/nntp/Decoder.cpp | 51 +++++++++--------------------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 451c8f7..f6faa66 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -401,47 +401,18 @@ Decoder::EStatus Decoder::CheckUx()
 
 void Decoder::ProcessRaw(char* buffer, int len)
 {
-	switch (m_state)
-	{
-		case 1:
-			m_eof = len >= 4 && buffer[0] == '\n' &&
-				buffer[1] == '.' && buffer[2] == '\r' && buffer[3] == '\n';
-			break;
-
-		case 2:
-			m_eof = len >= 3 && buffer[0] == '.' && buffer[1] == '\r' && buffer[2] == '\n';
-			break;
-
-		case 3:
-			m_eof = len >= 2 && buffer[0] == '\r' && buffer[1] == '\n';
-			break;
-
-		case 4:
-			m_eof = len >= 1 && buffer[0] == '\n';
-			break;
-	}
+	// m_state is the number of already received characters of the end marker
+	static const char marker[] = "\r\n.\r\n";
 
-	m_eof |= len >= 5 && strstr(buffer, "\r\n.\r\n");
-
-	if (len >= 4 && buffer[len-4] == '\r' && buffer[len-3] == '\n' &&
-		buffer[len-2] == '.' && buffer[len-1] == '\r')
-	{
-		m_state = 4;
-	}
-	else if (len >= 3 && buffer[len-3] == '\r' && buffer[len-2] == '\n' && buffer[len-1] == '.')
-	{
-		m_state = 3;
-	}
-	else if (len >= 2 && buffer[len-2] == '\r' && buffer[len-1] == '\n')
-	{
-		m_state = 2;
-	}
-	else if (len >= 1 && buffer[len-1] == '\r')
-	{
-		m_state = 1;
-	}
-	else
+	for (char* end = buffer + len; buffer < end && !m_eof; buffer++)
 	{
-		m_state = 0;
+		if (*buffer == marker[(int)m_state])
+		{
+			m_eof = ++m_state == 5;
+		}
+		else
+		{
+			m_state = *buffer == '\r' ? 1 : 0;
+		}
 	}
 }
-- 
2.43.0


From dd03cad45eee65942a859cee15c45b6ea81b2a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:35 +0000
Subject: [PATCH 11/30] fix: decoded data of uuencoded articles must reach the
 caller of Decoder::DecodeBuffer

---
 daemon/nntp/Decoder.cpp | 13 ++++++++++---
 daemon/nntp/Decoder.h   |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index f6faa66..4d32a9a 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -59,9 +59,10 @@ void Decoder::Clear()
  * Once the yEnc-data is started switches to blockwise processing.
  * At the end of yEnc-data switches back to line by line mode to
  * process '=yend'-marker and EOF-marker.
- * UU-encoded articles are processed completely in line by line mode.
+ * UU-encoded articles are processed completely in line by line mode, on return "buffer"
+ * points to the decoded data.
  */
-int Decoder::DecodeBuffer(char* buffer, int len)
+int Decoder::DecodeBuffer(char*& buffer, int len)
 {
 	if (m_rawMode)
 	{
@@ -118,7 +119,13 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 		}
 		else if (m_format == efUx)
 		{
-			outlen += DecodeUx(line, llen);
+			// the line is decoded in place, the decoded data is collected in a separate
+			// buffer because it may be larger than the received part of the line
+			int uxlen = DecodeUx(line, llen);
+			m_uxBuf.Reserve(m_lineBuf.Length());
+			buffer = (char*)m_uxBuf;
+			memcpy(buffer + outlen, line, uxlen);
+			outlen += uxlen;
 		}
 
 		line = end + 1;
diff --git a/daemon/nntp/Decoder.h b/daemon/nntp/Decoder.h
index ba8ac7e..b16e0e1 100644
--- a/daemon/nntp/Decoder.h
+++ b/daemon/nntp/Decoder.h
@@ -47,7 +47,7 @@ public:
 	Decoder();
 	EStatus Check();
 	void Clear();
-	int DecodeBuffer(char* buffer, int len);
+	int DecodeBuffer(char*& buffer, int len);
 	void SetCrcCheck(bool crcCheck) { m_crcCheck = crcCheck; }
 	void SetRawMode(bool rawMode) { m_rawMode = rawMode; }
 	EFormat GetFormat() { return m_format; }
@@ -79,6 +79,7 @@ private:
 	bool m_rawMode = false;
 	CString m_articleFilename;
 	StringBuilder m_lineBuf;
+	StringBuilder m_uxBuf;
 	Crc32 m_crc32;
 
 	EFormat DetectFormat(const char* buffer, int len);
-- 
2.43.0


From ef8ec37cd189c7e4bac50a80d61fda080ca9d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:35 +0000
Subject: [PATCH 12/30] fix: DecodeUx must not read past the end of a line
 shorter than its length character tells

---
 daemon/nntp/Decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 4d32a9a..0c2a39a 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -364,7 +364,8 @@ int Decoder::DecodeUx(char* buffer, int len)
 	if (m_body && !m_end)
 	{
 		int effLen = UU_DECODE_CHAR(buffer[0]);
-		if (effLen > len)
+		int encLen = effLen / 3 * 4 + (effLen % 3 > 0 ? effLen % 3 + 1 : 0);
+		if (1 + encLen > len)
 		{
 			// error;
 			return 0;
-- 
2.43.0


From 5ec765679669d166fa774d5a8f207c6a0a70a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:35 +0000
Subject: [PATCH 13/30] fix: dot-stuffed lines of uuencoded articles must be
 unstuffed before decoding

---
 daemon/nntp/Decoder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 0c2a39a..d0f375b 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -121,6 +121,11 @@ int Decoder::DecodeBuffer(char*& buffer, int len)
 		{
 			// the line is decoded in place, the decoded data is collected in a separate
 			// buffer because it may be larger than the received part of the line
+			if (line[0] == '.' && line[1] == '.')
+			{
+				line++;
+				llen--;
+			}
 			int uxlen = DecodeUx(line, llen);
 			m_uxBuf.Reserve(m_lineBuf.Length());
 			buffer = (char*)m_uxBuf;
-- 
2.43.0


From 4b785c69a0a68917fda610be9cba0cd475405d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 14/30] fix: keywords of yEnc header lines must not be searched
 beyond the line

---
 daemon/nntp/Decoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index d0f375b..0233758 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -104,7 +104,11 @@ int Decoder::DecodeBuffer(char*& buffer, int len)
 
 		if (m_format == efYenc)
 		{
+			// the keywords must be searched only in the current line
+			char nextChar = end[1];
+			end[1] = '\0';
 			ProcessYenc(line, llen);
+			end[1] = nextChar;
 			if (m_body)
 			{
 				outlen = DecodeYenc(end + 1, buffer, m_lineBuf.Length() - (int)(end + 1 - m_lineBuf));
-- 
2.43.0


From 68385513924a03a63caa9163edad1082598cc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:05 +0000
Subject: [PATCH 15/30] fix: StringBuilder::Append must allow a part of its own
 content and zero bytes

---
 daemon/util/NString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/NString.cpp b/daemon/util/NString.cpp
index ca009a6..3b6bbc0 100644
--- a/daemon/util/NString.cpp
+++ b/daemon/util/NString.cpp
@@ -364,7 +364,7 @@ void StringBuilder::Append(const char* str, int len)
 
 	Reserve(newLen, false);
 
-	strncpy(m_data + curLen, str, len);
+	memmove(m_data + curLen, str, len);
 	m_data[curLen + len] = '\0';
 	m_length = newLen;
 }
-- 
2.43.0


From bc2368b2bdd8add2fd30dc6389351d5110abdc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 16/30] fix: number of paused files of a split off group must
 not depend on the source group

---
 daemon/queue/QueueCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 7e12f4c..d7d6605 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1323,7 +1323,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			srcNzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() - 1);
 			srcNzbInfo->SetPausedSize(srcNzbInfo->GetPausedSize() - fileInfo->GetRemainingSize());
 
-			nzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() + 1);
+			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
 	}
-- 
2.43.0


From 0e13300f72ac847b09fb32edfaad9daa40105d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 17/30] fix: size of missing articles must move with the files
 when a group is split

---
 daemon/queue/QueueCoordinator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index d7d6605..9547161 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1287,6 +1287,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		srcNzbInfo->SetSize(srcNzbInfo->GetSize() - fileInfo->GetSize());
 		srcNzbInfo->SetRemainingSize(srcNzbInfo->GetRemainingSize() - fileInfo->GetRemainingSize());
 		srcNzbInfo->SetCurrentSuccessSize(srcNzbInfo->GetCurrentSuccessSize() - fileInfo->GetSuccessSize());
+		srcNzbInfo->SetFailedSize(srcNzbInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetCurrentFailedSize(srcNzbInfo->GetCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetTotalArticles(srcNzbInfo->GetTotalArticles() - fileInfo->GetTotalArticles());
 		srcNzbInfo->SetFailedArticles(srcNzbInfo->GetFailedArticles() - fileInfo->GetMissedArticles());
@@ -1298,6 +1299,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		nzbInfo->SetSize(nzbInfo->GetSize() + fileInfo->GetSize());
 		nzbInfo->SetRemainingSize(nzbInfo->GetRemainingSize() + fileInfo->GetRemainingSize());
 		nzbInfo->SetCurrentSuccessSize(nzbInfo->GetCurrentSuccessSize() + fileInfo->GetSuccessSize());
+		nzbInfo->SetFailedSize(nzbInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetCurrentFailedSize(nzbInfo->GetCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetTotalArticles(nzbInfo->GetTotalArticles() + fileInfo->GetTotalArticles());
 		nzbInfo->SetFailedArticles(nzbInfo->GetFailedArticles() + fileInfo->GetMissedArticles());
@@ -1309,11 +1311,13 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo->SetParSize(srcNzbInfo->GetParSize() - fileInfo->GetSize());
 			srcNzbInfo->SetParCurrentSuccessSize(srcNzbInfo->GetParCurrentSuccessSize() - fileInfo->GetSuccessSize());
+			srcNzbInfo->SetParFailedSize(srcNzbInfo->GetParFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetParCurrentFailedSize(srcNzbInfo->GetParCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetRemainingParCount(srcNzbInfo->GetRemainingParCount() - 1);
 
 			nzbInfo->SetParSize(nzbInfo->GetParSize() + fileInfo->GetSize());
 			nzbInfo->SetParCurrentSuccessSize(nzbInfo->GetParCurrentSuccessSize() + fileInfo->GetSuccessSize());
+			nzbInfo->SetParFailedSize(nzbInfo->GetParFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetParCurrentFailedSize(nzbInfo->GetParCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetRemainingParCount(nzbInfo->GetRemainingParCount() + 1);
 		}
-- 
2.43.0


From 032263fb84ecd507878722ec68b8c8d9ef97bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 18/30] fix: number of files with extra priority must move with
 the files when groups are split or merged

---
 daemon/queue/QueueCoordinator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 9547161..26fdc45 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1181,6 +1181,8 @@ bool QueueCoordinator::MergeQueueEntries(DownloadQueue* downloadQueue, NzbInfo*
 	destNzbInfo->SetPausedFileCount(destNzbInfo->GetPausedFileCount() + srcNzbInfo->GetPausedFileCount());
 	destNzbInfo->SetPausedSize(destNzbInfo->GetPausedSize() + srcNzbInfo->GetPausedSize());
 
+	destNzbInfo->SetExtraPriority(destNzbInfo->GetExtraPriority() + srcNzbInfo->GetExtraPriority());
+
 	destNzbInfo->SetSuccessSize(destNzbInfo->GetSuccessSize() + srcNzbInfo->GetSuccessSize());
 	destNzbInfo->SetCurrentSuccessSize(destNzbInfo->GetCurrentSuccessSize() + srcNzbInfo->GetCurrentSuccessSize());
 	destNzbInfo->SetFailedSize(destNzbInfo->GetFailedSize() + srcNzbInfo->GetFailedSize());
@@ -1330,6 +1332,12 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
+
+		if (fileInfo->GetExtraPriority())
+		{
+			srcNzbInfo->SetExtraPriority(srcNzbInfo->GetExtraPriority() - 1);
+			nzbInfo->SetExtraPriority(nzbInfo->GetExtraPriority() + 1);
+		}
 	}
 
 	nzbInfo->UpdateMinMaxTime();
-- 
2.43.0


From 14986c32740a0c33ecc5bbeb0967aac50d81d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 19/30] fix: CString::Set must allow its own value, as used
 when merging groups

---
 daemon/util/NString.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daemon/util/NString.cpp b/daemon/util/NString.cpp
index 3b6bbc0..36c879b 100644
--- a/daemon/util/NString.cpp
+++ b/daemon/util/NString.cpp
@@ -113,9 +113,12 @@ void CString::Set(const char* str, int len)
 		{
 			len = strlen(str);
 		}
-		m_data = (char*)realloc(m_data, len + 1);
-		strncpy(m_data, str, len);
-		m_data[len] = '\0';
+		// "str" may be (a part of) the current value
+		char* newvalue = (char*)malloc(len + 1);
+		strncpy(newvalue, str, len);
+		newvalue[len] = '\0';
+		free(m_data);
+		m_data = newvalue;
 	}
 	else
 	{
-- 
2.43.0


From 3913d2ef676de43feacaf9bc7951e60add2602fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 20/30] fix: free connections of a level must not include those
 in use when servers are reconfigured

---
 daemon/nntp/ServerPool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/ServerPool.cpp b/daemon/nntp/ServerPool.cpp
index 7f5995d..451a2ca 100644
--- a/daemon/nntp/ServerPool.cpp
+++ b/daemon/nntp/ServerPool.cpp
@@ -112,12 +112,17 @@ void ServerPool::InitConnections()
 			if (newsServer->GetActive())
 			{
 				int connections = 0;
+				int inUse = 0;
 
 				for (PooledConnection* connection : &m_connections)
 				{
 					if (connection->GetNewsServer() == newsServer)
 					{
 						connections++;
+						if (connection->GetInUse())
+						{
+							inUse++;
+						}
 					}
 				}
 
@@ -129,7 +134,7 @@ void ServerPool::InitConnections()
 					connections++;
 				}
 
-				m_levels[normLevel] += connections;
+				m_levels[normLevel] += connections - inUse;
 			}
 		}
 	}
-- 
2.43.0


From bc7e4d236fab21f8ff2ff849da3cdbf58472c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 21/30] fix: loading a file must fail for directories and short
 reads

---
 daemon/util/FileSystem.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/daemon/util/FileSystem.cpp b/daemon/util/FileSystem.cpp
index c1c0526..37278f0 100644
--- a/daemon/util/FileSystem.cpp
+++ b/daemon/util/FileSystem.cpp
@@ -220,15 +220,25 @@ bool FileSystem::LoadFileIntoBuffer(const char* filename, CharBuffer& buffer, bo
 
 	// obtain file size.
 	file.Seek(0, DiskFile::soEnd);
-	int size  = (int)file.Position();
+	int64 fileSize = file.Position();
 	file.Seek(0);
+	if (fileSize < 0 || fileSize >= INT_MAX)
+	{
+		// not a regular file (directory) or too big
+		return false;
+	}
+	int size = (int)fileSize;
 
 	// allocate memory to contain the whole file.
 	buffer.Reserve(size + (addTrailingNull ? 1 : 0));
 
 	// copy the file into the buffer.
-	file.Read(buffer, size);
+	bool ok = file.Read(buffer, size) == size;
 	file.Close();
+	if (!ok)
+	{
+		return false;
+	}
 
 	if (addTrailingNull)
 	{
-- 
2.43.0


From 5b4564f4ebb3124df04486dd65d41c6f38e55c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 22/30] fix: commands of system.multicall must know protocol
 and access level of the caller

---
 daemon/remote/XmlRpc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 0686f29..d18e19d 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -470,6 +470,10 @@ void XmlRpcProcessor::MutliCall()
 
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
 		command->SetRequest(requestPtr);
+		command->SetProtocol(m_protocol);
+		command->SetHttpMethod(m_httpMethod);
+		command->SetUserAccess(m_userAccess);
+		command->PrepareParams();
 		m_safeMethod |= command->IsSafeMethod();
 		command->Execute();
 
-- 
2.43.0


From cf9d729fb4346c4ba521b74066eef791637b895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 23/30] fix: empty url must not be parsed

---
 daemon/remote/WebServer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index 8db12ce..fabe359 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -202,6 +202,12 @@ void WebProcessor::ParseHeaders()
 
 void WebProcessor::ParseUrl()
 {
+	if (m_url.Empty())
+	{
+		// bad request
+		return;
+	}
+
 	// remove subfolder "nzbget" from the path (if exists)
 	// http://localhost:6789/nzbget/username:password/jsonrpc -> http://localhost:6789/username:password/jsonrpc
 	if (!strncmp(m_url, "/nzbget/", 8))
-- 
2.43.0


From e09694e50216deacc5f05cb213e9d945ae342aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 24/30] fix: json value at the end of request must not move
 read pointer behind it

---
 daemon/remote/XmlRpc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index d18e19d..526a9c3 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -911,7 +911,7 @@ bool XmlCommand::NextParamAsInt(int* value)
 			return false;
 		}
 		*value = atoi(param);
-		m_requestPtr = param + len + 1;
+		m_requestPtr = param + len + (param[len] ? 1 : 0);
 		return true;
 	}
 	else
@@ -975,13 +975,13 @@ bool XmlCommand::NextParamAsBool(bool* value)
 		if (len == 4 && !strncmp(param, "true", 4))
 		{
 			*value = true;
-			m_requestPtr = param + len + 1;
+			m_requestPtr = param + len + (param[len] ? 1 : 0);
 			return true;
 		}
 		else if (len == 5 && !strncmp(param, "false", 5))
 		{
 			*value = false;
-			m_requestPtr = param + len + 1;
+			m_requestPtr = param + len + (param[len] ? 1 : 0);
 			return true;
 		}
 		else
@@ -1036,9 +1036,9 @@ bool XmlCommand::NextParamAsStr(char** value)
 		{
 			return false;
 		}
+		m_requestPtr = param + len + (param[len] ? 1 : 0);
 		param++; // skip first '"'
 		param[len - 2] = '\0'; // skip last '"'
-		m_requestPtr = param + len;
 		*value = param;
 		return true;
 	}
-- 
2.43.0


From 2f697da4f7a6acf0c7d850e246e7fdd01196f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 25/30] fix: parameters of json request end at closing bracket
 of params array

---
 daemon/remote/XmlRpc.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 526a9c3..e58ed6e 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -862,6 +862,30 @@ void XmlCommand::PrepareParams()
 			return;
 		}
 		m_requestPtr = params + 8; // strlen("\"params\"")
+
+		// other fields of the request after the array of parameters are not parameters
+		int depth = 0;
+		bool str = false;
+		for (char* p = m_requestPtr; *p; p++)
+		{
+			if (str && *p == '\\' && p[1])
+			{
+				p++;
+			}
+			else if (*p == '"')
+			{
+				str = !str;
+			}
+			else if (!str && *p == '[')
+			{
+				depth++;
+			}
+			else if (!str && *p == ']' && --depth <= 0)
+			{
+				*p = '\0';
+				break;
+			}
+		}
 	}
 
 	if (m_protocol == XmlRpcProcessor::rpJsonPRpc)
-- 
2.43.0


From bc468f1d5bd68d84cf05b863b0d9cd02689cf143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 26/30] fix: long lines and line breaks in texts must not break
 state files

---
 daemon/queue/DiskState.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 89a0690..47c0500 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -45,10 +45,19 @@ int64 StateDiskFile::PrintLine(const char* format, ...)
 {
 	va_list ap;
 	va_start(ap, format);
-	BString<1024> str;
+	CString str;
 	int len = str.FormatV(format, ap);
 	va_end(ap);
 
+	// line breaks within the text would end the line
+	for (char* p = str; *p; p++)
+	{
+		if (*p == '\n')
+		{
+			*p = ' ';
+		}
+	}
+
 	// replacing terminating <NULL> with <LF>
 	str[len++] = '\n';
 
-- 
2.43.0


From 4410ae9c2c5768b0eccdf0857669205b46531e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 27/30] fix: dupe hint must be restored from queue state

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 47c0500..af79bd3 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -826,7 +826,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 	}
 	nzbInfo->SetDupeMode((EDupeMode)dupeMode);
 	nzbInfo->SetDupeScore(dupeScore);
-	nzbInfo->SetDupeMode((EDupeMode)dupeHint);
+	nzbInfo->SetDupeHint((NzbInfo::EDupeHint)dupeHint);
 
 	if (formatVersion >= 48)
 	{
-- 
2.43.0


From c0ec9664e779cc3fdcd809f9969fc988145dbcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 28/30] fix: stage of post-processing must be restored as it
 was saved

---
 daemon/queue/DiskState.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index af79bd3..3233a29 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -698,7 +698,8 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		{
 			postStage += 2;
 		}
-		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)postStage);
+		// stages are saved with offset of 1 (0 is reserved for "not in post-processing")
+		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)(postStage - 1));
 	}
 	nzbInfo->SetFeedId(feedId);
 
-- 
2.43.0


From 8fc4fd25677d5a8961feaa987b79921e56465a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 29/30] fix: uninitialised original name of completed files

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 3233a29..b6c9f41 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -855,7 +855,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		char* hash16k = nullptr;
 		char* parSetId = nullptr;
 		char filenameBuf[1024];
-		char origName[1024];
+		char origName[1024] = "";
 
 		if (formatVersion >= 49)
 		{
-- 
2.43.0


From aa6ad8911160d53b1c5c182812485b5f04cee9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 30/30] fix: article offsets beyond 4 GB must be preserved in
 file state

---
 daemon/queue/DiskState.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index b6c9f41..7195fc8 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1218,7 +1218,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool c
 	outfile.PrintLine("%i", (int)fileInfo->GetArticles()->size());
 	for (ArticleInfo* articleInfo : fileInfo->GetArticles())
 	{
-		outfile.PrintLine("%i,%u,%i,%u", (int)articleInfo->GetStatus(), (uint32)articleInfo->GetSegmentOffset(),
+		outfile.PrintLine("%i,%" PRIi64 ",%i,%u", (int)articleInfo->GetStatus(), articleInfo->GetSegmentOffset(),
 			articleInfo->GetSegmentSize(), (uint32)articleInfo->GetCrc());
 	}
 
@@ -1298,9 +1298,10 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 
 		if (formatVersion >= 2)
 		{
-			uint32 segmentOffset, crc;
+			int64 segmentOffset;
+			uint32 crc;
 			int segmentSize;
-			if (infile.ScanLine("%i,%u,%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
+			if (infile.ScanLine("%i,%" PRIi64 ",%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
 			pa->SetSegmentOffset(segmentOffset);
 			pa->SetSegmentSize(segmentSize);
 			pa->SetCrc(crc);
-- 
2.43.0

