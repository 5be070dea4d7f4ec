From dd736320d71e577c3d23ad50419c062fb3107e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 01/31] fix: HTTP line trimming reads before or past the line
 when it is only spaces or has no separator

---
 libstuff/libstuff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index f7dcca7..79574dc 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -895,7 +895,7 @@ STable SParseCommandLine(int argc, char* argv[])
 const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char separator, string& out)
 {
     // Trim leading whitespace
-    while (*start == ' ') {
+    while (start < lineEnd && *start == ' ') {
         ++start;
     }
 
@@ -907,7 +907,7 @@ const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char
     const char* separatorPos = end;
 
     // Found the separator, trim off any trailing whitespace
-    while (*(end - 1) == ' ') {
+    while (end > start && *(end - 1) == ' ') {
         --end;
     }
 
@@ -927,10 +927,10 @@ const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char
 void _SParseHTTP_GetUpToEnd(const char* start, const char* end, string& out)
 {
     // Get everything up to the end of the line, triming leading and trailing whitespace
-    while (*start == ' ') {
+    while (start < end && *start == ' ') {
         ++start;
     }
-    while (*(end - 1) == ' ') {
+    while (end > start && *(end - 1) == ' ') {
         --end;
     }
     int length = (int) (end - start);
-- 
2.43.0


From d811a7530419b3e5ab2f750567089510c60a2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 02/31] fix: a malformed or negative Content-Length throws out
 of the HTTP parser

---
 libstuff/libstuff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 79574dc..1e4aae3 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1010,7 +1010,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     // If there's a Content-Length (including a Content-Length of 0), we will parse that much data.
                     // Otherwise, we just parse everything that's left, as we have no other reasonable options.
                     bool hasContentLength = nameValueMap.contains("Content-Length");
-                    int contentLength = hasContentLength ? stoll(nameValueMap["Content-Length"]) : 0;
+                    const int64_t contentLength = hasContentLength ? SToInt64(nameValueMap["Content-Length"]) : 0;
                     if (!hasContentLength) {
                         // Since we don't know, just return everything we have.
                         content = string(parseEnd, buffer + length);
@@ -1018,7 +1018,8 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     }
 
                     // There is a content length -- if we don't have enough, then cancel the parse.
-                    if ((int) (length - headerLength) < contentLength) {
+                    // A negative content length isn't valid, there's nothing we could parse for it.
+                    if (contentLength < 0 || (int64_t) (length - headerLength) < contentLength) {
                         // Insufficient content
                         methodLine.clear();
                         nameValueMap.clear();
-- 
2.43.0


From 8216855eb08dc6cc204049405c486b47f6d8b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 03/31] fix: an 8-digit chunk length overflows and corrupts
 memory in the HTTP parser

---
 libstuff/libstuff.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 1e4aae3..2d739b1 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1056,12 +1056,11 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                 if (SREMatch("^[a-fA-F0-9]{1,8}$", hexChunkLength)) {
                     // Get the chunk length.
                     isHeaderOrFooter = false;
-                    int chunkLength = (int) SFromHex(hexChunkLength);
+                    const int64_t chunkLength = (int64_t) SFromHex(hexChunkLength);
                     if (chunkLength) {
                         // Verify that we can get the entire chunk.
                         const char* chunkStart = lineEnd + 2; // skipping the \r\n.
-                        const char* chunkEnd = chunkStart + chunkLength;
-                        if (chunkEnd >= inputEnd) {
+                        if (inputEnd - chunkStart <= chunkLength) {
                             // Insufficient content
                             methodLine.clear();
                             nameValueMap.clear();
@@ -1073,7 +1072,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                         size_t contentLength = content.length();
                         content.resize(contentLength + chunkLength);
                         memcpy(&content[contentLength], chunkStart, chunkLength);
-                        lineEnd = chunkEnd;
+                        lineEnd = chunkStart + chunkLength;
                     } else {
                         lastChunkFound = true;
                     }
-- 
2.43.0


From 577c5c78c8084d91a7971890d156be3a8c3db3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 04/31] fix: a NUL byte in JSON input aborts the process in the
 JSON parser

---
 libstuff/libstuff.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 2d739b1..cdcd837 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1589,7 +1589,6 @@ string SComposeJSONObject(const STable& nameValueMap, const bool forceString)
 const char* _SParseJSONString(const char* ptr, const char* end, string& out, bool populateOut)
 {
     SASSERT(ptr && end);
-    SASSERT(*ptr);
     _JSONLOG();
     // Walk across and find the end quote
     _JSONWS();
@@ -1619,7 +1618,6 @@ const char* _SParseJSONString(const char* ptr, const char* end, string& out, boo
 const char* _SParseJSONArray(const char* ptr, const char* end, list<string>& out, bool populateOut, const string& nullValue)
 {
     SASSERT(ptr && end);
-    SASSERT(*ptr);
     _JSONLOG();
     // Walk across the array
     _JSONWS();
@@ -1652,7 +1650,6 @@ const char* _SParseJSONArray(const char* ptr, const char* end, list<string>& out
 const char* _SParseJSONObject(const char* ptr, const char* end, STable& out, bool populateOut, const string& nullValue, const function<void(const string&, const string&)>& callback = [] (const string&, const string&){})
 {
     SASSERT(ptr && end);
-    SASSERT(*ptr);
     _JSONLOG();
     // Walk across the name value table
     _JSONWS();
-- 
2.43.0


From fa858c5cf284fa3ca2b683f1bf2938833e0aa331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 05/31] fix: JSON object member names are not escaped when
 composing

---
 libstuff/libstuff.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index cdcd837..048d8eb 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1492,6 +1492,14 @@ string SDecodeURIComponent(const char* buffer, int length)
 // --------------------------------------------------------------------------
 const char* _SParseJSONValue(const char* ptr, const char* end, string& value, bool populateValue, const string& nullValue);
 
+static string _SQuoteJSONString(const string& value)
+{
+    return "\"" + SEscape(value, "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f"
+                                 "\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\"\\/",
+                          '\\') +
+           "\"";
+}
+
 string SToJSON(const int64_t value, const bool forceString)
 {
     return SToJSON(to_string(value), forceString);
@@ -1537,10 +1545,7 @@ string SToJSON(const string& value, const bool forceString)
 
     // Otherwise, it's a string -- escape and return
     // We need to escape all control characters in the string, not just the white-space control characters.
-    return "\"" + SEscape(value, "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f"
-                                 "\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\"\\/",
-                          '\\') +
-           "\"";
+    return _SQuoteJSONString(value);
 }
 
 // --------------------------------------------------------------------------
@@ -1551,7 +1556,7 @@ string SComposeJSONObject(const STable& nameValueMap, const bool forceString)
     }
     string working = "{";
     for (pair<string, string> item : nameValueMap) {
-        working += "\"" + item.first + "\":" + SToJSON(item.second, forceString) + ",";
+        working += _SQuoteJSONString(item.first) + ":" + SToJSON(item.second, forceString) + ",";
     }
     working.resize(working.size() - 1);
     working += "}";
-- 
2.43.0


From a1e25e24c92ab293cf0d0926dfb09595b610d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 06/31] fix: base32 to base32hex reads outside its table for
 characters outside the alphabet

---
 libstuff/libstuff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 048d8eb..5717b36 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -405,7 +405,7 @@ string SBase32HexStringFromBase32(const string& buffer)
     int shiftedIndex;
     for (size_t i = 0; i < out.size(); i++) {
         shiftedIndex = out[i] - 50;
-        if (mapLength < shiftedIndex || map[shiftedIndex] == 0) {
+        if (shiftedIndex < 0 || shiftedIndex >= mapLength || map[shiftedIndex] == 0) {
             STHROW("Character not found in base32 alphabet.");
         }
         out[i] = map[shiftedIndex];
-- 
2.43.0


From 71a22b6db52a728db58d429b21201c8b806409df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 07/31] fix: base64-encoding an empty buffer throws

---
 libstuff/libstuff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 5717b36..40adc61 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -2681,6 +2681,10 @@ string SEncodeBase64(const unsigned char* buffer, size_t size)
     // First, get the required buffer size
     size_t olen = 0;
     mbedtls_base64_encode(0, 0, &olen, buffer, size);
+    if (!olen) {
+        // Empty input encodes to an empty string
+        return "";
+    }
 
     // Next, do the encode
     string out;
-- 
2.43.0


From fa96854df2756cad15feac75d5c71bdd2d2b4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 08/31] fix: composing a POST body from an empty table throws

---
 libstuff/libstuff.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 40adc61..c786d72 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1406,7 +1406,9 @@ string SComposePOST(const STable& nameValueMap)
         }
     }
     string outStr = out.str();
-    outStr.resize(outStr.size() - 1); // Trim off trailing '&'
+    if (!outStr.empty()) {
+        outStr.resize(outStr.size() - 1); // Trim off trailing '&'
+    }
     return outStr;
 }
 
-- 
2.43.0


From f7d77e54d086d17e064dc5aff0132fcf48685c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 09/31] fix: SRingBuffer::push() reports a full buffer when its
 write index is stale

---
 libstuff/SRingBuffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libstuff/SRingBuffer.h b/libstuff/SRingBuffer.h
index 5f9adfa..a8c42fd 100644
--- a/libstuff/SRingBuffer.h
+++ b/libstuff/SRingBuffer.h
@@ -35,7 +35,9 @@ public:
         size_t currentWriteIndex = writeIndex.load(memory_order_relaxed);
 
         while (true) {
-            if (currentWriteIndex - readIndex.load(memory_order_acquire) >= C) {
+            // `currentWriteIndex` can be stale, in which case the consumer may already have moved past it. The difference
+            // is then negative (and the buffer isn't full), so it needs to be compared as a signed value.
+            if (static_cast<ptrdiff_t>(currentWriteIndex - readIndex.load(memory_order_acquire)) >= static_cast<ptrdiff_t>(C)) {
                 return false;
             }
             if (writeIndex.compare_exchange_weak(currentWriteIndex, currentWriteIndex + 1, memory_order_acq_rel, memory_order_relaxed)) {
-- 
2.43.0


From a869544bf46aad14b1d0af8bcb1d35208c851383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 10/31] fix: leave write mode when a write times out or is
 aborted

---
 sqlitecluster/SQLite.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 4b4585b..b0b4326 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -898,16 +898,17 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         }
     }
 
+    // The query has run. Clear this before anything below can throw, or this handle would stay in write mode.
+    _currentlyWriting = false;
+
     // If we got a constraints error, throw that.
     if (resultCode == SQLITE_CONSTRAINT) {
-        _currentlyWriting = false;
         throw constraint_error();
     }
 
     _writeElapsed += STimeNow() - before;
     _checkInterruptErrors("SQLite::write"s);
     if (resultCode) {
-        _currentlyWriting = false;
         return false;
     }
 
@@ -922,7 +923,6 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         _uncommittedQuery += expandedSql;
     }
 
-    _currentlyWriting = false;
     return true;
 }
 
-- 
2.43.0


From cd2e64de4b0a0ae47a22d057845110c11e00dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 11/31] fix: don't leak the commit lock when beginTransaction
 is refused or fails

---
 sqlitecluster/SQLite.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index b0b4326..1959c37 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -518,19 +518,6 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 {
     _lastTransactionType = type;
     _transactionTimer.start("BEGIN_TRANSACTION");
-    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
-        if (isSyncThread) {
-            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
-            if (!_sharedData.commitLock.try_lock_for(5s)) {
-                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
-                STHROW("512 Internal Lock Timeout");
-            }
-        } else {
-            _sharedData.commitLock.lock();
-        }
-        _sharedData._commitLockTimer.start("EXCLUSIVE");
-        _mutexLocked = true;
-    }
 
     // The most likely case for hitting this is that we forgot to roll back a transaction when we were finished with it
     // during the last use of this DB handle. In that case, `_insideTransaction` is likely true, and possibly
@@ -550,6 +537,20 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
         STHROW("Attempted to begin transaction while in invalid state: _uncommittedQuery not empty");
     }
 
+    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
+        if (isSyncThread) {
+            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
+            if (!_sharedData.commitLock.try_lock_for(5s)) {
+                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
+                STHROW("512 Internal Lock Timeout");
+            }
+        } else {
+            _sharedData.commitLock.lock();
+        }
+        _sharedData._commitLockTimer.start("EXCLUSIVE");
+        _mutexLocked = true;
+    }
+
     // We actively track transaction counts incrementing and decrementing to log the number of active open transactions at any given moment.
     _sharedData.openTransactionCount++;
 
@@ -560,6 +561,15 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 
     string beginQuery = (beginOnly && _hctree) ? "BEGIN" : "BEGIN CONCURRENT";
     _insideTransaction = !SQuery(_db, beginQuery);
+    if (!_insideTransaction) {
+        // There's no transaction for `commit` or `rollback` to end, so release what they would have released.
+        _sharedData.openTransactionCount--;
+        if (_mutexLocked) {
+            _mutexLocked = false;
+            _sharedData._commitLockTimer.stop();
+            _sharedData.commitLock.unlock();
+        }
+    }
 
     _queryCache.clear();
     _tablesUsed.clear();
-- 
2.43.0


From 58567232ebba3e512b81919008b1c3c9758b6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 12/31] fix: don't write or prepare in a transaction SQLite has
 rolled back

---
 sqlitecluster/SQLite.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 1959c37..796ec6b 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -865,6 +865,10 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     if (!_insideTransaction) {
         STHROW("500 Attempted to write outside of transaction");
     }
+    if (sqlite3_get_autocommit(_db)) {
+        // An earlier error made SQLite roll the transaction back, so this would be committed immediately, unreplicated.
+        STHROW("500 Attempted to write in a transaction that was automatically rolled back");
+    }
 
     _queryCache.clear();
     _writeQueryCount++;
@@ -939,6 +943,11 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
 bool SQLite::prepare(uint64_t* transactionID, string* transactionhash, chrono::microseconds commitLockTimeout, atomic<bool>* abortPtr)
 {
     SASSERT(_insideTransaction);
+    if (sqlite3_get_autocommit(_db)) {
+        SWARN("Unable to prepare transaction, it was automatically rolled back.");
+        rollback();
+        return false;
+    }
 
     // Pick a journal for this transaction.
     const int64_t journalID = _sharedData.nextJournalCount++;
-- 
2.43.0


From 127d0f9f64d08844af707fe7d5cbd9467d89b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 13/31] fix: don't re-run earlier statements of a query when a
 later one is busy

---
 libstuff/libstuff.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index c786d72..2199a93 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -2852,20 +2852,25 @@ int SQuery(sqlite3* db, const string& sql, SQResult& result, int64_t warnThresho
 
     SDEBUG(sql.substr(0, MAX_LOG_QUERY_SIZE));
 
-    // Retry the whole query (prepare + bind + step) on SQLITE_BUSY. Prepare and step both can return
-    // BUSY (e.g. when a writer holds the write lock on sqlite_master), so we wrap the entire statement
-    // walk rather than just the step loop. Each try re-prepares and re-binds; the bind state is on a
-    // brand-new prepared statement so there's nothing to preserve across the retry.
+    // Retry (prepare + bind + step) on SQLITE_BUSY. Prepare and step both can return BUSY (e.g. when a writer holds the
+    // write lock on sqlite_master), so we wrap the entire statement walk rather than just the step loop. Each try resumes
+    // at the statement that was busy, as the ones before it have already run, and re-prepares and re-binds it; the bind
+    // state is on a brand-new prepared statement so there's nothing to preserve across the retry.
+    result.clear();
+    if (expandedSql) {
+        expandedSql->clear();
+    }
+    const char* statementStart = sql.c_str();
+    size_t statementFirstRow = 0;
     for (int tries = 0; tries < MAX_TRIES; tries++) {
-        result.clear();
-        if (expandedSql) {
-            expandedSql->clear();
-        }
+        result.resize(statementFirstRow);
         boundExpandedSql.clear();
         error = SQLITE_OK;
-        const char* statementRemainder = sql.c_str();
+        const char* statementRemainder = statementStart;
         while (*statementRemainder != 0 && error == SQLITE_OK) {
             numLoops++;
+            statementStart = statementRemainder;
+            statementFirstRow = result.size();
             sqlite3_stmt* preparedStatement = nullptr;
             size_t beforePrepare = 0;
             if (isSyncThread) {
-- 
2.43.0


From 984aa23944cecd5a1ddf406cea94e5d6f8566caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 14/31] fix: don't let cached query results bypass the
 whitelist

---
 sqlitecluster/SQLite.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 796ec6b..0ba9052 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -705,8 +705,10 @@ bool SQLite::read(const string& query, const map<string, Parameter>& params, SQR
     _readQueryCount++;
 
     // The query cache is keyed on SQL text only — different bound-parameter values for the same SQL would
-    // share a cache entry. Skip the cache entirely when params are present.
-    auto foundQuery = params.empty() ? _queryCache.find(query) : _queryCache.end();
+    // share a cache entry. Skip the cache entirely when params are present. Also skip it when there's a
+    // whitelist: it can be set or cleared at any time, and must not be bypassed by a result cached without it.
+    const bool useCache = params.empty() && !whitelist;
+    auto foundQuery = useCache ? _queryCache.find(query) : _queryCache.end();
     if (foundQuery != _queryCache.end()) {
         result = foundQuery->second;
         _cacheHits++;
@@ -714,7 +716,7 @@ bool SQLite::read(const string& query, const map<string, Parameter>& params, SQR
     } else {
         _isDeterministicQuery = true;
         queryResult = !SQuery(_db, query, result, 2000 * STIME_US_PER_MS, skipInfoWarn, nullptr, params);
-        if (params.empty() && _isDeterministicQuery && queryResult && insideTransaction()) {
+        if (useCache && _isDeterministicQuery && queryResult && insideTransaction()) {
             _queryCache.emplace(make_pair(query, result));
         }
     }
-- 
2.43.0


From 0e6565df9c4699aececa1d50870b5cc42f6cd302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:10 +0000
Subject: [PATCH 15/31] fix: treat every function with a varying result as
 non-deterministic

---
 sqlitecluster/SQLite.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 0ba9052..8005d7d 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1475,7 +1475,14 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
             !strcmp(detail2, "strftime") ||
             !strcmp(detail2, "changes") ||
             !strcmp(detail2, "last_insert_rowid") ||
-            !strcmp(detail2, "sqlite_version")
+            !strcmp(detail2, "sqlite_version") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
+            !strcmp(detail2, "current_timestamp") ||
+            !strcmp(detail2, "unixepoch") ||
+            !strcmp(detail2, "timediff") ||
+            !strcmp(detail2, "randomblob") ||
+            !strcmp(detail2, "total_changes")
         ) {
             _isDeterministicQuery = false;
         }
@@ -1485,7 +1492,11 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
         // i.e. you can do UPDATE x = DATE('2024-01-01') and its deterministic whereas UPDATE x = DATE('now') is not. It's up to
         // callers to prevent using these functions inappropriately.
         if (!strcmp(detail2, "current_timestamp") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
             !strcmp(detail2, "random") ||
+            !strcmp(detail2, "randomblob") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "changes") ||
             !strcmp(detail2, "sqlite_version")) {
-- 
2.43.0


From ba3b1bcf07bf046233f69f1871b0cd4880f9d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:14 +0000
Subject: [PATCH 16/31] fix: roll back when a synchronised commit can't be
 applied

---
 sqlitecluster/SQLiteNode.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 94f674c..203927b 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1795,10 +1795,12 @@ void SQLiteNode::_recvSynchronize(SQLitePeer* peer, const SData& message)
             STHROW("failed to begin transaction");
         }
         if (!_db.writeUnmodified(BedrockPlugin_Compression::decompress(commit.content))) {
+            _db.rollback();
             STHROW("failed to write transaction");
         }
         string newHash;
         if (!_db.prepare(nullptr, &newHash)) {
+            _db.rollback();
             STHROW("failed to prepare transaction");
         }
         if (newHash != commit["Hash"]) {
@@ -1808,7 +1810,10 @@ void SQLiteNode::_recvSynchronize(SQLitePeer* peer, const SData& message)
 
         // Transaction succeeded, commit and go to the next
         SDEBUG("Committing current transaction because _recvSynchronize: " << _db.getUncommittedQuery());
-        _db.commit(stateName(_state));
+        if (_db.commit(stateName(_state)) != SQLITE_OK) {
+            _db.rollback();
+            STHROW("failed to commit transaction");
+        }
 
         --commitsRemaining;
     }
-- 
2.43.0


From b1229698f201cf7cf50ca1a45170272bd7e1663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 17/31] fix: forget the timeouts of abandoned commands

---
 BedrockCommandQueue.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/BedrockCommandQueue.cpp b/BedrockCommandQueue.cpp
index a64016b..e54e44d 100644
--- a/BedrockCommandQueue.cpp
+++ b/BedrockCommandQueue.cpp
@@ -143,6 +143,16 @@ void BedrockCommandQueue::abandonFutureCommands(int msInFuture)
     auto it = _queue.lower_bound(timeLimit);
     size_t numberToErase = distance(it, _queue.end());
     if (numberToErase) {
+        // Remove the matching entries from the timeout map.
+        for (auto abandonedIt = it; abandonedIt != _queue.end(); abandonedIt++) {
+            auto matchingTimeoutIterators = _lookupByTimeout.equal_range(abandonedIt->second.timeout);
+            for (auto timeoutIt = matchingTimeoutIterators.first; timeoutIt != matchingTimeoutIterators.second; timeoutIt++) {
+                if (timeoutIt->second == abandonedIt->first) {
+                    _lookupByTimeout.erase(timeoutIt);
+                    break;
+                }
+            }
+        }
         _queue.erase(it, _queue.end());
         SINFO("Erased " << numberToErase << " commands scheduled more than " << msInFuture << "ms in the future.");
     }
-- 
2.43.0


From 17faf28526a8a8d5e8ddc31aa749e94da8ce84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 18/31] fix: A command that has committed is not run again when
 the node stops leading

---
 BedrockServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 26d9ed1..882821a 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -778,7 +778,9 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                             }
                             commitSuccess = core.commit(*_syncNode, transactionID, transactionHash, command->getMethodName(), enableOnPrepareNotifications, onPrepareHandler, timeToCommit, &command->shouldAbort);
 
-                            if (getState() != SQLiteNodeState::LEADING) {
+                            // If the commit succeeded this command is done, even if we've stopped leading since: running it again
+                            // would execute it twice.
+                            if (!commitSuccess && getState() != SQLiteNodeState::LEADING) {
                                 SINFO("Stopped leading while trying to commit, will retry.");
 
                                 // Jump back to the top of the main loop but skip the check that would push this to the blocking commit queue.
-- 
2.43.0


From b6f1ea2ac1c4c23fed46cb0ab9dce673ce3ec5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 19/31] fix: A completed command is not escalated again while
 synchronizing

---
 BedrockServer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 882821a..062d9bd 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -574,9 +574,10 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
 
     // If we happen to be synchronizing but the command port is open, which is an uncommon but possible scenario (i.e., we were momentarily disconnected from leader and need to catch back
     // up), we will forward commands to any other follower similar to if we were running as a different version from leader.
-    if (getState() == SQLiteNodeState::SYNCHRONIZING) {
+    // A command that was just completed by an escalation must not be sent again, though.
+    if (getState() == SQLiteNodeState::SYNCHRONIZING && !command->complete) {
         auto _clusterMessengerCopy = _clusterMessenger;
-        bool result = _clusterMessengerCopy->runOnPeer(*command, false);
+        bool result = _clusterMessengerCopy && _clusterMessengerCopy->runOnPeer(*command, false);
         if (result) {
             SINFO("Synchronizing while accepting commands; successfully forwarded the command to peer", {{"command", command->request.methodLine}});
         } else {
-- 
2.43.0


From 34c86bd289cd3d4a1b746532ff86616674439eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 20/31] fix: BlockWrites without a database answers instead of
 spinning forever

---
 BedrockServer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 062d9bd..7a42cf7 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1812,13 +1812,16 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
     } else if (SIEquals(command->request.methodLine, "BlockWrites")) {
         atomic<bool> locked(false);
         lock_guard lock(__quiesceLock);
+        shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
         if (__quiesceThread) {
             response.methodLine = "400 Already Blocked";
+        } else if (!dbPoolCopy) {
+            // We're detached, the thread below would never be able to lock anything.
+            response.methodLine = "500 No database";
         } else {
-            __quiesceThread = new thread([&]() {
-                shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
-                if (dbPoolCopy) {
-                    SQLiteScopedHandle dbScope(*_dbPool, _dbPool->getIndex());
+            __quiesceThread = new thread([&locked, dbPoolCopy]() {
+                {
+                    SQLiteScopedHandle dbScope(*dbPoolCopy, dbPoolCopy->getIndex());
                     SQLite& db = dbScope.db();
                     SINFO("[quiesce] Exclusive locking DB");
                     db.exclusiveLockDB();
-- 
2.43.0


From e924a0c593b619d1b9ed4a839fc88fd121b1b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 21/31] fix: Out-of-range priority and conflict parameters are
 refused, not truncated

---
 BedrockServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 7a42cf7..0ba6fe2 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1766,7 +1766,7 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
         response["flushedCount"] = to_string(commands.size());
     } else if (SIEquals(command->request.methodLine, "SetConflictParams")) {
         int64_t maxConflictRetries = command->request.calc64("MaxConflictRetries");
-        if (maxConflictRetries >= 0) {
+        if (maxConflictRetries >= 0 && maxConflictRetries <= INT_MAX) {
             SINFO("Setting _maxConflictRetries to " << _maxConflictRetries);
             response["previousMaxConflictRetries"] = to_string(_maxConflictRetries.load());
             _maxConflictRetries.store(maxConflictRetries);
@@ -1877,7 +1877,7 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
             int64_t newPriority = command->request.calc64("priority");
             auto _syncNodeCopy = atomic_load(&_syncNode);
             // Priority 1 is reserved for shutdown.
-            if (newPriority < 0 || newPriority == 1) {
+            if (newPriority < 0 || newPriority == 1 || newPriority > INT_MAX) {
                 response.methodLine = "400 Invalid priority";
             } else if (!_syncNodeCopy) {
                 response.methodLine = "500 No sync node";
-- 
2.43.0


From 9518586ea552ade11a4803fd83711255e350f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 22/31] fix: A client cannot choose the plugin that sends its
 response

---
 BedrockServer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 0ba6fe2..f80180f 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2338,6 +2338,9 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
                     if (socket.recvBuffer.startsWithHTTPRequest()) {
                         requestSize = request.deserialize(socket.recvBuffer);
                         socket.recvBuffer.consumeFront(requestSize);
+
+                        // This attribute tells us which plugin sends the response for a socket it owns, nobody else can set it.
+                        request.erase("plugin");
                     }
 
                     // If this socket was accepted from the public command port, and that's supposed to be closed now, set
-- 
2.43.0


From 5cae04d72d38853ef1dc4739b062aabdb324ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:07 +0000
Subject: [PATCH 23/31] fix: A request that is already in the receive buffer is
 answered without waiting for more data

---
 BedrockServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index f80180f..15ad64a 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2281,7 +2281,13 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
         // This outer loop just runs until the entire socket life cycle is done, meaning it deserializes a command,
         // waits for it to get processed, deserializes another, etc, until the socket gets closed.
         // This whole block is largely duplicated from `postPoll` and modified to work on a single non-blocking socket.
+        bool handledRequest = false;
         while (socket.state != STCPManager::Socket::CLOSED) {
+            // If we've just handled a request, the next one may already be complete in our buffer. The client may well send
+            // nothing else until it's answered, so in that case we can't wait for more data first.
+            bool checkBufferFirst = handledRequest && socket.state == STCPManager::Socket::CONNECTED && !socket.recvBuffer.empty();
+            handledRequest = false;
+
             // We are going to call `poll` in a loop with only this one socket as a file descriptor.
             // The reason for this is because it's possible that a client is connected to us, and not sending us any data.
             // It may be waiting for it's own data before it can send us a request, or it may have just forgotten to
@@ -2295,7 +2301,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
 
             // As long as `poll` returns 0 we've timed out, indicating that we're still waiting for something to happen. In
             // that case, we'll loop again *unless* we're shutting down.
-            while (!(pollResult = poll(&pollStruct, 1, 1'000))) {
+            while (!checkBufferFirst && !(pollResult = poll(&pollStruct, 1, 1'000))) {
                 if (_shutdownState != RUNNING) {
                     SINFO("Socket thread exiting because no data and shutting down.");
                     socket.shutdown(Socket::CLOSED);
@@ -2304,7 +2310,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
             }
 
             // If the above loop didn't close the socket due to inactivity at shutdown, let's handle the activity.
-            if (socket.state != STCPManager::Socket::CLOSED) {
+            if (!checkBufferFirst && socket.state != STCPManager::Socket::CLOSED) {
                 if (pollResult < 0) {
                     // This is an exceptional case, we'll just kill the socket if this happens and let the client reconnect.
                     SINFO("Poll failed: " << strerror(errno));
@@ -2353,6 +2359,8 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
                 // If we have a populated request, from either a plugin or our default handling, we'll queue up the
                 // command.
                 if (!request.empty()) {
+                    handledRequest = true;
+
                     // Make a command from our request.
                     unique_ptr<BedrockCommand> command = buildCommandFromRequest(move(request), socket, fromPrivateCommandPort);
 
-- 
2.43.0


From 505245f987343fed55850e5427d258274254b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:25 +0000
Subject: [PATCH 24/31] fix: An escalated command whose time is up is not given
 unlimited time on the leader

---
 sqlitecluster/SQLiteClusterMessenger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index b20cdf2..1628ae2 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -142,7 +142,9 @@ bool SQLiteClusterMessenger::_sendCommandOnSocket(SHTTPSManager::Socket& socket,
 
     // Compute the remaining time left before timeout, and set the timeout for the escalated command to match.
     // Note that internally this is stored in microseconds, but over the wire is sent in milliseconds.
-    request["timeout"] = to_string((command.timeout() - STimeNow()) / 1000);
+    // The timeout can already have passed (i.e., while we waited for a leader), in which case no time is left.
+    const uint64_t now = STimeNow();
+    request["timeout"] = to_string(command.timeout() > now ? (command.timeout() - now) / 1000 : 0);
 
     // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
     // that needs serialization, and if so, we serialize that as well.
-- 
2.43.0


From a1d33c3c0f0b1cd510b9eecc6935a65831c1838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:25 +0000
Subject: [PATCH 25/31] fix: A command that was sent to a peer is not sent to
 another one when no answer came

---
 sqlitecluster/SQLiteClusterMessenger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index 1628ae2..e120ce3 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -311,7 +311,9 @@ bool SQLiteClusterMessenger::runOnPeer(BedrockCommand& command, bool runOnLeader
                 command.complete = true;
                 return true;
             }
-            return false;
+
+            // If the command failed after it was sent, it's complete (with an error response), it must not be sent again.
+            return command.complete;
         }
     }
 
-- 
2.43.0


From 2ef4e3766086818cafabee9df028cb57a0b3d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 26/31] fix: Jobs: only resume a PAUSED parent when cancelling
 its last child

Cancelling a finished child re-queued a parent that was already running, so two workers ran it.
---
 plugins/Jobs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 5fdd67a..d3e502f 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1359,7 +1359,7 @@ void BedrockJobsCommand::process(SQLite& db)
         }
         if (SToInt64(result[0][0]) == 0) {
             SINFO("Cancelled last QUEUED child, resuming the parent: " << safeParentJobID);
-            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + ";")) {
+            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE state='PAUSED' AND jobID=" + safeParentJobID + ";")) {
                 STHROW("502 Failed to update job data");
             }
         }
-- 
2.43.0


From a4e875bf2c703d3866896fa99862a112ace9ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 27/31] fix: Jobs: return jobs without retryAfter whatever
 their retryAfterCount

They were set RUNNING but left out of the response, so no worker ever got them.
---
 plugins/Jobs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index d3e502f..93e9c33 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -935,8 +935,9 @@ void BedrockJobsCommand::process(SQLite& db)
                 job["cancelledChildJobs"] = SComposeJSONArray(cancelledChildJobArray);
             }
 
+            // Only jobs with retryAfter are counted (and failed below), any other has just been set to run.
             STable jobData = SParseJSONObject(job["data"]);
-            if (SToInt(jobData["retryAfterCount"]) >= 10) {
+            if (!job["retryAfter"].empty() && SToInt(jobData["retryAfterCount"]) >= 10) {
                 // We will fail this job, don't return it.
                 continue;
             }
-- 
2.43.0


From 86dc1096a5d9dc7edb3a7532bf0c2fe5777ebf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 28/31] fix: Jobs: keep originalNextRun for manual jobs that
 repeat from SCHEDULED

Finishing one failed, as its next run was computed from nothing.
---
 plugins/Jobs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 93e9c33..eeaf98c 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -979,6 +979,9 @@ void BedrockJobsCommand::process(SQLite& db)
                     // Set this so we don't retry infinitely for non manual jobs (see above)
                     // We also set originalNextRun so we don't lose track of the original nextRun (which we are overriding here)
                     dataUpdateQuery = ", data = JSON_SET(data, '$.retryAfterCount', COALESCE(JSON_EXTRACT(data, '$.retryAfterCount'), 0) + 1" + (isRepeatBasedOnScheduledTime ? ", '$.originalNextRun', " + SQ(job["nextRun"]) + ") ": ") ");
+                } else if (isRepeatBasedOnScheduledTime) {
+                    // Manual jobs aren't counted, but finishing them needs the original nextRun as well.
+                    dataUpdateQuery = ", data = JSON_SET(data, '$.originalNextRun', " + SQ(job["nextRun"]) + ") ";
                 }
                 string updateQuery = "UPDATE jobs "
                     "SET state = 'RUNQUEUED', "
-- 
2.43.0


From 63393901e776e5533537177755626fd2bfa24372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 29/31] fix: MySQL: handle one request at a time

With two queries in the buffer the second overwrote the first, which was never answered.
---
 plugins/MySQL.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index 3615f3c..8ff123b 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -374,10 +374,11 @@ void BedrockPlugin_MySQL::onPortAccept(STCPManager::Socket* s)
 
 void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
 {
-    // Get any new MySQL requests
+    // Get any new MySQL requests. Once a packet has set `request`, we leave the rest in the buffer for the next call, as we
+    // can only return one request at a time, and must answer packets in order.
     int packetSize = 0;
     MySQLPacket packet;
-    while ((packetSize = packet.deserialize(s->recvBuffer.c_str(), s->recvBuffer.size()))) {
+    while (request.empty() && (packetSize = packet.deserialize(s->recvBuffer.c_str(), s->recvBuffer.size()))) {
         // Got a packet, process it
         SDEBUG("Received command #" << packet.payload[0] << ", sequenceID #" << (int) packet.sequenceID << " : '" << SToHex(packet.serialize()) << "'");
         s->recvBuffer.consumeFront(packetSize);
-- 
2.43.0


From 790f30ed72408e46923fb851cfb80f164c32e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 30/31] fix: MySQL: write the sequence ID of a request as a
 number

SToStr prints a uint8_t as a character, so any answer but that to packet 0 was misnumbered.
---
 plugins/MySQL.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index 8ff123b..35dd5b4 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -454,7 +454,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT "
                         "name as Tables_in_main, "
@@ -477,7 +477,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT "
                         "name as TABLE_NAME, "
@@ -494,7 +494,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request to get table names from sqlite_master
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT name as name "
                         "FROM sqlite_master "
@@ -507,7 +507,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request to get view names from sqlite_master
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT name as name "
                         "FROM sqlite_master "
@@ -526,7 +526,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         // Transform this into an internal request to get column info using PRAGMA table_info
                         request.methodLine = "Query";
                         request["ReadDBFlags"] = "-json";
-                        request["sequenceID"] = SToStr(packet.sequenceID);
+                        request["sequenceID"] = to_string(packet.sequenceID);
                         request["query"] =
                             "SELECT "
                             + SQ(tableName) + " as table_name, "
@@ -606,7 +606,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         // Transform this into an internal request to get primary key info
                         request.methodLine = "Query";
                         request["ReadDBFlags"] = "-json";
-                        request["sequenceID"] = SToStr(packet.sequenceID);
+                        request["sequenceID"] = to_string(packet.sequenceID);
                         request["query"] =
                             "SELECT "
                             + SQ(tableName) + " as Table_name, "
@@ -644,7 +644,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         // Transform this into an internal request to get foreign key info using PRAGMA foreign_key_list
                         request.methodLine = "Query";
                         request["ReadDBFlags"] = "-json";
-                        request["sequenceID"] = SToStr(packet.sequenceID);
+                        request["sequenceID"] = to_string(packet.sequenceID);
                         request["query"] =
                             "SELECT "
                             "'fk_' || \"table\" || '_' || \"from\" as constraint_name, "
@@ -669,7 +669,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] = query;
                 }
                 break;
-- 
2.43.0


From df6b9d70626344f081aa42bcee727e7045df7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 31/31] fix: Cache: delete a replaced value explicitly so that
 the size stays right

REPLACE only runs the delete trigger with recursive_triggers, which is set on just one handle.
---
 plugins/Cache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugins/Cache.cpp b/plugins/Cache.cpp
index 1247660..57e2b0b 100644
--- a/plugins/Cache.cpp
+++ b/plugins/Cache.cpp
@@ -271,6 +271,12 @@ void BedrockCacheCommand::process(SQLite& db)
             }
         }
 
+        // The new value replaces any existing one. We delete that explicitly, as `INSERT OR REPLACE` only runs the delete trigger
+        // (which keeps track of the size) on handles with `recursive_triggers` set, and that's just the one that upgraded the DB.
+        if (!db.write("DELETE FROM cache WHERE name=" + SQ(name) + ";")) {
+            STHROW("502 Query failed (replacing)");
+        }
+
         // Clear out room for the new object
         while (SToInt64(db.read("SELECT size FROM cacheSize;")) + contentSize > plugin()._maxCacheSize) {
             // Find the least recently used (LRU) item if there is one.  (If the server was recently restarted,
-- 
2.43.0

