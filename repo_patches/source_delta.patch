From 3546a477e4aa55acf93fdaf1e308c94a13c171c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 001/175] fix: CBuffer::ReadBuffer must refuse a position past
 the end

The length was computed in an unsigned type and compared with 0 > x, so a
position after the committed data gave a huge length and an out of bounds copy.
---
 src/mg/cbuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..41e91d4 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -154,10 +154,12 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				dwread = 0;
+				if(position > m_iCurrent) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
+
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
-- 
2.43.0


From f4d2395f5a171bd19c42cbd7b1e2a2bd06f5150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 002/175] fix: appending a buffer to itself read freed memory
 when it grew

---
 src/mg/cbuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index 41e91d4..b38753d 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -97,8 +97,15 @@ public:
 		if(0 == size)
 			return;
 
+		//source can be part of this buffer (buf += buf): growing would free it.
+		const bool alias = (source >= m_p && source < m_p + m_iSize);
+		const size_t offset = alias ? (source - m_p) : 0;
+
 		prepare(size);
 
+		if(alias)
+			source = m_p + offset;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
-- 
2.43.0


From a6e8c33ad6827bcf304d854f7a5ee5d18f38ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 003/175] fix: CResource assignment released its target before
 taking the new reference

r = r and h = h->next used freed memory when the handle was the last reference.
---
 src/mg/cresource.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..e95f68c 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -120,10 +120,13 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
+		//take the new reference first: res can be *this, or be
+		//owned by the resource which is going to be released
+		CInternalResource<Type> *previous = m_pInternalResource;
 		m_pInternalResource = res.m_pInternalResource;
 		if(m_pInternalResource) m_pInternalResource->addRef();	
-		return res;
+		if(previous) previous->release();
+		return *this;
 	}
    	//assign the resource to another resource
 	//Both resource will point to the same
-- 
2.43.0


From 65a4cf6acc2a225e52dccef88a6e35880741d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 004/175] fix: CResource reference count must be atomic

Handles to the same resource are held by the user thread and by the loop
thread (requests, buffers, promises, exceptions), a plain count is lost or
reaches zero twice.
---
 src/mg/cresource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index e95f68c..82a314c 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -24,6 +24,7 @@
 #include <new>
 
 #include <functional>
+#include <atomic>
 
 #pragma once
 
@@ -48,7 +49,7 @@ class CInternalResource
 private:
 
 	Type *m_pointer;
-	long m_iRefCnt;
+	std::atomic<long> m_iRefCnt;
 
 	std::function<void(Type*)> _cleanup;
 	
@@ -76,8 +77,7 @@ private:
 
 	virtual void release()
 	{
-		m_iRefCnt--;
-		if (0 == m_iRefCnt)
+		if (0 == --m_iRefCnt)
 		{
 			if (_cleanup)
 				_cleanup(m_pointer);
-- 
2.43.0


From bab5b84b8d9f3d48321c0b1d0eece33ca31d24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 005/175] fix: Cstring::subString must stop at the end of the
 string

The length was limited by the capacity of the buffer and not by what is left
from the beginning: it read out of bounds, or returned a string with trailing
zeros where appended text was lost.
---
 src/mg/alxstring.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..19150bd 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -637,7 +637,9 @@ public:
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
 		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		size_t avail = s.m_str->getFull();
+		       avail = (nbegin < avail)?(avail - nbegin):0;
+		nLen = ST_U32(avail < nLen?avail:nLen);
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
 			tmp->add(sz + nbegin, nLen);
-- 
2.43.0


From 22ef293b196f6bb25c800cf9c661a5e6d8d5adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 006/175] fix: Cstring::append_format passed a va_list to
 sprintf

The arguments were not formatted at all (hexformat printed garbage) and long
text overflowed the local buffer. Text which does not fit is refused like on
windows.
---
 src/mg/alxstring.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 19150bd..e495575 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -773,13 +773,15 @@ public:
 #ifdef _WIN32
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
 #else
-		retVal = sprintf(szLine, pszFmtString, args);
+		retVal = vsnprintf(szLine, sizeof(szLine), pszFmtString, args);
+		if(retVal >= (int)sizeof(szLine))
+			retVal = -1;
 #endif
 		
-		MGBASECHECK(retVal);
-
 		va_end( args );
 
+		MGBASECHECK(retVal);
+
 		operator+=(szLine);
 	}
 
-- 
2.43.0


From 3055d37f7184df2b5e3f9305fd21d2659dde4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 007/175] fix: Csplitter kept the pieces of the previous text
 when used again

---
 src/mg/splitter.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index e93888f..1c50e38 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -55,6 +55,7 @@ public:
 			return;
 
 		m_str = scontent;
+		m_locator.clear();
 
 		TCHAR *pszbegin = scontent;
 		size_t nLen = _tcslen(sseparator);
-- 
2.43.0


From fb0dd60ddb6416213e184f9fd4a052bd943ac740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 008/175] fix: console_command took a ':' in the value as the
 separator of -name=value

-input=http://host was read as the parameter 'input=http'.
---
 src/mg/cmdline.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index f1cb7a9..f9a9e5c 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -430,8 +430,10 @@ public:
 			if(Equals(command.subString(0, 1), _T("-")))
 			{
 				int x = command.find(_T(":"));
-				if(x < 0)
-					x = command.find(_T("="));
+				int e = command.find(_T("="));
+				//the first separator ends the name, the value can contain both
+				if(x < 0 || (0 <= e && e < x))
+					x = e;
 
 				//check for --command
 				int ss = 1;
-- 
2.43.0


From f2a84b4fb254092dcbcf12b1b5fe2384657843b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 009/175] fix: DBL_U64 must refuse NaN and values which do not
 fit in 64 bits

---
 src/mg/core/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index dd03949..68bd59c 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -180,7 +180,7 @@ inline double U64_DBL(uint64_t rhs)
 inline uint64_t DBL_U64(double rhs)
 {    
     _ASSERTE(rhs >= 0);
-	if (rhs < 0)
+	if (!(rhs >= 0 && rhs < 18446744073709551616.0 /*2^64*/))
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From e066d3fda6fb869b2ef068ba4dd5b782a7914bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 010/175] fix: IS_U32 must refuse negative values

---
 src/mg/core/core.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index 68bd59c..1492832 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -264,8 +264,8 @@ inline size_t u64_ST(uint64_t rhs)
 
 inline uint32_t is_u32(SIGNEDSIZET rhs)
 {
-	_ASSERTE(rhs <= INT32_MAX);
-	if (rhs > INT32_MAX)
+	_ASSERTE(0 <= rhs && rhs <= INT32_MAX);
+	if (rhs < 0 || rhs > INT32_MAX)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From 9537557c76de63da93045e07b358bc4b23c21295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 011/175] fix: mgexception::set_message was not reported by
 what()

---
 src/mg/exception.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/exception.h b/src/mg/exception.h
index ed30e02..4a683e1 100644
--- a/src/mg/exception.h
+++ b/src/mg/exception.h
@@ -79,6 +79,7 @@ public:
 	void set_message(const TCHAR* pmsg)
 	{
 		_msg = pmsg;
+		update_what();
 	}
 
 };
-- 
2.43.0


From 27db68e77be217ddf5046a3c52b5bf4738c366ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 012/175] fix: UVCHECK lost the error number and the message of
 libuv

The negative number was converted with ST_U32, which throws an overflow
exception instead.
---
 src/mg/core/uvbase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 1c570e4..365b221 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -33,7 +33,7 @@
 __UV_BEGIN_NAMESPACE
 
 
-#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(ST_U32(num), uv_strerror(ST_U32(num)), _T(__FILE__), __LINE__); } }
+#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(static_cast<int>(num), uv_strerror(static_cast<int>(num)), _T(__FILE__), __LINE__); } }
 
 
 
-- 
2.43.0


From 83591b6f3c78f14857ac470d16a4ba42d7b9815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 013/175] fix: signal_event lost wake-ups

The flag was read and written without the lock, wait() did not check it again
after taking the lock, only one waiter was woken up, and a timed wait gave up
at once when the lock was busy.
---
 src/mg/core/thread.cpp | 57 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index c783ffe..9917f67 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -98,55 +98,62 @@ signal_event::~signal_event()
 
 void signal_event::signal()
 {
-	if (_signed)
-		return;
+	_crit_sec.lock();
 
 	_signed = true;
 	//free anyone waiting
-	uv_cond_signal(&_cond_t);
+	uv_cond_broadcast(&_cond_t);
 
+	_crit_sec.unLock();
 }
 
 void signal_event::reset()
 {
+	_crit_sec.lock();
 	_signed = false;
+	_crit_sec.unLock();
 }
 
 void signal_event::wait()
 {
-	if (_signed)
-		return;
-	
 	_crit_sec.lock();
-	uv_cond_wait(&_cond_t, &_crit_sec._mutex);
+	while (!_signed)
+		uv_cond_wait(&_cond_t, &_crit_sec._mutex);
 	_crit_sec.unLock();
 }
 
 bool signal_event::wait(uint32_t millyseconds)
 {
-	if (_signed)
-	   return true;
+	const uint64_t start = uv_hrtime();
+	const uint64_t t     = static_cast<uint64_t>(millyseconds) * 1000000;
 
-	double t = millyseconds;
-	         t *= 1e6;
-	
-	
-	bool work = true;
+	int n = 0;
 
-	
-	if(!_crit_sec.try_lock())
-		return false;
-	int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (uint64_t)t);
-	_crit_sec.unLock();
-	if(0 == n)
-	  return (_signed);
+	_crit_sec.lock();
 
-	if(UV_ETIMEDOUT == n)
-	  return false;
+	while (!_signed)
+	{
+		uint64_t elapsed = uv_hrtime() - start;
 
-	UVCHECK(n);
+		if (elapsed >= t)
+			break;
 
-	return false;
+		n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, t - elapsed);
+
+		if (0 != n && UV_ETIMEDOUT != n)
+			break;
+	}
+
+	bool is_signed = _signed;
+
+	_crit_sec.unLock();
+
+	if (UV_ETIMEDOUT != n)
+	{
+		UVCHECK(n);
+	}
+
+	return is_signed;
 
 }
 
-- 
2.43.0


From 448b611ce19503eab4ca6bd0da898c2035b49fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 014/175] fix: uvloopthread shared its exit flag and exception
 between threads unprotected

---
 src/mg/core/uvbase.cpp |  4 +++-
 src/mg/core/uvbase.h   | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 39ceac4..5f2da8d 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -81,7 +81,9 @@ void uvloopthread::run()
 
 		std::cout << "ending loop thread handled_exception" << std::endl;
 
-		_last_exception = std::current_exception();
+		std::exception_ptr eptr = std::current_exception();
+
+		set_exception(eptr);
 
 		//std::cout << "last_exception:\t" << _last_exception.w
 	}
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 365b221..078f37d 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -25,6 +25,8 @@
 #include <uv.h>
 #include "thread.h"
 
+#include <atomic>
+
 #define __UV_BEGIN_NAMESPACE namespace mg {namespace uv{
 #define __UV_END_NAMESPACE     }}
 
@@ -113,9 +115,10 @@ class uvloopthread : public MGCORE::cthread
 
 	uint32_t _wait_time;
 	
-	bool _exit;
+	std::atomic<bool> _exit;
 
 	std::exception_ptr _last_exception;
+	MGCORE::critical_section _exception_cs;
 
 	MGCORE::critical_section _cs;
 
@@ -160,13 +163,17 @@ public:
 
 	void check_exception()
 	{
-		if (_last_exception != nullptr)
+		std::exception_ptr pt = nullptr;
+
 		{
-			std::exception_ptr pt = _last_exception;
+			MGCORE::auto_lock l(_exception_cs);
+
+			pt = _last_exception;
 			_last_exception = nullptr;
+		}
 
+		if (pt != nullptr)
 			std::rethrow_exception(pt);
-		}
 	}
 
 	void end(bool check = false)
@@ -188,7 +195,12 @@ public:
 		end(true);
 	}
 
-	void set_exception(std::exception_ptr & eptr) { _last_exception = eptr; }
+	void set_exception(std::exception_ptr & eptr)
+	{
+		MGCORE::auto_lock l(_exception_cs);
+
+		_last_exception = eptr;
+	}
 };
 
 typedef MGCORE::CResource<uvloopthread> loopthread;
-- 
2.43.0


From 79e6248271ed55461b85f4fc40c0987e52c2cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 015/175] fix: uvloopthread dropped accepted operations when
 stop raced with the loop

---
 src/mg/core/uvbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 5f2da8d..da0c1a7 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -61,7 +61,8 @@ void uvloopthread::run()
 				do {
 
 					MGCORE::auto_lock l(_cs);
-					if (_loop->alive())
+					//a stop request still pending makes run return at once
+					while (_loop->alive())
 						_loop->run(UV_RUN_DEFAULT);
 
 				} while (0);
-- 
2.43.0


From 37e4694aa7cc9e2f34388b8d344dd584ef7350e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 016/175] fix: CPromise::has_value read the value without the
 lock

---
 src/mg/promises.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mg/promises.h b/src/mg/promises.h
index 520941e..8f472a9 100644
--- a/src/mg/promises.h
+++ b/src/mg/promises.h
@@ -145,7 +145,12 @@ public:
 		return (*this);
 	}
 
-	bool has_value() { return (_value) ? true : false; }
+	bool has_value()
+	{
+		auto_lock l(_cs);
+
+		return (_value) ? true : false;
+	}
 
 };
 
-- 
2.43.0


From 155f1656a344b03d3aea00df266e507ed17752c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 017/175] fix: cfile reported every failed operation as an
 overflow

ST_U32 refuses the negative result of a failed request, so the error handlers
never ran and the number of the error was lost.
---
 src/mg/core/file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index d7efaf5..213da35 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -137,11 +137,11 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	if(0 > req->result)
 	{
 
-		std::cout << "!!!file async error " << uv_strerror(ST_U32(req->result))
+		std::cout << "!!!file async error " << uv_strerror(static_cast<int>(req->result))
 			<< _T("\t")
 			<< std::endl;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(ST_U32(req->result), uv_strerror(ST_U32(req->result)), _T(__FILE__), __LINE__)));
+		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(static_cast<int>(req->result), uv_strerror(static_cast<int>(req->result)), _T(__FILE__), __LINE__)));
 	}
 	else
 	{
@@ -211,7 +211,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 			CResource<CPromise<uv_fs_t> > prom;
 			                              prom.Create();
 
-										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(ST_U32(req.result), uv_strerror(ST_U32(req.result)), _T(__FILE__), __LINE__)));
+										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(static_cast<int>(req.result), uv_strerror(static_cast<int>(req.result)), _T(__FILE__), __LINE__)));
 
 										  return prom;
 
-- 
2.43.0


From b8bef94ac8c1a06cea6ae3f95e6f954504438391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 018/175] fix: cfile gave the outcome of one read to another
 when reads completed out of order

---
 src/mg/core/file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 213da35..b2eade0 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -92,6 +92,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		fcb->_p_forward->remove(temp);
 
 		fcb = temp;
+		req = fcb->_uv_fs_t;
 	
 	}
 
-- 
2.43.0


From a827868c3a20e45a326de82a91fa93d4f22c5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 019/175] fix: cfile shared its counters between threads
 unprotected

---
 src/mg/core/file.cpp | 2 --
 src/mg/core/file.h   | 9 +++++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index b2eade0..7d22ae3 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -369,7 +369,6 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 
 	cb->set_er();
 
-	uint64_t * ppos = &_position;
 	uint64_t    pos =  _position;
 
 #ifdef _DEBUG
@@ -429,7 +428,6 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		);
 			
 
-		uint64_t * ppos = &_position;
 		uint64_t    pos = _position;
 
 		if ((pos + size) > this->size())
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e565f53..8dc24e2 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -31,6 +31,7 @@
 
 #include <stdio.h>
 
+#include <atomic>
 #include <forward_list>
 
 __MGCORE_BEGIN_NAMESPACE
@@ -49,7 +50,7 @@ struct struct_file_cb: CPromise<uv_fs_t>
 	uint64_t             _expt;
 #endif
 
-	uint32_t			* _p_served;
+	std::atomic<uint32_t> * _p_served;
 	//uint32_t            * _p_outstanding;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
@@ -69,7 +70,7 @@ class cfile
 	uv_stat_t _file_stat;
 	uv_file   _file;
 
-	uint64_t _position;
+	std::atomic<uint64_t> _position;
 
 	std::forward_list<struct_file_cb *> _unordered_buffer;
 
@@ -80,8 +81,8 @@ class cfile
 	uint32_t      _arrive_wr_sequence;
 #endif
 
-	uint32_t            _outstanding;
-	uint32_t            _served;
+	std::atomic<uint32_t> _outstanding;
+	std::atomic<uint32_t> _served;
 
 	signal_event        _ended;
 
-- 
2.43.0


From 819e168c3f69ea4663c67d51753267c70134fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 020/175] fix: cfile::write reported a short write as complete

---
 src/mg/core/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 7d22ae3..3c54ae7 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -381,7 +381,9 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 		{
 			/*(*ppos) += pBuffer->size();*/
 			//keep an active reference to the buffer. //we can work in fire and forget.
-			_ASSERTE(req->result = pBuffer->size());
+			//the disk may be full
+			if (static_cast<uint64_t>(req->result) != pBuffer->size())
+				throw MGCORE::mgexception(UV_EIO, _T("short write"), _T(__FILE__), __LINE__);
 	    }
 	);
 
-- 
2.43.0


From 180baac6695671026fea1ddd2577482d0abddf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 021/175] fix: cfile::read past the end moved the position by
 up to 4GB

---
 src/mg/core/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 3c54ae7..e94e4e2 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -433,7 +433,7 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		uint64_t    pos = _position;
 
 		if ((pos + size) > this->size())
-			size = static_cast<uint32_t>(this->size() - pos);
+			size = (pos < this->size()) ? static_cast<uint32_t>(this->size() - pos) : 0;
 
 #ifdef _DEBUG
 		//cb->_sequence = _leave_r_sequence++;
-- 
2.43.0


From b2cec9e824ebcbbf91c39dffe75c85a9fda1ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 022/175] fix: a failed cfile operation left the other
 operations unanswered

The exception crossed libuv, which dropped its other completed requests, and
the loop ended with requests pending: cfile::close waited for them forever.
Close could also return while the last call back was still running.
---
 src/mg/core/file.cpp | 35 ++++++++++++++++++++++++++++-------
 src/mg/core/file.h   |  6 ++++++
 src/mg/core/uvbase.h | 14 ++++++++++++++
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index e94e4e2..0b78585 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -135,6 +135,8 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	(*fcb->_p_served)++;
 	
 	
+	try {
+
 	if(0 > req->result)
 	{
 
@@ -148,6 +150,13 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	{
 		fcb->call_cb(fcb->_uv_fs_t);
 	}
+
+	}
+	catch (...)
+	{
+		//an exception crossing libuv would leave its other requests without an answer
+		fcb->_p_loop->fail(std::current_exception());
+	}
 	
 	delete fcb;
 
@@ -183,8 +192,7 @@ cfile::cfile(::mg::uv::loopthread & loop)
 
 cfile::~cfile()
 {
-	if (_file)
-		close(false);
+	close(false);
 }
 
 CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool async)
@@ -275,21 +283,34 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 	}
 }
 
-CResource<CPromise<uv_fs_t> > cfile::close(bool async)
+void cfile::wait_outstanding()
 {
 	_ended.reset();
 
-	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
-
 	while (this->_served != this->_outstanding)
 	{
+		if (_loop->is_done())
+		{
+			//nobody else is going to complete the requests
+			auto_lock l(_loop->loop_lock());
+			uv_run(_loop->get_loop(), UV_RUN_DEFAULT);
+		}
+
 		_ended.wait(10);
 	}
 
-
 	_ASSERTE(this->_served == this->_outstanding);
 
-	
+	//the last call back may still be running: call backs run under the loop lock
+	auto_lock l(_loop->loop_lock());
+}
+
+CResource<CPromise<uv_fs_t> > cfile::close(bool async)
+{
+	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
+
+	wait_outstanding();
+
 	//std::cout << _T("cfile::close 2\t") << _served << _T("\t") << _outstanding << std::endl;
 
 	if (0 == _file)
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 8dc24e2..3862cac 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -54,6 +54,8 @@ struct struct_file_cb: CPromise<uv_fs_t>
 	//uint32_t            * _p_outstanding;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
+
+	MGUV::uvloopthread  * _p_loop;
 };
 
 class cfile
@@ -94,10 +96,14 @@ class cfile
 		 //(*fcb->_p_outstanding)++;
 		 fcb->_sequence = _outstanding;
 		 fcb->_p_forward = &_unordered_buffer;
+		 fcb->_p_loop = _loop;
 
 		 _outstanding++;
 		 //_ASSERTE(fcb->_p_outstanding >= 0);
 	 }
+
+	 //wait for all the operations, and their call backs, to complete
+	 void wait_outstanding();
 protected:
 	void loop_now() {
 		_loop->loop_now();
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 078f37d..f45ea38 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -195,6 +195,20 @@ public:
 		end(true);
 	}
 
+	//an operation failed: report it when the loop ends
+	//and end the loop once the operations already accepted are completed.
+	void fail(std::exception_ptr eptr)
+	{
+		{
+			MGCORE::auto_lock l(_exception_cs);
+
+			if (_last_exception == nullptr)
+				_last_exception = eptr;
+		}
+
+		stop();
+	}
+
 	void set_exception(std::exception_ptr & eptr)
 	{
 		MGCORE::auto_lock l(_exception_cs);
-- 
2.43.0


From 98f77a3e5e519c76bd4f446d144494f01a5ca1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 023/175] fix: bitstream accessed memory past the end of its
 buffer

---
 src/mg/core/bitstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..69e9f21 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -48,6 +48,8 @@
 #define DEFAULT_FILE_PAGE 8*1024 //8k
 #endif
 
+#define BITSTREAM_PADDING 8
+
 #define BITSTREAM_READ_DEBUG 0
 #define BITSTREAM_POSITION_DEBUG 0
 
@@ -385,7 +387,8 @@ class bitstream_base : public Ibitstream_cb
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		//bits are moved four or five bytes at a time: past the last byte of the buffer too
+		_buf        = new unsigned char[buf_len + BITSTREAM_PADDING]();
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
-- 
2.43.0


From 53609ce89ff8fe62df80bc9f7dfc743e128ec67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 024/175] fix: bitstream shifted by the full width for zero
 bits and accepted any count in putbits

---
 src/mg/core/bitstream.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 69e9f21..eab3230 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -446,6 +446,12 @@ protected:
 		unsigned int tmp;   // temp value for shifted bits
 		unsigned int val;   // the n-bit value
 
+		if (n > 32 || n < 0)
+			throw InvalidInput(__FILE__, __LINE__);
+
+		if (0 == n)
+			return;
+
 		val = value & tmask[n];
 
 		if (_cur_bit + n > (_buf_size << 3)) _flush_buf();
@@ -1318,6 +1324,9 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	if (n > 32 || n < 0)  //TODO: 64
 		throw InvalidInput(__FILE__, __LINE__);
 
+	if (0 == n)
+		return 0;
+
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	// make sure we have enough data
@@ -1330,7 +1339,7 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	// starting byte in buffer
 	v = _buf + (_cur_bit >> 3);
 	// load 4 bytes, a byte at a time - this way endianess is automatically taken care of
-	x = (v[0] << 24) | (v[1] << 16) | (v[2] << 8) | v[3];
+	x = (static_cast<uint32_t>(v[0]) << 24) | (v[1] << 16) | (v[2] << 8) | v[3];
 
 	// figure out how much shifting is required
 	s = 32 - ((_cur_bit % 8) + n);
-- 
2.43.0


From 1e2325240c55eab75aa2e038fa9ba57c3ebcf72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 025/175] fix: bitstream computed bit counts of large buffers
 in 32 bits

---
 src/mg/core/bitstream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index eab3230..4510074 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -454,7 +454,7 @@ protected:
 
 		val = value & tmask[n];
 
-		if (_cur_bit + n > (_buf_size << 3)) _flush_buf();
+		if (_cur_bit + n > (static_cast<uint64_t>(_buf_size) << 3)) _flush_buf();
 
 		delta = 32 - n - (_cur_bit % 8);
 		v = _buf + (_cur_bit >> 3);
@@ -904,7 +904,7 @@ public:
 
 		_p_cb->write(pbyte, size, this); //fire and forget
 
-		_tot_bits += (size << 3);
+		_tot_bits += (static_cast<uint64_t>(size) << 3);
 	}
 	
 	
@@ -1330,7 +1330,7 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	// make sure we have enough data
-	if (_cur_bit + n >(_buf_len << 3))
+	if (_cur_bit + n > (static_cast<uint64_t>(_buf_len) << 3))
 	{
 		fill_buf();
 		_ASSERTE(_cur_bit == 0);
-- 
2.43.0


From 17c4bfa04f846bb1b8727c68696005721b83fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 026/175] fix: bitstream reported the end while data was on its
 way, lost the last bytes and made up bits past the end

---
 src/mg/core/bitstream.h | 78 ++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 4510074..d65ba45 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -37,6 +37,7 @@
 #include <stdio.h>
 #include "thread.h"
 
+#include <atomic>
 #include <type_traits>
 
 #define TIMEOUT 10000
@@ -278,7 +279,7 @@ class bitstream_base : public Ibitstream_cb
 
 	bool _load;
 
-	bool _pending_read;
+	std::atomic<bool> _pending_read;
 
 	void wait() {
 		
@@ -292,6 +293,13 @@ class bitstream_base : public Ibitstream_cb
 		}
 	}
 	
+	//the storage may be at its end before it has answered with its last data
+	void wait_pending()
+	{
+		if (_pending_read)
+			wait();
+	}
+
 	void internal_read(uint32_t size, bool async = true)
 	{
 		_ASSERTE(_p_cb);
@@ -547,6 +555,7 @@ public:
 		uint32_t x = size;
 
 		_load_event.signal(); //start in signal mode
+		_pending_read = false;
 
 		init(x, load);
 	}
@@ -556,7 +565,7 @@ public:
 		create(p_cb, size, load);
 	}
 
-	bitstream_base():_buf(NULL), _shadow_buf(NULL)
+	bitstream_base():_buf(NULL), _shadow_buf(NULL), _pending_read(false)
 	{
 		
 	}
@@ -574,27 +583,26 @@ public:
 		
 	virtual bool atend()
 	{
-		if (_p_cb->eof())
-			if(!_shadow_len)
-				if ((_buf_len << 3) <= _cur_bit)
-					return true;
+		if (_cur_bit < (static_cast<uint64_t>(_buf_len) << 3))
+			return false;
 
-		return false;
+		wait_pending();
+
+		return (!_shadow_len) && _p_cb->eof();
 	}
 	
 	inline bool has_bits(int nbit)
 	{
-		if (_p_cb->eof())
-		{
-			uint64_t available = (_buf_len << 3) - _cur_bit;
-			//if (((_buf_len * 8 - _cur_bit) - nbit) >= 0)
-			if(available >= nbit)
-				return true;
+		uint64_t available = (static_cast<uint64_t>(_buf_len) << 3) - _cur_bit;
 
-			return false;
-		}
+		if (available >= static_cast<uint64_t>(nbit))
+			return true;
+
+		wait_pending();
 
-		return true;
+		available += (static_cast<uint64_t>(_shadow_len) << 3);
+
+		return (available >= static_cast<uint64_t>(nbit)) || (!_p_cb->eof());
 	}
 	
 	uint64_t _getpos(void) const { return _tot_bits; }
@@ -1170,21 +1178,24 @@ public:
 
 template<class Type> void bitstream_base<Type>::fill_buf()
 {
-	if ((!_shadow_len) && _p_cb->eof())
+	wait_pending();
+
+	if ((!_shadow_len) && (!_p_cb->eof()))
+	{
+		_load_shadow = true;
+		internal_read(_buf_size, false);
+	}
+
+	if (!_shadow_len)
 		throw EndOfData(_T(__FILE__), __LINE__);
 
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
-	if (_shadow_len != _buf_size) {
-		wait();
-	}
-
 	{
 		auto_lock l(_load_lock);
 
 		//DBGC2("READ\tENTER-FILL-BUFFER\t%d\t%d", _shadow_len, _buf_size);
 		
-		_ASSERTE( ( _shadow_len == _buf_size) || _p_cb->eof() );
 		_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 		uint32_t	n;	// how many bytes we must fetch (already read)
@@ -1193,7 +1204,6 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 
 		n = static_cast<uint32_t>(_cur_bit >> 3);
 
-		_ASSERTE(n > 0);
 		_ASSERTE(n <= _buf_size);
 
 		u = _buf_len - n;
@@ -1208,11 +1218,13 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 		//we have u bytes in buffer yet to read
 		_buf_len = u;
 
-		_ASSERTE( ( n == _buf_size - _buf_len ) ||  _p_cb->eof() );
-				
 		//move as much as we can from _shadow
 		_ASSERTE(_shadow_len);
-		_ASSERTE( ( n <= _shadow_len) || _p_cb->eof());
+
+		n = _buf_size - u;
+
+		if (0 == n)
+			throw InvalidInput(__FILE__, __LINE__); //too many bits for this buffer
 
 		//DBGC3("READ\tFILL-BUFFER\t%d\t%d\t%d", _shadow_len, n, _buf_size - _shadow_len);
 
@@ -1223,11 +1235,12 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 				memcpy(_buf + u, _shadow_buf, n);
 				_shadow_len -= n;
 				_buf_len += n;
+
+				//what is left goes at the beginning
+				memmove(_shadow_buf, _shadow_buf + n, _shadow_len);
 			}
 			else
 			{
-				_ASSERTE( ( n == _shadow_len) || _p_cb->eof() );
-
 				memcpy(_buf + u, _shadow_buf, _shadow_len);
 				_buf_len += _shadow_len;
 				_shadow_len = 0;
@@ -1263,12 +1276,6 @@ template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_
 			if (read)
 			{
 				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
-
 				memcpy(_shadow_buf + _shadow_len, p_val, read);
 
 				_shadow_len += read;
@@ -1330,10 +1337,9 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	// make sure we have enough data
-	if (_cur_bit + n > (static_cast<uint64_t>(_buf_len) << 3))
+	while (_cur_bit + n > (static_cast<uint64_t>(_buf_len) << 3))
 	{
 		fill_buf();
-		_ASSERTE(_cur_bit == 0);
 	}
 
 	// starting byte in buffer
-- 
2.43.0


From 09d81e5f5b9a05e81e9f8d3ba45ab4ca6013ff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 027/175] fix: bitstream::skipbits went to a wrong position
 across buffers, hung, and ignored what was buffered at the end

---
 src/mg/core/bitstream.h | 70 ++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index d65ba45..858dade 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -920,66 +920,36 @@ protected:
 
 	virtual void _skipbits(uint16_t n)
 	{
-		//_getbits(n); 
-
-		mg::core::auto_lock l(_load_lock);
-
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
-
-		uint64_t bit_ava = bit_len - _cur_bit;
-
-		if (bit_ava < n)
+		if (!_load)
 		{
-			//we do not have enough bits
+			//writing: the bits which are skipped are zero
+			for (; n > 32; n -= 32)
+				_putbits(0, 32);
 
-			uint64_t bit_sha = _shadow_len << 3;
+			_putbits(0, n);
 
-			if ((bit_ava + bit_sha) > n)
-			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
-				_tot_bits += n;
-			}
-            else if(has_bits(n))
-			{
-				uint64_t pos = _getpos();
-				         pos += n;
+			return;
+		}
 
-						 uint64_t remain = pos % 8;
+		uint64_t todo = n;
 
-						 _set_position((pos + n) >> 3);
+		for(;;)
+		{
+			uint64_t bit_ava = (static_cast<uint64_t>(_buf_len) << 3) - _cur_bit;
 
-						 _ASSERTE(_cur_bit == 0);
+			if (bit_ava > todo)
+				bit_ava = todo;
 
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
+			_cur_bit  += bit_ava;
+			_tot_bits += bit_ava;
 
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
-			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
+			todo -= bit_ava;
 
-                _ASSERTE(atend());
-            }
+			//either done or at the end
+			if (0 == todo || this->atend())
+				return;
 
-		}
-		else
-		{
-			_cur_bit += n;
-			_tot_bits += n;
+			fill_buf();
 		}
 
 	}
-- 
2.43.0


From f0c0b22c6462cfca6cd40b358d215697413200e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 028/175] fix: bitstream::read failed when it left one to three
 bytes

---
 src/mg/core/bitstream.h | 61 ++++++++---------------------------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 858dade..548b85d 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -961,60 +961,24 @@ private:
 		uint32_t available = this->_buf_len - used;
 
 		_ASSERTE((_cur_bit >> 3) <= _buf_size);
-		
-		
-		if (available > size)
-		{
-			(*read) = size;
-			
-			::memcpy(pbytes, this->_buf + used, size);
-
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
-			_ASSERTE(((_cur_bit >> 3) + size) <= _buf_size);
 
-			this->_cur_bit += (size << 3);
-			this->_tot_bits += (size << 3);
-
-			this->_nextbits(32); //reload buffer if needed
-		}
-		else /*if ((available + this->_shadow_len) > size)*/
+		if (0 == available)
 		{
-			
-			::memcpy(pbytes, this->_buf + used, available);
-
-			this->_cur_bit += (available << 3);
-			this->_tot_bits += (available << 3);
-
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			else
-			{
-				//we are at the end
-				(*read) = available;
-				return;
-			}
-
-			uint32_t todo = size - available;
-
-			if (todo > this->_buf_len)
-			{
-				todo = this->_buf_len;
-			}
+			this->fill_buf();
 
-			_ASSERTE(this->_buf_len >= todo);
-			_ASSERTE(0 == this->_cur_bit);
+			used = 0;
+			available = this->_buf_len;
+		}
 
-			::memcpy(pbytes + available, this->_buf, todo);
+		if (available > size)
+			available = size;
 
-			this->_cur_bit += (todo << 3);
-			this->_tot_bits += (todo << 3);
+		::memcpy(pbytes, this->_buf + used, available);
 
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			
-			(*read) = available + todo;
+		this->_cur_bit  += (static_cast<uint64_t>(available) << 3);
+		this->_tot_bits += (static_cast<uint64_t>(available) << 3);
 
-		}
+		(*read) = available;
 	}
 
 protected:
@@ -1029,9 +993,6 @@ protected:
 
 		while (done < size && (!this->atend()))
 		{
-			if(done)
-				wait();
-
 			_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 			uint32_t working(0);
-- 
2.43.0


From a0a27e30a01401af7e83407f9a2ff8c130d648d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 029/175] fix: bitstream::set_position corrupted the stream
 inside a byte, in the shadow buffer and past the end

---
 src/mg/core/bitstream.h | 103 ++++++++--------------------------------
 1 file changed, 21 insertions(+), 82 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 548b85d..9413a2d 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -718,109 +718,48 @@ public:
 
 		bool do_reload = false;
 		{
-			if (0 == _shadow_len && ((!_p_cb->eof()) || _pending_read) )
-			{
-				wait();
-			}
+			//the position and the buffers agree only when nothing is on its way
+			wait_pending();
 
-			mg::core::auto_lock l(_load_lock);
-			
 			//buffer start
 			uint64_t epos = _p_cb->get_position();
             
 			uint64_t kpos  = epos;
 			kpos -= _buf_len;
 			kpos -= _shadow_len;
-			uint64_t pos = kpos + (_cur_bit >> 3);
-
+			
 			_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 			FDBGC6(BITSTREAM_POSITION_DEBUG
 				, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
-				, rhs, epos, pos, _buf_len, _shadow_len, _buf_size);
-
-			if ((rhs < epos) //already read
-				&& (kpos <= rhs)
-				)
-			{
-
+				, rhs, epos, kpos, _buf_len, _shadow_len, _buf_size);
 
+			if (epos < rhs && _p_cb->eof())
+				rhs = epos; //move to the end
 
+			if ((kpos <= rhs) && (rhs <= epos))
+			{
 				//we can move in buffer
-				uint64_t cur_ava = (_buf_len - (_cur_bit >> 3));
-				uint64_t advance = 0;
-				
-				if(rhs > pos)
-					advance = rhs - pos;
-
-				if (advance > cur_ava)
-				{
-					
-
-					_ASSERTE((advance - cur_ava) <= _shadow_len);
+				uint64_t cur = (kpos << 3) + _cur_bit;
 
-					_cur_bit  += (cur_ava << 3);
-					_tot_bits += (cur_ava << 3);
-
-					//force buffer switch
-					this->_nextbits(32);
-
-					_ASSERTE(0 == _cur_bit);
-					//_ASSERTE(0 == _shadow_len);
-
-					uint64_t n = ((advance - cur_ava) << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit  += n;
-					_tot_bits += n;
+				if (_tot_bits + (rhs << 3) < cur)
+					_tot_bits = 0;
+				else
+					_tot_bits = _tot_bits + (rhs << 3) - cur;
 
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-				}
-				else if ((rhs < pos) && rhs >= (kpos))
+				if (rhs > kpos + _buf_len)
 				{
-					//move backward
-					uint64_t n = pos - rhs;
-
-					_ASSERTE((_cur_bit >> 3) >= n);
-					_ASSERTE((_tot_bits >> 3) >= n);
-
-					_cur_bit -= (n << 3);
-
-					if (_tot_bits < (n << 3))
-						_tot_bits = 0;
-					else
-						_tot_bits -= (n << 3);
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
+					//buffer switch
+					kpos += _buf_len;
+					_cur_bit = (static_cast<uint64_t>(_buf_len) << 3);
 
+					fill_buf();
 				}
-				else
-				{
-					//move in current buffer
-					uint64_t n = (advance << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
 
-					_cur_bit += n;
-					_tot_bits += n;
+				_cur_bit = ((rhs - kpos) << 3);
 
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-				}
+				_ASSERTE((_cur_bit >> 3) <= _buf_len);
 			}
-            else if(_p_cb->eof() && epos < rhs)
-            {
-                //move to the end
-                if(pos < epos)
-                {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
-                }
-            }
 			else
 			{
                 
@@ -833,7 +772,7 @@ public:
 
 				FDBGC3(BITSTREAM_READ_DEBUG
 					, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 ""
-					, rhs, epos, pos);
+					, rhs, epos, kpos);
 
 			}
 
-- 
2.43.0


From 4d9f1d8819453138919f3611ef38f71ae665bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 030/175] fix: a bitstream could be called back after its
 destruction and waited 11 seconds for answers which cannot come

---
 src/mg/core/bitstream.h | 46 ++++++++++++++++++++++++++++++++++-------
 src/mg/core/file.cpp    | 10 +++++++++
 src/mg/core/file.h      | 10 ++++++++-
 3 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 9413a2d..bed7c56 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -42,6 +42,7 @@
 
 #define TIMEOUT 10000
 #define MICROTIMEOUT 1000
+#define CHECKTIMEOUT 100
 
 #ifdef _DEBUG
 #define DEFAULT_FILE_PAGE 8*1024 //
@@ -204,6 +205,12 @@ public:
 
 	virtual void idle() {};
 
+	//called while waiting for an answer: throw if it is not going to come
+	virtual void check() {};
+
+	//wait until no call back is going to be called for what has been asked
+	virtual void settle() {};
+
 };
 
 
@@ -287,9 +294,17 @@ class bitstream_base : public Ibitstream_cb
 		{
 			_p_cb->idle();
 
-			if (!_load_event.wait(TIMEOUT))
-				if (!_load_event.wait(MICROTIMEOUT))
+			uint32_t waited = 0;
+
+			while (!_load_event.wait(CHECKTIMEOUT))
+			{
+				_p_cb->check();
+
+				waited += CHECKTIMEOUT;
+
+				if (waited >= TIMEOUT + MICROTIMEOUT)
 					throw Timeout(__FILE__, __LINE__);
+			}
 		}
 	}
 	
@@ -533,6 +548,22 @@ protected:
 
 	CResource< Type > & storage() { return _p_cb; }
 
+	//before destruction: no call back can come afterwards
+	void release()
+	{
+		try {
+
+			wait();
+		}
+		catch (...)
+		{
+			//a destructor cannot report it
+		}
+
+		if (_p_cb)
+			_p_cb->settle();
+	}
+
 public:
 
 	virtual void read_cb(const unsigned char * p_val, uint32_t read);
@@ -572,7 +603,7 @@ public:
 
 	virtual ~bitstream_base()
 	{
-		wait();
+		release();
 
 		if (_buf)
 			delete[] _buf;
@@ -983,16 +1014,15 @@ class bitstream: public bitstream_base<Type>, public IBitstream
 
 public:
 
+	//the first answer may come from another thread: not before we are constructed
 	bitstream(CResource<Type > & p_cb, uint32_t size = DEFAULT_FILE_PAGE) 
-		: bitstream_base<Type>(p_cb, size)
 	{
-
+		bitstream_base<Type>::create(p_cb, size);
 	}
 
 	bitstream(CResource<Type > & p_cb, bool load, uint32_t size = DEFAULT_FILE_PAGE)
-		: bitstream_base<Type>(p_cb, size, load)
 	{
-
+		bitstream_base<Type>::create(p_cb, size, load);
 	}
 
 	bitstream() {}
@@ -1027,7 +1057,7 @@ public:
 		bitstream_base<Type>::_set_position(rhs);
 	}
 	
-	virtual ~bitstream(){}
+	virtual ~bitstream(){ bitstream_base<Type>::release(); }
 
 	virtual void read(unsigned char * pbytes, uint32_t size, uint32_t * read)
 	{
diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 0b78585..237457d 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -305,6 +305,16 @@ void cfile::wait_outstanding()
 	auto_lock l(_loop->loop_lock());
 }
 
+void cfile::check_loop()
+{
+	if (!_loop->is_done())
+		return;
+
+	_loop->check_exception();
+
+	throw MGCORE::mgexception(UV_ECANCELED, _T("the loop has ended"), _T(__FILE__), __LINE__);
+}
+
 CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 {
 	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 3862cac..6b07320 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -102,9 +102,13 @@ class cfile
 		 //_ASSERTE(fcb->_p_outstanding >= 0);
 	 }
 
+protected:
 	 //wait for all the operations, and their call backs, to complete
 	 void wait_outstanding();
-protected:
+
+	//throw if the loop has ended
+	void check_loop();
+
 	void loop_now() {
 		_loop->loop_now();
 	}
@@ -179,6 +183,10 @@ public:
 	virtual void     set_position(uint64_t rhs) { cfile::set_position(rhs); }
 
 	virtual void idle() { this->loop_now(); };
+
+	virtual void check() { this->check_loop(); }
+
+	virtual void settle() { this->wait_outstanding(); }
 };
 
 class sync_file_bitstream : public Ibitstream_storage
-- 
2.43.0


From 0db624a8daed65bf5a2d737b850a2e36c28af518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 031/175] fix: copy_stream raced with its call backs, never
 ended after an error and copied past the end asked for

---
 src/mg/core/bitstream.cpp | 180 ++++++++++++++------------------------
 1 file changed, 65 insertions(+), 115 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 05920b3..36f2d3f 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -25,158 +25,98 @@
 #define COPY_STREAM_WAIT 0
 
 #define SMALL_WAIT 50
-#define NO_WAIT 0
 
 
 __MGCORE_BEGIN_NAMESPACE
 
 class _ccopy_stream :public Ibitstream_cb
 {
-	signal_event         _read_event;
+	//signaled at each write completed
 	signal_event         _write_event;
 
-	
+	//call backs come from the threads of the storages
+	critical_section     _lock;
 
 	uint32_t _read;
 	uint32_t _write;
-	uint32_t _traveling;
 	uint32_t _max_out;
 
+	Ibitstream_storage & _source;
+	Ibitstream_storage & _destination;
 
-	bool _wait_end;
-
-	void wait(signal_event & ev) {
+	uint32_t traveling()
+	{
+		auto_lock l(_lock);
 
-		if (!ev.wait(TIMEOUT))
-			if (!ev.wait(MICROTIMEOUT))
-				throw Timeout(__FILE__, __LINE__);
+		return _read - _write;
 	}
 
-public:
-
-	
-
-	Ibitstream_storage & _destination;
-	
-	void wait_read()
+	void wait(uint32_t max_out)
 	{
-		while (_read - _write > _max_out)
+		while (traveling() > max_out)
 		{
-			_read_event.reset();
-			FDBGC3(COPY_STREAM_WAIT, "wait-read\t%u\t%u\t%u", _read, _write, _traveling);
-			//wait(_read_event);
-			
 			_destination.idle();
 
-			_read_event.wait(SMALL_WAIT);
-		}
-	}
-
-	void wait_end()
-	{
-		_wait_end = true;
-
-		if (_read == _write)
-		{
-			//wait for the last call to read_cb to end
-            //we do not want to wait in case the call is synchronous
-			if(!_write_event.wait(NO_WAIT))
+			if (!_write_event.wait(SMALL_WAIT))
 			{
-			   //_ASSERTE(false);
-		       //MGCHECK(E_TIMEOUT);
+				_source.check();
+				_destination.check();
 			}
 
-			return;
+			_write_event.reset();
 		}
+	}
 
-		while (!_write_event.wait(SMALL_WAIT))
-		{
-
-			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
-
-			if (_read == _write)
-			{
-				//wait for the last call to read_cb to end
-				if (!_write_event.wait(SMALL_WAIT))
-				{
-					_ASSERTE(false);
-
-					MGCHECK(E_TIMEOUT);
-				}
-
-				return;
-			}
+public:
 
-			
-		}
+	void wait_read() { wait(_max_out); }
 
-		_write_event.wait();
+	void wait_end() { wait(0); }
 
+	//no call back after this
+	void settle()
+	{
+		_source.settle();
+		_destination.settle();
 	}
 
-
-	_ccopy_stream(Ibitstream_storage & destination)
-		:_destination(destination)
-		, _read(0)
+	_ccopy_stream(Ibitstream_storage & source, Ibitstream_storage & destination)
+		: _read(0)
 		, _write(0)
-		, _traveling(0)
 		, _max_out(10)
-		, _wait_end(false)
-
+		, _source(source)
+		, _destination(destination)
 	{
-		_write_event.reset();
 	}
 
-	
-	void read(Ibitstream_storage & source, uint32_t chunk)
+	void read(uint32_t chunk)
 	{
-		_read++;
+		do {
 
-		
-		source.read(chunk, this);
+			auto_lock l(_lock);
+			_read++;
 
-		
+		} while (0);
+
+		_source.read(chunk, this);
 	}
 
 	virtual void read_cb(const unsigned char * p_val, uint32_t read) override
 	{
+		FDBGC3(COPY_STREAM_DEBUG, "read-cb\t%u\t%u\t%u", _read, _write, read);
 
-		//DBGC0(_T("-COPY-WAIT-READ-SIGNAL"));
-		
-		
-		_traveling++;
-		
-
-		FDBGC3(COPY_STREAM_DEBUG, "read-cb\t%u\t%u\t%u", _read, _write, _traveling);
-
-				
-		_destination.write(const_cast<unsigned char*>(p_val), read, this);
-
-		//std::cout << "read_cb" << std::endl;
+		_destination.write(p_val, read, this);
 	}
 	
 	virtual void write_cb(uint32_t written) override
 	{	
+		auto_lock l(_lock);
 
 		_write++;
-		
-		if (_read - _write <= _max_out)
-		{
-			_read_event.signal();
-			FDBGC4(COPY_STREAM_DEBUG, "read-signal\t%u\t%u\t%u\t%u", (_read - _write), _read, _write, _traveling);
-		}
-
-		FDBGC3(COPY_STREAM_DEBUG, "write-cb\t%u\t%u\t%u", _read, _write, _traveling);
 
-		if (_wait_end)
-		{
-			if (_read == _write)
-			{
-				FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
-				_write_event.signal();
-			}
-		}
+		FDBGC3(COPY_STREAM_DEBUG, "write-cb\t%u\t%u\t%u", _read, _write, written);
 
+		_write_event.signal();
 	}
 };
 
@@ -192,27 +132,37 @@ void copy_stream(
 	//if (0 != startpos)
 		source.set_position(startpos);
 
-	_ccopy_stream ccs(destination);
+	_ccopy_stream ccs(source, destination);
 
-	///ccs._write_event.reset();
+	try {
 
-	while (!source.eof() && (endpos == 0 || endpos > source.get_position()))
-	{
-	
-		ccs.wait_read();
-		
-		FDBGC0(COPY_STREAM_DEBUG, "read");
+		while (!source.eof() && (endpos == 0 || endpos > source.get_position()))
+		{
+			ccs.wait_read();
+			
+			FDBGC0(COPY_STREAM_DEBUG, "read");
 
-		ccs.read(source, chunk);
-		
-	}
+			uint32_t size = chunk;
 
-	
-	FDBGC0(COPY_STREAM_WAIT, "ending");
+			if (0 != endpos && endpos - source.get_position() < size)
+				size = static_cast<uint32_t>(endpos - source.get_position());
 
-	ccs.wait_end();
+			ccs.read(size);
+		}
+
+		FDBGC0(COPY_STREAM_WAIT, "ending");
+
+		ccs.wait_end();
+
+		FDBGC0(COPY_STREAM_WAIT, "ended");
+	}
+	catch (...)
+	{
+		ccs.settle();
+		throw;
+	}
 
-	FDBGC0(COPY_STREAM_WAIT, "ended");
+	ccs.settle();
 
 	destination.flush();
 
-- 
2.43.0


From 91f4f74764b54979402dda29bbcda75ad51e6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 032/175] fix: sync_file_bitstream::set_position went to the
 position modulo 4GB

---
 src/mg/core/file.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 6b07320..ed9351e 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -29,6 +29,7 @@
 
 #include <fcntl.h>
 
+#include <errno.h>
 #include <stdio.h>
 
 #include <atomic>
@@ -267,10 +268,25 @@ public:
 		size_t r = ::fflush(_f);
 	}
 
-	virtual uint64_t get_position() const { return ::ftell(_f); }
+	virtual uint64_t get_position() const {
+#ifdef _WIN32
+		return ::_ftelli64(_f);
+#else
+		return ::ftello(_f);
+#endif
+	}
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<uint32_t>(rhs), SEEK_SET);
+#ifdef _WIN32
+		int r = ::_fseeki64(_f, static_cast<__int64>(rhs), SEEK_SET);
+#else
+		int r = ::fseeko(_f, static_cast<off_t>(rhs), SEEK_SET);
+#endif
+		if (0 != r)
+		{
+			int err = -errno;
+			MGCHECK(err);
+		}
 	}
 
 	void close()
-- 
2.43.0


From 0baab2354cc41de8625098891502d8bc26a8de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 033/175] fix: sync_file_bitstream ignored the errors of
 writing

---
 src/mg/core/file.h | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index ed9351e..2314382 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -252,7 +252,17 @@ public:
 
 	size_t write(const unsigned char * pbytes, uint32_t to_write)
 	{
-		return ::fwrite(pbytes, 1, to_write, _f);
+		errno = 0;
+
+		size_t r = ::fwrite(pbytes, 1, to_write, _f);
+
+		if (r != to_write)
+		{
+			int err = (errno) ? -errno : UV_EIO;
+			MGCHECK(err);
+		}
+
+		return r;
 	}
 
 	virtual void write(const unsigned char * pbytes, uint32_t to_write, Ibitstream_cb * pcb)
@@ -265,7 +275,11 @@ public:
 
 	virtual void flush()
 	{
-		size_t r = ::fflush(_f);
+		if (0 != ::fflush(_f))
+		{
+			int err = (errno) ? -errno : UV_EIO;
+			MGCHECK(err);
+		}
 	}
 
 	virtual uint64_t get_position() const {
@@ -291,15 +305,22 @@ public:
 
 	void close()
 	{
-		if(_f)
-			::fclose(_f);
+		FILE * f = _f;
 
 		_f = NULL;
+
+		//what is still buffered may not fit on the disk
+		if (f && 0 != ::fclose(f))
+		{
+			int err = (errno) ? -errno : UV_EIO;
+			MGCHECK(err);
+		}
 	}
 
 	virtual ~sync_file_bitstream()
 	{
-		close();
+		if(_f)
+			::fclose(_f);
 	}
 
 	virtual uint64_t size()
-- 
2.43.0


From ff1a81663255a187ddaa403c4a943c1aa0ef13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 034/175] fix: base64 decoding read past its table

---
 src/b64/src/cdecode.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..ef3ebeb 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -33,9 +33,9 @@ int base64_decode_value(char value_in)
 {
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
-	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
-	return decoding[(int)value_in];
+	int value = static_cast<int>(value_in) - 43;
+	if (value < 0 || value >= decoding_size) return -1;
+	return decoding[value];
 }
 
 void base64_init_decodestate(base64_decodestate* state_in)
-- 
2.43.0


From 49d6ab512688c1c89fd40659fefbd1a47ec4217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 035/175] fix: Ctime mixed the calendar year and month with
 those of struct tm

---
 src/mg/core/nx/ctime.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 7409248..530626f 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -28,8 +28,8 @@ __ALX_BEGIN_NAMESPACE
 
 inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 {
-	sm.wYear = origin.tm_year;
-	sm.wMonth = origin.tm_mon;
+	sm.wYear = origin.tm_year + 1900;
+	sm.wMonth = origin.tm_mon + 1;
 	sm.wDayOfWeek = origin.tm_wday;
 	sm.wDay = origin.tm_mday;
 	sm.wHour = origin.tm_hour;
@@ -42,8 +42,8 @@ inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 
 inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 {
-	tms.tm_year = origin.wYear;
-	tms.tm_mon = origin.wMonth;
+	tms.tm_year = origin.wYear - 1900;
+	tms.tm_mon = origin.wMonth - 1;
 	tms.tm_wday = origin.wDayOfWeek;
 	tms.tm_mday = origin.wDay;
 	tms.tm_hour = origin.wHour;
-- 
2.43.0


From 165c7ea1d976574b4c48b8c805c121ec36a20a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 036/175] fix: Ctime wrote outside of its fields when reading a
 date and left members uninitialised

---
 src/mg/core/nx/ctime.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 530626f..c7ebbde 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -62,7 +62,7 @@ inline uint64_t total_hnano(const SYSTEMTIME & systime)
 {
 	if(UINT64_MAX == systime.total_hnano)
 	{
-		return total_seconds(systime) * 10000000ULL;
+		return total_seconds(systime) * 10000000ULL + systime.wMilliseconds * 10000ULL;
 	}
 	else
 	{
@@ -133,6 +133,9 @@ Ctime::Ctime(uint16_t wYear
 	, uint16_t wMonth
 	, uint16_t wDay)
 {
+	_local = true;
+	_offset = 0;
+
 	_systime.wYear = wYear;
 	_systime.wMonth = wMonth;
 	_systime.wDay = wDay;
@@ -151,19 +154,32 @@ Ctime::Ctime(const TCHAR * str_time
 	, const TCHAR * str_format)
 {
 
+	//the format is for int
+	int v[7] = { 0 };
+
 	//_stscanf(str_time
 	//TODO: _stscanf_s
 	sscanf(str_time
 		, str_format
-		, &_systime.wYear
-		, &_systime.wMonth
-		, &_systime.wDay
-		, &_systime.wHour
-		, &_systime.wMinute
-		, &_systime.wSecond
-		, &_systime.wMilliseconds
+		, &v[0]
+		, &v[1]
+		, &v[2]
+		, &v[3]
+		, &v[4]
+		, &v[5]
+		, &v[6]
 	);
 
+	_systime.wYear = static_cast<uint16_t>(v[0]);
+	_systime.wMonth = static_cast<uint16_t>(v[1]);
+	_systime.wDay = static_cast<uint16_t>(v[2]);
+	_systime.wDayOfWeek = 0;
+	_systime.wHour = static_cast<uint16_t>(v[3]);
+	_systime.wMinute = static_cast<uint16_t>(v[4]);
+	_systime.wSecond = static_cast<uint16_t>(v[5]);
+	_systime.wMilliseconds = static_cast<uint16_t>(v[6]);
+	_systime.total_hnano = UINT64_MAX;
+
 	_local = local;
 	_offset = 0;
 
@@ -197,7 +213,7 @@ int64_t Ctime::TotalHNano() const
 	{
 		tm tms;
 		sm_to_tm(_systime, tms);
-		return mktime(&tms) * 10000000ULL;
+		return mktime(&tms) * 10000000ULL + _systime.wMilliseconds * 10000ULL;
 	}
 	else
 	{
-- 
2.43.0


From a255b1f045636f25ccba942c7c783777e24fdc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 037/175] fix: Ctime differences and offsets which are negative
 were computed as unsigned

---
 src/mg/core/nx/ctime.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index c7ebbde..b16df5d 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -196,7 +196,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   && UINT64_MAX != _systime.total_hnano)
 		   )
 		   {
-		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000UL;
+		   	return static_cast<int64_t>(total_hnano(_systime) - total_hnano((*psysBase))) / 10000L;
 		   }
 		   else
 		   {
@@ -377,7 +377,7 @@ Cstring Ctime::ToXml() const
 	tmp += _T(".");
 	tmp += get_MillisecondsString();
 
-	uint64_t offset = GetUTCOffset() / 60;
+	int64_t offset = GetUTCOffset();
 
 	if (!_local)
 		offset = 0;
@@ -393,12 +393,17 @@ Cstring Ctime::ToXml() const
 		}
 
 
-		if (offset < 10)
+		if (offset / 60 < 10)
 			tmp += _T("0");
 
-		tmp += offset;
+		tmp += offset / 60;
 
-		tmp += _T(":00");
+		tmp += _T(":");
+
+		if (offset % 60 < 10)
+			tmp += _T("0");
+
+		tmp += offset % 60;
 	}
 	else
 	{
-- 
2.43.0


From bfc01070d651a4851a12628b44c3d53c9f98095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 038/175] fix: H264Nal dropped the last byte of a unit when it
 was 3

---
 src/mg/media/h264nal.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/media/h264nal.h b/src/mg/media/h264nal.h
index ef38584..6369033 100644
--- a/src/mg/media/h264nal.h
+++ b/src/mg/media/h264nal.h
@@ -76,9 +76,6 @@ protected:
 		{
 			_ASSERTE((idx + 1) >= NumBytesInRBSP);
 
-			if(idx + 1 == NumBytesInNALunit && 0x03 == bit_stream.nextbits(8))
-				break;
-			
 			if( (idx + 2) < NumBytesInNALunit  && 0x000003 == bit_stream.nextbits(24))
 			{
 				p_nal[NumBytesInRBSP++] = 0x00;
-- 
2.43.0


From 0de53203bbcae4ef4c855d3fc2f5d4c5b0fa9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 039/175] fix: create_directory failed for a directory which
 exists

---
 src/mg/core/nx/util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/nx/util.cpp b/src/mg/core/nx/util.cpp
index 81d9934..f33a66c 100644
--- a/src/mg/core/nx/util.cpp
+++ b/src/mg/core/nx/util.cpp
@@ -21,6 +21,7 @@
  *****************************************************************************/
 #include "../../exception.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
@@ -55,8 +56,11 @@ void delete_file(const TCHAR* pszname)
 void create_directory(const TCHAR* pszname)
 {
     int r = mkdir(pszname , S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-    if(EEXIST != r)
+    if(0 > r && EEXIST != errno)
+    {
+        r = -errno;
         MGCHECK(r);
+    }
 }
 
 __MGCORE_END_NAMESPACE
-- 
2.43.0


From cdfd4f807f37d06627d95f0460d30e9fd5c6fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 040/175] fix: Ctime lost the milliseconds of dates before 1970

---
 src/mg/core/nx/ctime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index b16df5d..f7f73f7 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -342,6 +342,9 @@ Cstring Ctime::get_MillisecondsString() const
 		 mx %= 10000000ull; //find hnano
 		 mx /= 10000ull;    //transform to milly
 
+	if(UINT64_MAX == _systime.total_hnano)
+		mx = _systime.wMilliseconds;
+
 	if (mx < 100)
 		t += _T("0");
 	if (mx < 10)
-- 
2.43.0


From c17590673a1cd17aa3be5e398339d9125040019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 041/175] fix: Ctime took the fields and the total of now from
 two readings of the clock

---
 src/mg/core/nx/ctime.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index f7f73f7..cec3ea8 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -95,13 +95,14 @@ void  Ctime::ResetToNow(bool local)
 	_local = local;
 	_offset = 0;
 	
-	time_t tt = time(NULL);
-
 	timespec ts;
 
 	int r = clock_gettime(CLOCK_REALTIME, &ts);
 	MGCHECK(r);
 
+	//read the clock once: time() can be a tick behind
+	const time_t tt = ts.tv_sec;
+
 	_systime.total_hnano = ts.tv_sec * 10000000ull + ts.tv_nsec / 100ull;
 
 	tm stm;
-- 
2.43.0


From fe05525a7c9baf6d240bba62b130d7e20e71c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 042/175] fix: AVCDecoderConfigurationRecord overran its arrays
 when a parameter set is longer than 256 bytes

---
 src/mg/media/mp4/mp4.fl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index b5b39fa..01bd156 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -590,6 +590,7 @@ public:
 	for (__idx=0; __idx < numOfSequenceParameterSets; __idx++) 
 	{
 	    unsigned int(16) sequenceParameterSetLength[[__idx]] ;
+	    %g{if(sequenceParameterSetLength[__idx] > sizeof(sequenceParameterSetNALUnit)){throw InvalidInput(__FILE__, __LINE__);}%g}
 	    
 	    for(__idy = 0; __idy < sequenceParameterSetLength[__idx]; __idy++)
 			unsigned char(8) sequenceParameterSetNALUnit[[__idy]];
@@ -601,6 +602,7 @@ public:
     for (__idx=0; __idx< numOfPictureParameterSets; __idx++) 
     {
        unsigned int(16) pictureParameterSetLength[[__idx]];
+       %g{if(pictureParameterSetLength[__idx] > sizeof(pictureParameterSetNALUnit)){throw InvalidInput(__FILE__, __LINE__);}%g}
        
        for(__idy = 0; __idy < pictureParameterSetLength[__idx]; __idy++)
        		unsigned char(8) pictureParameterSetNALUnit[[__idy]];
-- 
2.43.0


From 6e072862e62fd4649d3dcad0f50eb90c0b28cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 043/175] fix: CAVCCHeader destroyed pictures it does not have
 when the counts of SPS and PPS differ

---
 src/mg/media/mp4parse.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 4844c4c..a2c9b62 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1577,13 +1577,11 @@ protected:
 public:
 	virtual ~CAVCCHeader()
 	{
-		_ASSERTE(_sequences.size() == _pictures.size());
-
 		for(unsigned int i = 0; i < _sequences.size(); ++i)
-		{
-			delete _pictures[i];
 			delete _sequences[i];
-		}
+
+		for(unsigned int i = 0; i < _pictures.size(); ++i)
+			delete _pictures[i];
 
 		_pictures.clear();
 		_sequences.clear();
-- 
2.43.0


From c3498f22e467a07b27768b15ded8f2a65704ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 044/175] fix: DynamicBitrate was destroyed through a base
 without a virtual destructor

---
 src/mg/media/mp4dynamicinfo.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index bce998b..27078d5 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -137,6 +137,9 @@ public:
 
 	DynamicBitrate()
 	{}
+
+	virtual ~DynamicBitrate()
+	{}
 };
 
 
-- 
2.43.0


From 0fb75d2def650b487aaedcdf6c8e2c8c782acac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 045/175] fix: publish_no_random_stream never ended when the
 stream starts before the video

---
 src/mg/media/mp4dynamic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index d8720ba..6366922 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -330,8 +330,10 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	composition += off;
 
-	while(composition < start)
+	while(composition < start && p + 1 < reader.get_sample_count(stream))
 	{
+		p++;
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
-- 
2.43.0


From faf7d010cc87a0f3aa4e8914347a6f667c618f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 046/175] fix: mediaPresentationDuration lost digits of the
 fraction of a second

---
 src/mg/media/mpd_renderer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 95cb3ac..ecadefe 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -67,7 +67,8 @@ public:
 	
 	virtual void begin(uint64_t duration)
 	{	
-		uint64_t TNANO = duration % 1000000UL;
+		Cstring TNANO;
+		TNANO += (10000000UL + duration % 10000000UL);
 	
 		_xml += _T("<MPD xmlns=\"urn:mpeg:dash:schema:mpd:2011\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" ");
 		_xml += _T("profiles=\"urn:mpeg:dash:profile:isoff-live:2011\" type=\"static\" ");
@@ -80,7 +81,7 @@ public:
         _xml += _T("mediaPresentationDuration=\"PT");
 		_xml += duration / 10000000UL;
 		_xml += _T(".");
-		_xml += TNANO;
+		_xml += static_cast<const TCHAR*>(TNANO) + 1; //without the leading 1 which keeps the zeros
 		_xml += _T("S\" minBufferTime=\"PT3S\">\r\n");
 
 		_xml += _T("\t<Period>\r\n");
-- 
2.43.0


From afceb190564f1a1a4d5de47f3fbebba4c47f57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 047/175] fix: the MPD gave wrong constraint flags in the
 codecs attribute and the size of another stream

---
 src/mg/media/mpd_renderer.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index ecadefe..27bfdc6 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -97,6 +97,8 @@ public:
 
 		_current_stream = psz_name;
 		_stype = stype;
+		_maxWidth = 0;
+		_maxHeight = 0;
 		_current_stream_time = 0;
 		_last_stream_duration = 0;
 	    _last_stream_count = 0;
@@ -144,13 +146,6 @@ public:
 		codecs.append_hex_buffer(codec_private_data + 3, 1);
 
 		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
-
 		codecs.append_hex_buffer(&profile_compatibility, 1);
 
 		codecs.append_hex_buffer(codec_private_data + 5, 1);
-- 
2.43.0


From 660ca0fa2448a94144d3d5b2455017c565c91a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 048/175] fix: write_stts described two samples for a stream
 with one

---
 src/mg/media/mp4write.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 3acccdd..4652497 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -477,7 +477,8 @@ protected:
 
 		if(_samples.size() || !_allow_empty_stream)
 		{
-			current_count++;
+			if(1 != _samples.size())
+				current_count++;
 
 			mp4w.write_uint(static_cast<uint32_t>(current_count));
 			mp4w.write_uint(sample_delta);
-- 
2.43.0


From 475ff4f49f9fa85e133cb65679786f10bc4db930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 049/175] fix: write_stsz lost the size of the samples when it
 is the same for all

---
 src/mg/media/mp4write.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 4652497..08978c2 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -667,10 +667,10 @@ protected:
 		mp4w.open_box(box_stsz);
 		mp4w.write_box(stsz);
 
-		//if(_has_size)
-			mp4w.write_uint(0x00);	
-		//else
-		//	mp4w.write_uint(_samples[0].size);
+		if(!_has_size && 0 < _samples.size())
+			sample_size = static_cast<uint32_t>(_samples[0].size);
+
+		mp4w.write_uint(sample_size);
 
 		mp4w.write_uint(ST_U32(_samples.size()));
 
-- 
2.43.0


From 4c2e58761081ac4dba3d387328a7c4d53c6bf97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 050/175] fix: profile_compatibility of avcC was built with
 logical or

---
 src/mg/media/mp4write.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 08978c2..421a9f8 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1840,10 +1840,10 @@ public:
 		                               avcc.AVCProfileIndication  = sequence.profile_idc;
 									   avcc.profile_compatibility = 
 											  sequence.constraint_set0_flag << 7 
-										   || sequence.constraint_set1_flag << 6
-										   || sequence.constraint_set2_flag << 5
-										   || sequence.constraint_set3_flag << 4
-										   || sequence.reserved_zero_bits;
+										   | sequence.constraint_set1_flag << 6
+										   | sequence.constraint_set2_flag << 5
+										   | sequence.constraint_set3_flag << 4
+										   | sequence.reserved_zero_bits;
 									   avcc.AVCLevelIndication = sequence.level_idc;
 									   avcc.lengthSizeMinusOne = 3;
 
-- 
2.43.0


From dab1dd27388dfcc7836d30730a8ff5c22468b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 051/175] fix: the picture size taken from the SPS ignored
 cropping and field coding

---
 src/mg/media/mp4write.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 421a9f8..c821018 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1856,7 +1856,19 @@ public:
 
 
 		 width_i  = (16 * (sequence.pic_width_in_mbs_minus1 + 1));
-    	 height_i = (16 * (sequence.pic_height_in_map_units_minus1 + 1));
+    	 height_i = (16 * (sequence.pic_height_in_map_units_minus1 + 1)) * (2 - sequence.frame_mbs_only_flag);
+
+		 if(sequence.frame_cropping_flag)
+		 {
+			 //profiles without chroma_format_idc are always 4:2:0
+			 bool high = (100 <= sequence.profile_idc);
+			 bool sub_width  = !high || 1 == sequence.chroma_format_idc || 2 == sequence.chroma_format_idc;
+			 bool sub_height = !high || 1 == sequence.chroma_format_idc;
+
+			 width_i  -= (sequence.frame_crop_left_offset + sequence.frame_crop_right_offset) * (sub_width?2:1);
+			 height_i -= (sequence.frame_crop_top_offset + sequence.frame_crop_bottom_offset) 
+						 * (sub_height?2:1) * (2 - sequence.frame_mbs_only_flag);
+		 }
 
 		 avcc.put(var_bs);
 
-- 
2.43.0


From 8c02640202491020d6c40f236cd56c119880f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 052/175] fix: the end of a stream could miss its last sample,
 which was then left out of the last fragment

---
 src/mg/media/mp4dynamic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 902f192..6b97bbc 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -199,7 +199,7 @@ protected:
 		, uint64_t total_stream_samples) const 
 	{
 		std::map<int, uint64_t> & stream_composition_end = *(const_cast<std::map<int, uint64_t> *>(&_stream_composition_end));
-		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time))
+		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time) + ms.duration)
 		{
 			stream_composition_end[ms.stream] = ms.composition_time + ms.duration;
 		}
-- 
2.43.0


From 804b0bd4ceb78479c6c37a4f95bc4476e925019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 053/175] fix: the duration of a sample at time zero was not
 counted in the end of its stream

---
 src/mg/media/mp4dynamic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 6b97bbc..d93aee1 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -107,7 +107,7 @@ public:
 		)
 	{
 		
-		if(_stream_end[stream_id] < composition_time)
+		if(_stream_end[stream_id] <= composition_time)
 		{
 			_stream_end[stream_id] = composition_time;
 			_stream_end_duration[stream_id] = duration;
-- 
2.43.0


From c72acda7beee9473699a03a8eec6d196bf903ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 054/175] fix: the duration of the presentation was that of its
 first stream, not of the longest

---
 src/mg/media/mp4dynamicinfo.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 27078d5..1f82433 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -938,7 +938,15 @@ public:
 	}
 	void render(IDynamicRenderer * renderer)
 	{
-		renderer->begin(get_by_index(0)->duration());
+		uint64_t duration = 0;
+
+		for(std::map<Cstring, DynamicStream *>::iterator it = _streams.begin(); it != _streams.end(); it++ ) 
+		{
+			if(duration < it->second->duration())
+				duration = it->second->duration();
+		}
+
+		renderer->begin(duration);
 		
 		std::map<Cstring, DynamicStream *>::iterator iter;   
 		for( iter = _streams.begin(); iter != _streams.end(); iter++ ) 
-- 
2.43.0


From 6acb59b193445a715adfb17bbcf5c4cdce9c0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 055/175] fix: the last fragment was shortened by the
 composition offset of its stream

---
 src/mg/media/mp4dynamic.cpp   | 2 +-
 src/mg/media/mp4dynamicinfo.h | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 6366922..4c2fa64 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -27,7 +27,7 @@ CMP4Dynamic::CMP4Dynamic(void)
 	_info.file_count = 0;
 
 	for(int i = 0; i < MAX_STREAM; i++)
-		_stream_start_offset[0];
+		_stream_start_offset[i] = 0;
 }
 
 CMP4Dynamic::~CMP4Dynamic(void)
diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 1f82433..3ffea4c 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -1203,6 +1203,7 @@ public:
 		{		
 			_presentation.get_by_index(i)->AddPoint(
 					  get_stream_end(i)
+						+ this->_stream_start_offset[i]
 					, /*INT64_MAX //this is a closing point. it should never be used.
 						     //it's just there to allow computing the duration of
 						     //the real last one
-- 
2.43.0


From b002d00ef439e349d671623a7ea655680b8f85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 056/175] fix: the end of a stream which is delayed was
 computed without its delay, its last samples were left out

---
 src/mg/media/mp4dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index d93aee1..3df1f08 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -199,9 +199,9 @@ protected:
 		, uint64_t total_stream_samples) const 
 	{
 		std::map<int, uint64_t> & stream_composition_end = *(const_cast<std::map<int, uint64_t> *>(&_stream_composition_end));
-		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time) + ms.duration)
+		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time) + stream_offset + ms.duration)
 		{
-			stream_composition_end[ms.stream] = ms.composition_time + ms.duration;
+			stream_composition_end[ms.stream] = ms.composition_time + stream_offset + ms.duration;
 		}
 	}
 
-- 
2.43.0


From eae369b036802ff040e884f67e5eb6ff7178d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 057/175] fix: a file which ends within the look ahead of the
 editor was refused

---
 src/mg/media/mp4edit.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 367f938..073d42b 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -313,7 +313,24 @@ void CMP4EditBase::do_edit_mux(
 		{
 			
 			if(!reader.next_file_chunks(ms))
-				ALXTHROW_T(_T("cannot check first sample info."));
+			{
+				//the file can end before the look ahead is over
+				for(size_t i = 0; i < reader.stream_count(); i++)
+				{
+					if(!reader.IsValidStream(i) || i == reader.LTCStream())
+						continue;
+
+					if(info.map[i].video)
+						ps = &info.video_info[info.map[i].internal_index];
+					else
+						ps = &info.audio_info[info.map[i].internal_index];
+
+					if(ps->next_composition == INT64_MAX)
+						ALXTHROW_T(_T("cannot check first sample info."));
+				}
+
+				break;
+			}
 
             if ((ms.composition_time + static_cast<int64_t>(reader.get_stream_offset(ms.stream))) < start && discard_pre_start) //<-- loose gop position
             {
-- 
2.43.0


From b0e7ccd04f6431af2fcc999c371a12a43924ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 058/175] fix: the initialisation vector generator wrote past
 its buffer where a long has 64 bits

---
 src/mg/media/mp4fragmented.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index a94954e..8478939 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -108,17 +108,18 @@ class CMP4Fragment
 #define CLEARINITSIZE 96
 
 	void fillrand(unsigned char *buf, const int len)
-	{   static unsigned long a[2], mt = 1, count = 4;
+	{   static uint32_t a[2], mt = 1, count = 4;
 		static unsigned char r[4];
 		int                  i;
 
-		if(mt) { mt = 0; *(unsigned long long*)a = read_tsc(); }
+		if(mt) { mt = 0; uint64_t tsc = read_tsc(); ::memcpy(a, &tsc, sizeof(a)); }
 
 		for(i = 0; i < len; ++i)
 		{
 			if(count == 4)
 			{
-				*(unsigned long*)r = RAND(a[0], a[1]);
+				uint32_t v = RAND(a[0], a[1]);
+				::memcpy(r, &v, sizeof(r));
 				count = 0;
 			}
 
-- 
2.43.0


From ad46afc61ce597430c044e12f4dedf4227a821a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 059/175] fix: the PlayReady header announced twice its size
 where wchar_t has four bytes

---
 src/mgcli/cenc_provider.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/cenc_provider.h b/src/mgcli/cenc_provider.h
index 5ac1523..deae96a 100644
--- a/src/mgcli/cenc_provider.h
+++ b/src/mgcli/cenc_provider.h
@@ -241,7 +241,7 @@ public:
 		_wmheader += _url;
 		_wmheader += _T("</LA_URL><CUSTOMATTRIBUTES><IIS_DRM_VERSION>7.1.1565.4</IIS_DRM_VERSION></CUSTOMATTRIBUTES></DATA></WRMHEADER>");
 				
-		uint32_t  size = 10 + (sizeof(wchar_t) *_wmheader.size());
+		uint32_t  size = 10 + (2 *_wmheader.size()); //the header is written as utf-16
 
 		/*
 		_body.prepare(size);
@@ -270,7 +270,7 @@ public:
 		_body.little_putbits(1, 16);
 
 		_body.little_putbits(1, 16);
-		_body.little_putbits((sizeof(wchar_t) * _wmheader.size()), 16);
+		_body.little_putbits((2 * _wmheader.size()), 16);
 
 		const wchar_t* pchar = _wmheader;
 
-- 
2.43.0


From 3e9a5e148e142ac8786e265d37f7249d176cecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 060/175] fix: the key and its id in json.key were padded

---
 src/mgcli/cenc_provider.h | 9 ++++++++-
 src/mgcli/stdafx.h        | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/cenc_provider.h b/src/mgcli/cenc_provider.h
index deae96a..e9ae142 100644
--- a/src/mgcli/cenc_provider.h
+++ b/src/mgcli/cenc_provider.h
@@ -163,7 +163,14 @@ public:
 
 		str64.CommitBuffer(written);
 
-		written = base64_encode_blockend(str64.GetBuffer(4, false), &state_in);
+		char end[4];
+
+		written = base64_encode_blockend(end, &state_in);
+
+		if(0 < written && (flags & ATL_BASE64_FLAG_NOPAD))
+			written = 1; //only the first character is not padding
+
+		::memcpy(str64.GetBuffer(4, false), end, written);
 
 		str64.CommitBuffer(written);
 #else
diff --git a/src/mgcli/stdafx.h b/src/mgcli/stdafx.h
index 1508e05..d4a95a2 100644
--- a/src/mgcli/stdafx.h
+++ b/src/mgcli/stdafx.h
@@ -62,6 +62,6 @@ typedef struct _WMT_TIMECODE_EXTENSION_DATA
 
 #endif
 
-#define ATL_BASE64_FLAG_NOPAD  0
+#define ATL_BASE64_FLAG_NOPAD  1
 #define ATL_BASE64_FLAG_NOCRLF 0
 
-- 
2.43.0


From b24521f631527b5958fc51b540f7a79809f024d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 061/175] fix: the fraction of EXTINF lost its leading zeros
 and a digit

---
 src/mg/media/hls_renderer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 4ff95ed..ca02d7c 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -203,11 +203,15 @@ public:
 
 		//duration = duration / 10UL;
 
-		uint64_t TNANO = duration % 1000000UL;
+		uint64_t TNANO = duration % 10000000UL;
 
 		_body += _T("#EXTINF:");
 		_body += duration / 10000000UL;
 		_body += _T(".");
+
+		for(uint64_t digit = 1000000UL; digit > 1 && TNANO < digit; digit /= 10)
+			_body += _T("0");
+
 		_body += TNANO;
 		_body += _T(",no-desc\r\n");
 		_body += _prefix;
-- 
2.43.0


From f6374e6d72b89fd4f65c4f193edc7a205ae9737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 062/175] fix: the CODECS attribute of the master playlist lost
 the profile compatibility byte

---
 src/mg/media/hls_renderer.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index ca02d7c..25e7eb3 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -123,12 +123,6 @@ public:
 		_video_codec.append_hex_buffer(codec_private_data + 3, 1);
 
 		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
 
 	    _video_codec.append_hex_buffer(&profile_compatibility, 1);
 
-- 
2.43.0


From 4a3579b93895fd1ba14473818de8615cd15a2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 063/175] fix: the target duration of a playlist was the one of
 the first segment, rounded down

---
 src/mg/media/hls_renderer.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 25e7eb3..80629bc 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -53,6 +53,8 @@ class HLSRenderer: public IDynamicRenderer
 	 bool _begin_stream;
 	 bool _video_points;
 
+	 uint64_t _target_duration;
+
 	 int _audio_bit_rate;
 
 	 Cstring _prefix;
@@ -73,6 +75,7 @@ public:
 		, _body(10240)
 		, _begin_stream(false)
 		, _video_points(false)
+		, _target_duration(0)
 		, _prefix(_T("video"))
 		, _use_stream_name(true)
 		, _encrypted(false)
@@ -182,7 +185,7 @@ public:
 			_body += _T("#EXT-X-ALLOW-CACHE:NO\r\n");
 			_body += _T("#EXT-X-MEDIA-SEQUENCE:0\r\n");
 			_body += _T("#EXT-X-TARGETDURATION:");
-			_body += duration / 10000000UL;
+			_body += _T("$(TARGETDURATION)");
 			_body += "\r\n";
 			_body += _T("#EXT-X-PROGRAM-DATE-TIME:1970-01-01T00:00:00Z\r\n");
 
@@ -197,6 +200,12 @@ public:
 
 		//duration = duration / 10UL;
 
+		//must not be less than any segment duration rounded to the nearest integer
+		uint64_t rounded = (duration + 5000000UL) / 10000000UL;
+
+		if(_target_duration < rounded)
+			_target_duration = rounded;
+
 		uint64_t TNANO = duration % 10000000UL;
 
 		_body += _T("#EXTINF:");
@@ -254,6 +263,11 @@ public:
 	{
 		Cstring body = _body.clone();
 
+		Cstring target;
+		        target += (_target_duration)?_target_duration:1;
+
+		body = replace(body, target, _T("$(TARGETDURATION)"));
+
 		return replace(body, bit_rate, _T("$(BITRATE)"));
 
 	}
-- 
2.43.0


From 993eb24d604a581c830cead288cb741bf1e3fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 064/175] fix: a playlist had no end when the last stream was
 not the video

---
 src/mg/media/hls_renderer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 80629bc..f1789f5 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -52,6 +52,7 @@ class HLSRenderer: public IDynamicRenderer
 	 bool _has_audio;
 	 bool _begin_stream;
 	 bool _video_points;
+	 bool _has_points;
 
 	 uint64_t _target_duration;
 
@@ -75,6 +76,7 @@ public:
 		, _body(10240)
 		, _begin_stream(false)
 		, _video_points(false)
+		, _has_points(false)
 		, _target_duration(0)
 		, _prefix(_T("video"))
 		, _use_stream_name(true)
@@ -179,6 +181,7 @@ public:
 		if(_begin_stream && 0 <= computed_time )
 		{
 			_begin_stream = false;
+			_has_points   = true;
 			
 			_body += _T("#EXTM3U\r\n");
 			_body += _T("#EXT-X-VERSION:3\r\n");
@@ -243,7 +246,7 @@ public:
 	}
 	virtual void end()
 	{
-		if(!_video_points)
+		if(!_has_points)
 			return;
 
 		_body += _T("#EXT-X-ENDLIST\r\n");
-- 
2.43.0


From 4685e41c1f7af0fff83f2bdbb5594b86a1b533fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 065/175] fix: the initialisation vector of an encrypted
 segment was not its sequence number

---
 src/mg/media/tsinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index c22ada0..43ad3fa 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -983,7 +983,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 					{
 
 						track_id++;
-						unsigned char sequence(0);
+						int sequence(0);
 
 						//*****Initialization Segment//
 
@@ -1134,7 +1134,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 
 								if(encrypted)
 								{
-											hls_encrypt(out_chunk_file, (sequence), pKey);
+											hls_encrypt(out_chunk_file, sequence - 1, pKey);
 								}
 
 
-- 
2.43.0


From 64be7848f8f86ab27bc6ec6c0757b397a4cc639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 066/175] fix: the stuffing bytes of the adaptation field were
 not 0xFF

---
 src/mg/media/mp4/mpeg2ts.fl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 1fca2e5..2e3a6bf 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -988,7 +988,7 @@ class Adaptation_Field
             %g}
             %p{
                for(unsigned int dx = 0; dx < (adaptation_field_length - (total_bits/8)); dx++)
-                    var_bs.putbits(0x0, 8);
+                    var_bs.putbits(0xFF, 8);
             %p}
         }
 			
-- 
2.43.0


From 01fe182785beb894401422b38a436b72f4f9a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 067/175] fix: the extension and the private data were
 miscounted in the adaptation field length

---
 src/mg/media/mp4/mpeg2ts.fl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 2e3a6bf..e11952b 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -952,7 +952,7 @@ class Adaptation_Field
 				unsigned char(8) private_data_byte[[i]];
 			}
 
-			total_bits += transport_private_data_length * 8;
+			total_bits += 8 + transport_private_data_length * 8;
 		}
 		if (adaptation_field_extension_flag == 1 ) 
 		{
@@ -962,7 +962,7 @@ class Adaptation_Field
 			//	reserved
 			//}
 
-			total_bits += adaptation_field_extension_length/8;
+			total_bits += 8 + adaptation_field_extension_length * 8;
 
             %g{
                     var_bs.skipbits(adaptation_field_extension_length * 8);
-- 
2.43.0


From c036d8caea008d258ced915f204503680e146e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 068/175] fix: a random access packet one byte short lost its
 flags and its PCR

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 7d9c5d5..de1763f 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -474,7 +474,7 @@ public:
 
 			first_adaptation = true;
 
-			if(1 == diff)
+			if(1 == diff && !random_access_indicator)
 			{
 				af.adaptation_field_length = 0;
 				
-- 
2.43.0


From 4e02034649497a2df52be68ce7b11111435c12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 069/175] fix: PES_packet_length wrapped when only the header
 made the packet too long

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index de1763f..917ec27 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -159,7 +159,7 @@ protected:
 		pes.PES_packet_length += pes.PES_header_data_length;
 		pes.PES_packet_length += body_size;
 
-		if(!body_size || MAX_PES_SIZE <= body_size)
+		if(!body_size || MAX_PES_SIZE < body_size + 3 + pes.PES_header_data_length)
 			pes.PES_packet_length = 0; //no length packet
 
 	}
-- 
2.43.0


From 6383f27e01a8bef7bd36e8ea5026fd7c87d12371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 070/175] fix: a time in 100 ns units was turned into the tick
 before the one it came from

---
 src/mg/media/mp4parse.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index a2c9b62..4cc3dfa 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2315,10 +2315,16 @@ public:
 		return (1000UL * 10000UL * duration) / _mdhd.get_timescale() ;
 
 	}
+	//the last tick whose time, rounded down as above, is not after time
+	uint64_t hns_to_ticks(const uint64_t time) const
+	{
+		return ((time + 1) * _mdhd.get_timescale() - 1) / (1000UL * 10000UL);
+	}
+
 	uint64_t get_IFrame_number(uint64_t time)
 	{	  
 
-		 uint64_t composition_time = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		 uint64_t composition_time = hns_to_ticks(time);
 
 		 return _time_manager.get_IFrame_number(composition_time);
 	}
@@ -2334,13 +2340,13 @@ public:
 
 	uint64_t get_decoding_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime = hns_to_ticks(time);
 		return _time_manager.get_decoding_sample_number(dtime);
 	}
 
 	uint64_t get_composition_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime  = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime  = hns_to_ticks(time);
 		//uint64_t sample = _time_manager.get_decoding_sample_number(dtime);
 		uint64_t sample = _time_manager.get_composition_sample_number(dtime);
 
-- 
2.43.0


From 019b30c8cb0cdd764f12a6b40e542f1a0ca08095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 071/175] fix: the time of an HLS segment depended on which
 stream has its first sample in the file

---
 src/mg/media/tsmux.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index b55c626..3283cd7 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -732,6 +732,14 @@ public:
 		
 	}
 
+	//the composition time of the sample which should go at the start time
+	void set_start_composition(uint64_t composition_time)
+	{
+		HLSSTREAM & s = _composition_start_time[0];
+
+		s.computed_offset = s.base_time - composition_time;
+	}
+
 	void set_composition_start_time(int stream_id, uint64_t composition_time)
 	{
 		int t_stream_id = stream_id;
@@ -760,17 +768,35 @@ public:
 class MP42HLS: public CMP4Edit_
 {
 	HLSMux  _mp4mux;
+
+	uint64_t _start;
 	
 
 protected:
 	
 	virtual IMP4Mux2 & get_mux(){ return _mp4mux; }
 	virtual void set_ctts_offset_(bool rhs){}
+
+	//every stream has the same distance from its original time
+	//do not rely on which stream has the first sample
+	virtual void info_composition_info2(const int stream_id, stream_edit_info * ps
+		, uint64_t composition, uint64_t decoding)
+	{
+		_mp4mux.set_start_composition(_start - ps->next_composition + ps->stream_composition);
+	}
 public:
-	MP42HLS()
+	MP42HLS():_start(0)
 	{
 		 set_discard_pre_start(true);
 	}
+
+	void Add(const TCHAR * pszfile, uint64_t start, uint64_t end)
+	{
+		_start = start;
+
+		CMP4Edit_::Add(pszfile, start, end);
+	}
+
 	void set_composition_start_time(int stream_id, uint64_t composition_time)
 	{
 		_mp4mux.set_composition_start_time(stream_id, composition_time);
-- 
2.43.0


From 54c0c1c20e4376993ccc9c054b336513cda8e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 072/175] fix: the decoding time of a delayed stream was
 aligned without its delay

---
 src/mg/media/mp4edit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 073d42b..ea27e2b 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -350,7 +350,7 @@ void CMP4EditBase::do_edit_mux(
 			if(stream_offset)
 			{
 				ms.composition_time += stream_offset;
-				/*ms.decoding_time    += stream_offset*/;
+				ms.decoding_time    += stream_offset;
 			}
 			
 
@@ -448,7 +448,7 @@ void CMP4EditBase::do_edit_mux(
 						|| start > 0
 					);
 				_ASSERTE( 
-						(ps->next_decoding    == reader.get_decoding_start_time(i))
+						(ps->next_decoding    == (reader.get_decoding_start_time(i) + reader.get_stream_offset(i)))
 						|| start >0					
 					);
 
-- 
2.43.0


From 826836edd21b18605f17f84eb0151326cdecb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 073/175] fix: an HLS or edit segment starting after the end of
 another stream was refused

---
 src/mg/media/mp4edit.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index ea27e2b..b7cceaa 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -315,6 +315,26 @@ void CMP4EditBase::do_edit_mux(
 			if(!reader.next_file_chunks(ms))
 			{
 				//the file can end before the look ahead is over
+				//and a stream can end before the start of another one
+				int64_t latest = -1;
+
+				for(size_t i = 0; i < reader.stream_count(); i++)
+				{
+					if(!reader.IsValidStream(i) || i == reader.LTCStream())
+						continue;
+
+					if(info.map[i].video)
+						ps = &info.video_info[info.map[i].internal_index];
+					else
+						ps = &info.audio_info[info.map[i].internal_index];
+
+					if(ps->next_composition != INT64_MAX && ps->next_composition > latest)
+						latest = ps->next_composition;
+				}
+
+				if(0 > latest)
+					ALXTHROW_T(_T("cannot check first sample info."));
+
 				for(size_t i = 0; i < reader.stream_count(); i++)
 				{
 					if(!reader.IsValidStream(i) || i == reader.LTCStream())
@@ -326,7 +346,11 @@ void CMP4EditBase::do_edit_mux(
 						ps = &info.audio_info[info.map[i].internal_index];
 
 					if(ps->next_composition == INT64_MAX)
-						ALXTHROW_T(_T("cannot check first sample info."));
+					{
+						ps->next_composition = latest;
+						ps->next_duration    = 0;
+						ps->next_decoding    = latest;
+					}
 				}
 
 				break;
-- 
2.43.0


From 0d37e2a9be24ff977b5abf676f59ffe7f51ab70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 074/175] fix: the Smooth Streaming manifest counted the end of
 the stream as a chunk

---
 src/mg/media/mp4dynamicinfo.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 3ffea4c..4746fe5 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -662,7 +662,13 @@ public:
 		if(this->is_audio())
 			stype = stream_type::stream_audio;
 
-		renderer->begin_stream(name, _points.Count(), _bitrates.size(), stype);
+		//the last point is the end of the last chunk, it does not start one
+		int points = _points.Count();
+
+		if(0 < points)
+			points--;
+
+		renderer->begin_stream(name, points, _bitrates.size(), stype);
 		render_type(renderer);
 
 		CBuffer<DynamicBitrate*> dinamic_bitrates(_bitrates.size());
-- 
2.43.0


From 476f7490bbe6b6722c319fe1b6e2a8953e135d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 075/175] fix: a box with a 64 bit size was skipped eight bytes
 too far

---
 src/mg/media/mp4parse.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 4cc3dfa..aaa2aa1 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -246,6 +246,7 @@ class CMP4
 {
 	Box              _current_box;
 	uint64_t         _box_position;
+	uint64_t         _box_header;
 	unsigned int     _last_handler_type;
 	FullBox          _current_full_box;
 
@@ -551,7 +552,12 @@ public:
 
 		_box_position = get_position();
 		parse_box(_current_box);
-		
+
+		//8 bytes, or 16 with a 64 bits size: the size of a uuid box does not count its 16 bytes of type
+		_box_header = get_position() - _box_position;
+
+		if(box_uuid == _current_box.get_type())
+			_box_header -= 16;
 
 		//if(_box_position + _current_box.size < 
 
@@ -575,8 +581,8 @@ public:
 
 	void skip_current()
 	{
-		_ASSERTE(_current_box.get_size() > 8);
-		skipbytes(_current_box.get_size() - 8);
+		_ASSERTE(_current_box.get_size() >= _box_header);
+		skipbytes(_current_box.get_size() - _box_header);
 	}
 
 	const Box & get_box() const {return _current_box;}
-- 
2.43.0


From 5e3e28e147eedf2dfea071eaf68b2b6c419d8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 076/175] fix: files with 64 bit chunk offsets could not be
 read

---
 src/mg/media/mp4parse.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index aaa2aa1..ee711f9 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -826,9 +826,11 @@ public:
 
    void parse_stco(CMP4 &mp4)
    {
-	   _ASSERTE(box_stco == mp4.get_box().get_type());
+	   _ASSERTE(box_stco == mp4.get_box().get_type() || box_co64 == mp4.get_box().get_type());
 	   _ASSERTE(!_has_stco);
 
+	   const bool large = (box_co64 == mp4.get_box().get_type());
+
 	   mp4.do_full_box();
 
        _chunk_count = mp4.read_uint();
@@ -837,7 +839,12 @@ public:
 
 	   for(unsigned int i = 0; i < _chunk_count; i++)
 	   {
-	         _p_chunk_offset[i] = mp4.read_uint();
+	         uint64_t offset = mp4.read_uint();
+
+	         if(large)
+	            offset = (offset << 32) | mp4.read_uint();
+
+	         _p_chunk_offset[i] = offset;
 	   }
 
 	   _has_stco = true;
@@ -2134,6 +2141,7 @@ protected:
 			_time_manager.parse_stss(mp4);
 			break;
 		case box_stco:
+		case box_co64:
 			_sample_manager.parse_stco(mp4);
 			break;
 		case box_stsc:
-- 
2.43.0


From 601bbf59fb110b28f5121ec86e3367307c1a3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 077/175] fix: a media data box to the end of the file, or a
 box size too small, never ended the parsing

---
 src/mg/media/mp4/mp4.fl | 10 +++++++++-
 src/mg/media/mp4parse.h | 20 +++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index 01bd156..6566d1d 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -151,7 +151,8 @@ public:
          return reinterpret_cast<const TCHAR*>(_stype);
       }
       
-      uint64_t get_size() const
+      //zero is for a box which goes to the end of the file
+      uint64_t get_full_size() const
       {
          uint64_t s = size;
 
@@ -160,6 +161,13 @@ public:
             s = UI64(x, y);
          }
 
+         return s;
+      }
+
+      uint64_t get_size() const
+      {
+         uint64_t s = get_full_size();
+
 	  if(type == BOX_UUID)
 	  	s -= 16; 
          
diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index ee711f9..0011eab 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -556,6 +556,11 @@ public:
 		//8 bytes, or 16 with a 64 bits size: the size of a uuid box does not count its 16 bytes of type
 		_box_header = get_position() - _box_position;
 
+		const uint64_t size = _current_box.get_full_size();
+
+		if((0 != size && size < _box_header) || size > INT64_MAX - _box_position)
+			MP4ERROR(_T("invalid box size"));
+
 		if(box_uuid == _current_box.get_type())
 			_box_header -= 16;
 
@@ -581,6 +586,14 @@ public:
 
 	void skip_current()
 	{
+		if(is_last_box())
+		{
+			while(!eof())
+				skip(8);
+
+			return;
+		}
+
 		_ASSERTE(_current_box.get_size() >= _box_header);
 		skipbytes(_current_box.get_size() - _box_header);
 	}
@@ -588,6 +601,8 @@ public:
 	const Box & get_box() const {return _current_box;}
 	const FullBox & get_full_box() const {return _current_full_box;}
 	const uint64_t get_box_position() const {return _box_position;}
+	//a box without a size goes to the end of the file
+	bool is_last_box() const {return 0 == _current_box.get_full_size();}
 	const uint64_t get_box_position_end() const {return _box_position + _current_box.get_size();}
 
 	const unsigned int get_last_handler_type() const{ return _last_handler_type;}
@@ -2651,8 +2666,11 @@ private:
 			break;
 		case box_mdat:
 			_mdat_position = mp4.get_box_position();
-			_mdat_end = mp4.get_box_position() + mp4.get_box().get_size();
+			_mdat_end = mp4.is_last_box()?UINT64_MAX:(mp4.get_box_position() + mp4.get_box().get_size());
 		case box_free:
+			if(mp4.is_last_box())
+				return;
+
 			mp4.set_position(mp4.get_box_position() + mp4.get_box().get_size());
 			break;
 		case box_moov:
-- 
2.43.0


From 551c290a2194357b766df46deace2c8da754b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 078/175] fix: a file with many boxes overflowed the stack

---
 src/mg/media/mp4parse.h | 75 +++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 0011eab..2f6f27e 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1485,16 +1485,27 @@ protected:
 	virtual bool parse_header(CMP4& mp4) = 0;
 	virtual void parse_sample_description(CMP4& mp4) = 0;
 
-	virtual void not_sample_description_found(CMP4 &mp4)
+	//true if there is another box to look at
+	virtual bool not_sample_description_found(CMP4 &mp4)
 	{
 		if(mp4.get_position() >= (_minf_position + _minf_size))
 				MP4ERROR(_T("sample description not found"));
 
-		  mp4.do_box();
-		  parse_boxes(mp4);
+		mp4.do_box();
+
+		return true;
 	}
 	
 	void parse_boxes(CMP4 &mp4)
+	{
+		do
+		{
+			parse_current_box(mp4);
+
+		}while(!_has_sample_description && not_sample_description_found(mp4));
+	}
+
+	void parse_current_box(CMP4 &mp4)
 	{
 		switch(mp4.get_box().get_type())
 		{
@@ -1522,12 +1533,6 @@ protected:
 			mp4.skip_current();
 			break;
 		}
-
-		if(!_has_sample_description)
-		{
-			not_sample_description_found(mp4);
-		}
-	
 	}
 
 	
@@ -2007,17 +2012,17 @@ protected:
 		return true;
 	}
 
-	virtual void not_sample_description_found(CMP4 &mp4)
+	virtual bool not_sample_description_found(CMP4 &mp4)
 	{
 		if(mp4.get_position() >= (_minf_position + _minf_size))
 		{
 			_has_one = false;
-			return;
+			return false;
 		}
 
 		mp4.do_box();
-		parse_boxes(mp4);
-		
+
+		return true;
 	}
 
 	virtual void parse_sample_description(CMP4& mp4)
@@ -2052,10 +2057,11 @@ protected:
 		return true;
 	}
 
-	virtual void not_sample_description_found(CMP4 &mp4)
+	virtual bool not_sample_description_found(CMP4 &mp4)
 	{
 		mp4.skip_current();
-		
+
+		return false;
 	}
 
 	virtual void parse_sample_description(CMP4& mp4)
@@ -2094,7 +2100,19 @@ class CPM4Track
 protected:
 	
 	const CMP4Handler * get_handler() const {return _p_media;}
-	virtual void parse_boxes(CMP4 &mp4)
+	//one after the other: a track may have any number of boxes
+	void parse_boxes(CMP4 &mp4)
+	{
+		parse_current_box(mp4);
+
+		while(mp4.get_position() < (_trak_position + _trak_size))
+		{
+			mp4.do_box();
+			parse_current_box(mp4);
+		}
+	}
+
+	virtual void parse_current_box(CMP4 &mp4)
 	{
 		switch(mp4.get_box().get_type())
 		{
@@ -2172,13 +2190,6 @@ protected:
 			mp4.skip_current();
 			break;
 		}
-
-		if(mp4.get_position() < (_trak_position + _trak_size))
-		{
-		  mp4.do_box();
-		  parse_boxes(mp4);
-		}
-	
 	}
 
 	virtual void read_position(CMP4 &mp4)
@@ -2643,7 +2654,19 @@ protected:
 
 private:
 
+	//one after the other: a file may have any number of boxes
 	void parse_boxes(CMP4 &mp4)
+	{
+		parse_current_box(mp4);
+
+		while(!mp4.eof() && !mp4.is_last_box())
+		{
+			mp4.do_box();
+			parse_current_box(mp4);
+		}
+	}
+
+	void parse_current_box(CMP4 &mp4)
 	{
 		CPM4Track * ptrack(NULL);
 
@@ -2703,12 +2726,6 @@ private:
 			unknown_box(mp4);
 			break;
 		}
-
-		if(!mp4.eof())
-		{
-		  mp4.do_box();
-		  parse_boxes(mp4);
-		}
 	}
 	
 public:	
-- 
2.43.0


From dab2c1b13129449528ce28e40b341b3197d5a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 079/175] fix: the last decoding time of a track was taken from
 the number of tracks

---
 src/mg/media/mp4parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 2f6f27e..9e685a1 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2925,13 +2925,13 @@ public:
 	uint64_t get_decoding_end_time(const unsigned int stream_number) const
 	{
 		_ASSERTE(stream_number < _streams.size());
-		return _streams[stream_number]->get_decoding_time(_streams.size() - 1);
+		return _streams[stream_number]->get_decoding_time(_streams[stream_number]->get_sample_count() - 1);
 	}
 
 	uint64_t get_decoding_end_time_plus_duration(const unsigned int stream_number) const
 	{
 		_ASSERTE(stream_number < _streams.size());
-		return get_decoding_end_time(ST_U32(_streams.size() - 1)) + get_sample_duration(ST_U32(_streams.size() - 1));
+		return get_decoding_end_time(stream_number) + _streams[stream_number]->get_sample_duration(get_sample_count(stream_number) - 1);
 	}
 
 
-- 
2.43.0


From 204a0726d2ae53095a3a9637534342bb1b45199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 080/175] fix: large exp-Golomb codes of an H.264 header were
 read wrong

The power of two did not fit the int it was converted to, and a code of
more than 31 zero bits, which no header can hold, asked for as many bits.
---
 src/mg/media/mp4/h264.fl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index d3508ec..e3662cb 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -21,8 +21,11 @@ inline unsigned int exp_ue_golomb(IBitstream &var_bs)
    if(!leadingZeroBits)
        return 0;
 
+   if(31 < leadingZeroBits)
+       throw InvalidInput(__FILE__, __LINE__);
+
    unsigned int trailer = var_bs.getbits(leadingZeroBits);
-   unsigned int exp     = static_cast<int>(pow(2.0, leadingZeroBits));
+   unsigned int exp     = 1U << leadingZeroBits;
 
    _ASSERTE(exp > 1);
 
-- 
2.43.0


From d096fc3c4ca0db321ac875dc3be962de833101fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 081/175] fix: signed exp-Golomb codes lost their low bits

The code went through a float, which holds 24 bits.
---
 src/mg/media/mp4/h264.fl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index e3662cb..498ca29 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -35,10 +35,9 @@ inline unsigned int exp_ue_golomb(IBitstream &var_bs)
 inline int exp_se_golomb(IBitstream &var_bs)
 {
      
-    float k = static_cast<float>(exp_ue_golomb(var_bs));
-    int   q = (static_cast<int>(k)) + 1;
-	  q = static_cast<int>(pow(-1.0, q));
-    return static_cast<int>(q*ceil(k/2));
+    unsigned int k = exp_ue_golomb(var_bs);
+    int   q = static_cast<int>(k / 2 + k % 2);
+    return (k % 2) ? q : -q;
    
     
 }
-- 
2.43.0


From 03f5e0fc2ea35054c2a1e1efd1879fd367aad8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 082/175] fix: the extension of a picture parameter set was
 guessed from the wrong number of bits

A set without an extension was read past its end, and one which shares
the last byte with its extension was taken for one without.
---
 src/mg/media/mp4/h264.fl | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 498ca29..314f867 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -365,13 +365,18 @@ class pic_parameter_set_rbsp
 
 	
 	/////extended///////
-	uint64_t end_size = numbits() + (numbits() % 8);
+	uint64_t end_size = numbits();
 	unsigned int extended = 0;
 
-	%g{ if(_size && 
-	             ( ( (end_size) - start_size) / 8) < _size
-			) 
-			extended = 1;
+	%g{
+		//there is an extension if more than the trailing bits, a one followed by zeros to the end of the byte, is left
+		if(_size && (end_size - start_size) < _size * 8ULL)
+		{
+			uint64_t left = _size * 8ULL - (end_size - start_size);
+
+			if(8 < left || var_bs.nextbits(static_cast<short>(left)) != (1U << (left - 1)))
+				extended = 1;
+		}
 	%g}
 
 	
-- 
2.43.0


From 6b578bd039e62fd655768ca1634e339c4eec1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 083/175] fix: a slice header of a progressive picture was read
 with an undefined field flag

field_pic_flag is coded only if the pictures may be fields, but decides
whether the picture order counts of the bottom field follow.
---
 src/mg/media/mp4/h264.fl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 314f867..f0facd4 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -675,6 +675,9 @@ class slice_header
 	%g{nal_unit_type         = __nal_unit_type;       %g}
 
 
+	%g{field_pic_flag = bottom_field_flag = direct_spatial_mv_pred_flag = 0;%g}
+	%g{num_ref_idx_active_override_flag = sp_for_switch_flag = 0;%g}
+
 	%g{first_mb_in_slice     = exp_ue_golomb(var_bs);%g}
 	%g{slice_type            = exp_ue_golomb(var_bs);%g}
 	%g{pic_parameter_set_id  = exp_ue_golomb(var_bs);%g}
-- 
2.43.0


From 5e1fe4180755b2c13db5b4c00c219bc058dda892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 084/175] fix: slices of the types 5 to 9 were read without
 their reference counts

The types 5 to 9 are the types 0 to 4.
---
 src/mg/media/mp4/h264.fl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index f0facd4..180a039 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -714,16 +714,17 @@ class slice_header
       
       %g}
 
-      if( slice_type == 1 ) /*B*/
+      //5 to 9 are the same types, for all the slices of the picture
+      if( slice_type % 5 == 1 ) /*B*/
          unsigned int(1) direct_spatial_mv_pred_flag;
 
-      if( slice_type == 0 || slice_type == 3 || slice_type == 1 ) /* P || SP || B */
+      if( slice_type % 5 == 0 || slice_type % 5 == 3 || slice_type % 5 == 1 ) /* P || SP || B */
       {
 	unsigned int(1) num_ref_idx_active_override_flag;
         
 		%g{if( num_ref_idx_active_override_flag ) {
 			num_ref_idx_l0_active_minus1  = exp_ue_golomb(var_bs);
-			if( slice_type == 1 ) /*B*/
+			if( slice_type % 5 == 1 ) /*B*/
 				num_ref_idx_l1_active_minus1  = exp_ue_golomb(var_bs);
 		
 		}%g}
-- 
2.43.0


From ceb4d2109dcf81d26938bd7e114356048b9fa28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 085/175] fix: the picture timing of a stream with only VCL
 parameters was misread

The lengths of the fields were taken from the NAL parameters only, and a
stream without any crashed.
---
 src/mg/media/mp4/h264.fl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 180a039..2855872 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -908,6 +908,9 @@ class pic_timing(const H264Sequence sequence)
             
             
         %g{    
+            if(!sequence->VUI)
+                  return var_ret;
+
             if(sequence->VUI->nal_hrd_parameters_present_flag)
                   CpbDpbDelaysPresentFlag = 1;
                   
@@ -919,7 +922,15 @@ class pic_timing(const H264Sequence sequence)
                   time_offset_length = sequence->VUI->HRD->time_offset_length;
                   cpb_removal_delay_length  = sequence->VUI->HRD->cpb_removal_delay_length_minus1 + 1;
                   dpb_output_delay_length  = sequence->VUI->HRD->dpb_output_delay_length_minus1 + 1;
-            }              
+            }
+            else if(sequence->VUI->VLC_HRD)
+            {
+                  time_offset_length = sequence->VUI->VLC_HRD->time_offset_length;
+                  cpb_removal_delay_length  = sequence->VUI->VLC_HRD->cpb_removal_delay_length_minus1 + 1;
+                  dpb_output_delay_length  = sequence->VUI->VLC_HRD->dpb_output_delay_length_minus1 + 1;
+            }
+            else
+                  time_offset_length = 24;//the default of the standard
                   
                   
            pic_struct_present_flag = sequence->VUI->pic_struct_present_flag;
-- 
2.43.0


From f8707beb5c4397ef0986c6c05cc43deb4c0cab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 086/175] fix: minutes and hours of a picture timing were read
 where they are not coded

The condition was the array of the flags, not the flag.
---
 src/mg/media/mp4/h264.fl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 2855872..217f23f 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -997,13 +997,13 @@ class pic_timing(const H264Sequence sequence)
 		unsigned int(5) hours_value[[i]];
       } else {     
 			unsigned int(1) seconds_flag[[i]];
-      if( seconds_flag ) {     
+      if( seconds_flag[i] ) {     
 			unsigned int(6) seconds_value[[i]];
             unsigned int(1) minutes_flag[[i]];
-           if( minutes_flag ) {     
+           if( minutes_flag[i] ) {     
                unsigned int(6) minutes_value[[i]];
                unsigned int(1) hours_flag[[i]];
-              if( hours_flag )     
+              if( hours_flag[i] )     
                   unsigned int(5) hours_value[[i]];
             }     
           }     
-- 
2.43.0


From 8f8fdd6c75972845ed7e32a7f066169c67775649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 087/175] fix: the duration of a written track is that of all
 its samples

---
 src/mg/media/mp4write.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index c821018..c4edfdb 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1019,8 +1019,16 @@ public:
 	uint64_t get_duration() const
 	{
 		if(_samples.size() )
-			return _samples[_samples.size() - 1].composition
-			     - _samples[0].composition;
+		{
+			//the sum of the sample durations: the last sample lasts as long as the one before
+			size_t   last     = _samples.size() - 1;
+			uint64_t duration = _samples[last].decoding - _samples[0].decoding;
+
+			if(last)
+				duration += _samples[last].decoding - _samples[last - 1].decoding;
+
+			return duration;
+		}
 
 		if(_allow_empty_stream)
 			return 0;
-- 
2.43.0


From b258d773b5cc5f347ad6b56b4b44c7b961eb6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 088/175] fix: the duration of a written movie is that of its
 longest track

---
 src/mg/media/mp4write.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index c4edfdb..183db6c 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1074,6 +1074,10 @@ public:
 	{
 		_stream_offset = stream_offset;
 	}
+	uint64_t get_stream_offset() const
+	{
+		return _stream_offset;
+	}
     void set_ctts_offset(const uint64_t ctts_offset_hnano)
 	{
 		_ctts_offset = ctts_offset_hnano;
@@ -1634,21 +1638,21 @@ public:
 
 	}
 
-	uint64_t min_duration()
+	uint64_t max_duration()
 	{
-		uint64_t min = UINT64_MAX;
+		uint64_t max = 0;
 
 		for(uint32_t i = 0; i < _streams.size(); i++)
 		{
 			if(!_streams[i]->IsLTC())
 			{
-				uint64_t t = _streams[i]->get_duration();
-				if(t < min)
-					min = t;
+				uint64_t t = _streams[i]->get_duration() + _streams[i]->get_stream_offset();
+				if(t > max)
+					max = t;
 			}
 		}
 
-		return min;
+		return max;
 	}
 
 	uint64_t min_stream()
@@ -2241,10 +2245,10 @@ public:
 
 		uint64_t time_scale = _mvhd.get_timescale();
 
-		//_mvhd.set_duration(min_duration() / time_scale );
+		//_mvhd.set_duration(max_duration() / time_scale );
 		//_mvhd.set_timescale(1000);
 
-		_mvhd.set_duration(CMP4Stream::time_scale(min_duration(), time_scale));
+		_mvhd.set_duration(CMP4Stream::time_scale(max_duration(), time_scale));
 
 		_mvhd.set_next_track_ID(_first_track_id + _streams.size() + 1);
 		_mvhd.set_creation_time(0);
-- 
2.43.0


From e2a9973f749421df4a8ed12f4f2438ac45c5f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 089/175] fix: rounding does not make the times of a written
 track drift

---
 src/mg/media/mp4write.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 183db6c..a880969 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -265,6 +265,14 @@ public:
 
 		return static_cast<uint64_t>(t);
 	}
+
+	static uint64_t nearest_time_scale(const uint64_t hnano, uint64_t timescale)
+	{
+		uint64_t seconds = hnano / 10000000ULL;
+		uint64_t rest    = hnano % 10000000ULL;
+
+		return seconds * timescale + (rest * timescale + 5000000ULL) / 10000000ULL;
+	}
 protected:
 
 #ifdef CENC
@@ -439,11 +447,12 @@ protected:
 		
 		for(uint32_t i = 0; i < _samples.size(); i++)
 		{
-			_ASSERTE(0 == i || _samples[i].decoding > last);
+			_ASSERTE(0 == i || _samples[i].decoding > _samples[i - 1].decoding);
 
-			uint64_t current_delta = time_scale(_samples[i].decoding - last);
-			//last = _samples[i].decoding;
-			last += get_hnano(current_delta);
+			//from the absolute time, so that the rounding does not add up
+			uint64_t current       = nearest_time_scale(_samples[i].decoding, get_timescale());
+			uint64_t current_delta = current - last;
+			last = current;
 			
 			
 			if(1 == i)
@@ -523,7 +532,8 @@ protected:
 
 			_ASSERTE(0 <= delta);
 
-			uint64_t current_delta = time_scale(delta);
+			uint64_t current_delta = nearest_time_scale(_samples[i].decoding + delta, get_timescale())
+				- nearest_time_scale(_samples[i].decoding, get_timescale());
 
 			if(0 == i)
 				sample_delta = static_cast<uint32_t>(current_delta);
-- 
2.43.0


From b69befe46c20dbf740d2523521c8fdab70af0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 090/175] fix: the samples waiting for another stream are
 written at the end

---
 src/mg/media/mp4mux.h   |  2 ++
 src/mg/media/mp4write.h | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mg/media/mp4mux.h b/src/mg/media/mp4mux.h
index 1bf45e2..f2e43cf 100644
--- a/src/mg/media/mp4mux.h
+++ b/src/mg/media/mp4mux.h
@@ -363,6 +363,8 @@ public:
 
 	virtual void end()
 	{
+		_write.flush_samples(_body);
+
 		_body.close();
 
 		_write.compute_auto_decoding_time();
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index a880969..f60ab25 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -2214,6 +2214,16 @@ public:
 
 	}
 
+	///write the samples still waiting for the other streams
+	virtual void flush_samples(CMP4W &mp4w)
+	{
+		for(uint32_t i = 0; i < _streams.size(); i++)
+		{
+			bool stream_over;
+			_streams[i]->write_samples(INT64_MAX, mp4w, stream_over, _use_composition_in_distance);
+		}
+	}
+
 	virtual void write_ftyp(CMP4W &mp4w, uint32_t type = box_ftyp)
 	{
 		mp4w.write_child_box(box_ftyp, _ftyp);
-- 
2.43.0


From 41c55c2f1d42e6393b24a184ad536e6c9bfa9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 091/175] fix: videotimescale applies to the video track of mux

---
 src/mgcli/mp4info.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index d7d0ae1..2b36959 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -3736,7 +3736,7 @@ int do_mp4_mux(console_command &c, CMP4Edit & mp4edit)
             if(c.command_specified(_T("videotimescale")))
 			{
 				uint64_t videotimescale = c.get_value(_T("videotimescale"));
-				mp4edit.set_stream_time_scale(videotimescale);
+				mp4edit.set_stream_time_scale(videotimescale, false);
 
 				std::wcout << _T("SETTING VIDEO TIMESCALE ") << videotimescale << std::endl;
 			}
-- 
2.43.0


From be719014d1b7275ec14548eb91c2e68f04e961b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 092/175] fix: inputs with picture parameter sets of other
 sizes are not joined

---
 src/mg/media/mp4edit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index b7cceaa..1b4a8b8 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -241,11 +241,11 @@ void CMP4EditBase::do_edit_mux(
 					ALXTHROW_T(_T("The files do not have the same sequence"));
 				}
 
-				if(info.video_info[video_stream].sequence_size != 
-					reader.get_visual_entry(0, i).get_avcc_header().get_sequence_size()
+				if(info.video_info[video_stream].picture_size != 
+					reader.get_visual_entry(0, i).get_avcc_header().get_picture_size()
 					)
 				{
-					ALXTHROW_T(_T("The files do not have the same sequence size"));
+					ALXTHROW_T(_T("The files do not have the same picture size"));
 				}
 
 				if(memcmp(
-- 
2.43.0


From 255e4f749809253e9f2fcabc6d45eb617397a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 093/175] fix: an input with composition times after one
 without is joined in time

---
 src/mg/media/mp4edit.cpp | 4 ++++
 src/mg/media/mp4write.h  | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 1b4a8b8..168e647 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -257,6 +257,10 @@ void CMP4EditBase::do_edit_mux(
 					ALXTHROW_T(_T("The files do not have the same picture"));
 				}
 
+				//the decoding time of the output comes from the composition times as soon as one input has them
+				if(reader.has_composition_time(i))
+					body.set_auto_decoding_time(i, true);
+
 				video_stream++;
 			}
 			else
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index f60ab25..a5703ee 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -905,8 +905,7 @@ protected:
 			_sample_min = time.composition;
 
 
-		if(_auto_decoding_time)
-			_auto_decoding_vector.push_back(ms.composition_time);
+		_auto_decoding_vector.push_back(ms.composition_time);
 
 		if(IsVisual())
 		{
-- 
2.43.0


From c1d025ad732e0a38b27357ee6cbe8b026d567b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 094/175] fix: a part of a single sample has a duration when
 files are joined

---
 src/mg/media/mp4edit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 168e647..c056cc0 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -784,7 +784,7 @@ void CMP4EditBase::do_edit_mux(
 			ps->last_duration = reader.get_sample_duration(ms.stream);
 			
 
-		if(last_composition[ms.stream] < ps->last_composition)
+		if(last_composition[ms.stream] <= ps->last_composition)
 		{
 			last_composition[ms.stream] = ps->last_composition;
 			last_duration[ms.stream]    = ps->last_duration;
-- 
2.43.0


From da33b68569e42f702111871e437549827efa7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 095/175] fix: writing a track without samples converted its
 duration out of range

---
 src/mg/media/mp4write.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index a5703ee..fa3e875 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1039,10 +1039,7 @@ public:
 			return duration;
 		}
 
-		if(_allow_empty_stream)
-			return 0;
-
-		return UINT64_MAX;
+		return 0;
 	}
 
 	uint64_t get_frame_duration() const
-- 
2.43.0


From 082d2b0cc26ec202fa535961f23145e01c83a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 096/175] fix: looking a sample up in an empty or unordered
 table accessed memory out of bounds

---
 src/mg/media/mp4parse.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 9e685a1..94f5fe1 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -118,6 +118,9 @@ public:
 			}
 #endif
 
+		if(_vector_data.size() && k < _vector_data[_vector_data.size() - 1].k)
+			MP4ERROR(_T("the entries of a table are not in order"));
+
 		CRangeMapData d = {k , t};
 
 		_vector_data.push_back(d);
@@ -160,7 +163,8 @@ public:
 		return ret;
 #else
 
-		_ASSERTE(_vector_data.size());
+		if(!_vector_data.size())
+			MP4ERROR(_T("a table is empty"));
 
 		if(_vector_data[0].k > k)
 		{
-- 
2.43.0


From e15d0975fafd4a9e4d2713d5741f2ebe9d963fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 097/175] fix: the entries of a table were not limited by the
 size of its box

---
 src/mg/media/mp4parse.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 94f5fe1..688568b 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -573,6 +573,22 @@ public:
 		return true;
 	}
 
+	//as above, where there has to be another box
+	void need_box()
+	{
+		if(!do_box())
+			MP4ERROR(_T("the file ends inside of a box"));
+	}
+
+	//a table cannot have more entries than the box has room for
+	void check_entries(const uint64_t count, const uint64_t entry_size, const uint64_t fixed_size) const
+	{
+		const uint64_t size = _current_box.get_full_size();
+
+		if(size < 8 + fixed_size || count > (size - 8 - fixed_size) / entry_size)
+			MP4ERROR(_T("a table is larger than its box"));
+	}
+
 	bool move_box_start()
 	{
 		set_position(_box_position);
@@ -692,6 +708,8 @@ public:
 	   mp4.do_full_box();	   
 
        unsigned int entry_count = mp4.read_uint();
+       mp4.check_entries(entry_count, 12, 8);
+
        unsigned int previus_first_chunk = 0;
 	   unsigned int previus_samples_per_chunk = 0;
        uint64_t samples = 0;
@@ -810,6 +828,8 @@ public:
 
 	   if(0 == _sample_size)
 	   {
+		   mp4.check_entries(_sample_count, 4, 12);
+
 		   _total_size     = 0;
 		   _p_psample_size = new uint64_t[_sample_count];
 
@@ -821,7 +841,7 @@ public:
 	   }
 	   else
 	   {
-		   _total_size = _sample_size * _sample_count;
+		   _total_size = static_cast<uint64_t>(_sample_size) * _sample_count;
 	   }
 	   
 	   _has_stsz = true;
@@ -854,6 +874,8 @@ public:
 
        _chunk_count = mp4.read_uint();
 
+	   mp4.check_entries(_chunk_count, large?8:4, 8);
+
 	   _p_chunk_offset = new uint64_t[_chunk_count];
 
 	   for(unsigned int i = 0; i < _chunk_count; i++)
@@ -1073,6 +1095,8 @@ public:
 
 		unsigned int entry_count = mp4.read_uint();
 
+		mp4.check_entries(entry_count, 8, 8);
+
 		uint64_t total_time(0);
 		uint64_t total_entry(0);
 
@@ -1120,6 +1144,7 @@ public:
 
 		_ctts_entry_count = mp4.read_uint();
 
+		mp4.check_entries(_ctts_entry_count, 8, 8);
 
 		std::stack<composition_sample_number> reorder_stack;
 
@@ -1194,6 +1219,8 @@ public:
 		  unsigned int entry_count = mp4.read_uint();
 		  //uint64_t total_samples(0);
 
+		  mp4.check_entries(entry_count, 4, 8);
+
 		  unsigned int previus_sample_number(0);
 
 		for (unsigned int i = 0; i < entry_count; i++) 
-- 
2.43.0


From fc142854c0b44123087c5b248ae6c9023efd73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 098/175] fix: a box repeated in a track lost memory or mixed
 two tables

---
 src/mg/media/mp4parse.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 688568b..5a9a224 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -703,7 +703,8 @@ public:
    void parse_stsc(CMP4 &mp4)
    {
        _ASSERTE(box_stsc == mp4.get_box().get_type());
-	   _ASSERTE(!_has_stsc);
+	   if(_has_stsc)
+		   MP4ERROR(_T("a track has two stsc boxes"));
 
 	   mp4.do_full_box();	   
 
@@ -819,7 +820,8 @@ public:
    void parse_stsz(CMP4 &mp4)
    {
 	   _ASSERTE(box_stsz == mp4.get_box().get_type());
-	   _ASSERTE(!_has_stsz);
+	   if(_has_stsz || _p_psample_size)
+		   MP4ERROR(_T("a track has two stsz boxes"));
 
 	   mp4.do_full_box();
 
@@ -866,7 +868,8 @@ public:
    void parse_stco(CMP4 &mp4)
    {
 	   _ASSERTE(box_stco == mp4.get_box().get_type() || box_co64 == mp4.get_box().get_type());
-	   _ASSERTE(!_has_stco);
+	   if(_has_stco || _p_chunk_offset)
+		   MP4ERROR(_T("a track has two stco boxes"));
 
 	   const bool large = (box_co64 == mp4.get_box().get_type());
 
@@ -1087,7 +1090,8 @@ public:
       void parse_stts(CMP4 &mp4)
 	  {
 	     MP4CHECK(box_stts);
-		 _ASSERTE(!_has_stts);
+		 if(_has_stts)
+			 MP4ERROR(_T("a track has two stts boxes"));
 
 		 allocate_sample_2composition();
 
@@ -1135,10 +1139,8 @@ public:
 	  void parse_ctts(CMP4 &mp4)
 	  {
 		  MP4CHECK(box_ctts);
-		 _ASSERTE(!_has_ctts);
-		 _ASSERTE(_has_stts);
-
-		_ASSERTE(_p_sample_2composition);
+		 if(_has_ctts || !_has_stts)
+			 MP4ERROR(_T("a track has two ctts boxes, or no stts box before it"));
 
 		mp4.do_full_box();
 
@@ -1212,8 +1214,9 @@ public:
 	  void parse_stss(CMP4 &mp4)
 	  {
 		   MP4CHECK(box_stss);
-		   _ASSERTE(!_has_stss);
-		
+		   if(_has_stss)
+			   MP4ERROR(_T("a track has two stss boxes"));
+
 		   mp4.do_full_box();
 
 		  unsigned int entry_count = mp4.read_uint();
@@ -1240,7 +1243,8 @@ public:
 	  void parse_elst(CMP4 &mp4)
 	  {
 		  MP4CHECK(box_elst);
-		  _ASSERTE(!_has_elst);
+		  if(_has_elst)
+			  MP4ERROR(_T("a track has two elst boxes"));
 
 		  mp4.parse_edl_box(_elst);
 
@@ -2158,11 +2162,15 @@ protected:
 			mp4.parse_media_header_box(_mdhd);
 			break;
 		case box_hdlr:
+			if(_p_hdlr)
+				MP4ERROR(_T("a track has two hdlr boxes"));
+
 			_p_hdlr = new HandlerBox(static_cast<uint32_t>(mp4.get_box().get_size()));
 			mp4.parse_handler_box(*_p_hdlr);
 			break;
 		case box_minf:
-			_ASSERTE(_p_hdlr);
+			if(!_p_hdlr || _p_media)
+				MP4ERROR(_T("a track has no hdlr box before minf, or two minf boxes"));
 
 			if(!IsLTC())
 			{
@@ -2707,6 +2715,10 @@ private:
 		{
         case box_ftyp:
         case box_STYP:
+			if(_p_ftyp)
+				delete _p_ftyp;
+
+			_p_ftyp = NULL;
 			_p_ftyp = new FileTypeBox(static_cast<uint32_t>(mp4.get_box().get_size()));
 			mp4.parse_file_type_box(*_p_ftyp);
 			break;
-- 
2.43.0


From 6bc21664f3898d0fb9fd78679ff5bf88b2dede62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 099/175] fix: the place and size of a sample which the tables
 do not have were read out of bounds

---
 src/mg/media/mp4parse.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 5a9a224..3c36634 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -745,7 +745,10 @@ public:
   
 		   if(0 < i)
 		   {
-		     samples += (first_chunk - previus_first_chunk) * previus_samples_per_chunk;
+		     if(first_chunk < previus_first_chunk)
+				 MP4ERROR(_T("the chunks of stsc are not in order"));
+
+		     samples += static_cast<uint64_t>(first_chunk - previus_first_chunk) * previus_samples_per_chunk;
 			 
 			 if(0 < chunk.samples_per_chunk)
 				_sample_chunk.add(samples, chunk);
@@ -853,7 +856,8 @@ public:
    {
 	   _ASSERTE(sample_number >= 0);
 	   _ASSERTE(_has_stsz);
-	   _ASSERTE(sample_number < _sample_count);
+	   if(sample_number >= _sample_count)
+		   MP4ERROR(_T("INVALID SAMPLE NUMBER -get_sample_size- "));
 
 	   if(0 == _sample_size)
 	   {
@@ -894,11 +898,11 @@ public:
 	   _has_stco = true;
    }
 
-   uint64_t get_chunk_offset(const unsigned int chunk_number) const
+   uint64_t get_chunk_offset(const uint64_t chunk_number) const
    {
 	   _ASSERTE(_has_stco);
-	   _ASSERTE(chunk_number > 0);
-	   _ASSERTE(chunk_number <= _chunk_count);
+	   if(0 == chunk_number || chunk_number > _chunk_count)
+		   MP4ERROR(_T("INVALID CHUNK NUMBER -get_chunk_offset- "));
 
        return _p_chunk_offset[chunk_number - 1];
    }
@@ -910,7 +914,8 @@ public:
 	   _ASSERTE(_has_stsz);
 	   _ASSERTE(_has_stco);
 	   _ASSERTE(_has_stsc);
-	   _ASSERTE(sample_number < _sample_count);
+	   if(sample_number >= _sample_count)
+		   MP4ERROR(_T("INVALID SAMPLE NUMBER -get_sample_offset- "));
 
 	   uint64_t chunk_number;
 	   uint64_t remains;
@@ -920,7 +925,10 @@ public:
 	       , remains
 		   , sample_description_index);
 
-	   uint64_t chunk_offset = get_chunk_offset(static_cast<uint32_t>(chunk_number));
+	   uint64_t chunk_offset = get_chunk_offset(chunk_number);
+
+	   if(_sample_size)
+		   return chunk_offset + remains * _sample_size;
 
 	   for(uint64_t i = 0; i < remains; i++)
 	   {
-- 
2.43.0


From 7e7b01682163a3e22738d7f87e82145a62eba522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 100/175] fix: a sample presented before all those ahead of it
 in the file was sorted out of bounds

---
 src/mg/media/mp4parse.h | 67 +++--------------------------------------
 1 file changed, 5 insertions(+), 62 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 3c36634..8805f5f 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1020,50 +1020,6 @@ class CMP4TimeManager
 			_p_sample_2composition = new std::vector<composition>();//(_sample_count);
 	}
 
-	void add_ordered(std::stack<composition_sample_number> & stack
-			, std::vector<composition_sample_number> &comp
-			, composition_sample_number n)
-		{
-			_ASSERTE(stack.empty());
-
-			//a.composition_time < b.composition_time
-
-			size_t idx = comp.size();
-
-			if(0 == idx) //first element
-			{
-				comp.push_back(n);
-				return;
-			}
-
-			while(n.composition_time < comp[idx - 1].composition_time)
-			{
-				stack.push(comp[--idx]);
-			}
-
-			if(stack.empty()) //insert at the end
-			{
-				comp.push_back(n);
-				return;
-			}
-
-			comp[idx] = n;
-
-			while(++idx < comp.size())
-			{
-				_ASSERTE(!stack.empty());
-				comp[idx] = stack.top();
-				stack.pop();
-			}
-
-			_ASSERTE(!stack.empty());
-			comp.push_back(stack.top());
-			stack.pop();
-
-			_ASSERTE(stack.empty());
-		}
-
-
 public:
 
    CMP4TimeManager():
@@ -1155,10 +1111,6 @@ public:
 		_ctts_entry_count = mp4.read_uint();
 
 		mp4.check_entries(_ctts_entry_count, 8, 8);
-
-		std::stack<composition_sample_number> reorder_stack;
-
-		
 		uint64_t total_samples(0);
 
 		for (unsigned int i = 0; i < _ctts_entry_count; i++) 
@@ -1185,9 +1137,7 @@ public:
 				   
 				   _p_sample_2composition->at(static_cast<uint32_t>(total_samples++)).composition_offset = sample_offset;
 
-				   //_composition_2sample.push_back(n);
-
-				   add_ordered(reorder_stack, _composition_2sample, n);
+				   _composition_2sample.push_back(n);
 			   }
 			   else
 			   {
@@ -1204,19 +1154,12 @@ public:
 		   }
 		}
 
-		/*
-		std::vector<composition_sample_number>::iterator begin = _composition_2sample.begin();
-		std::vector<composition_sample_number>::iterator end   = _composition_2sample.end();
-
-
-		std::sort(
-			  begin
-			, end
+		std::stable_sort(
+			  _composition_2sample.begin()
+			, _composition_2sample.end()
 			, comp_sample_comp
 			);
-		*/
-		
-  
+
         _has_ctts = true;
 	  }
 	  void parse_stss(CMP4 &mp4)
-- 
2.43.0


From 710185183934370a519bf3ab27678e9db3c2901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 101/175] fix: times of samples which the tables do not have
 were read out of bounds

---
 src/mg/media/mp4parse.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 8805f5f..3e67a49 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1146,8 +1146,7 @@ public:
 								, _p_sample_2composition->size()
 								, total_samples);
 
-				   total_samples++;
-
+				   MP4ERROR(_T("there are more composition times than samples"));
 			   }
 
 			 
@@ -1339,7 +1338,8 @@ public:
 	 {
 		  //_ASSERTE(!_has_elst);
 
-		  _ASSERTE(0 <= sample_number && sample_number < _p_sample_2composition->size());
+		  if(!_p_sample_2composition || sample_number >= _p_sample_2composition->size())
+			  MP4ERROR(_T("INVALID SAMPLE NUMBER -get_decoding_time- "));
 
 		  composition comp = (*_p_sample_2composition)[static_cast<uint32_t>(sample_number)];
 
@@ -1350,7 +1350,8 @@ public:
 	 {
 		  //_ASSERTE(!_has_elst);
 
-		  _ASSERTE(0 <= sample_number && sample_number < _p_sample_2composition->size());
+		  if(!_p_sample_2composition || sample_number >= _p_sample_2composition->size())
+			  MP4ERROR(_T("INVALID SAMPLE NUMBER -get_duration- "));
 
 		  composition comp = (*_p_sample_2composition)[static_cast<uint32_t>(sample_number)];
 
@@ -1401,7 +1402,9 @@ public:
 		 }
 
 
-		 _ASSERTE(_composition_2sample.size());
+		 if(!_composition_2sample.size())
+			 MP4ERROR(_T("there are no composition times"));
+
 		 return _composition_2sample[0].composition_time;
 	 }
 
@@ -1431,7 +1434,9 @@ public:
 			 return end_time;
 		 }
 
-		 _ASSERTE(_composition_2sample.size());
+		 if(0 == _sample_count || _composition_2sample.size() < _sample_count)
+			 MP4ERROR(_T("there are less composition times than samples"));
+
 		 return _composition_2sample[static_cast<uint32_t>(_sample_count -1)].composition_time;
 	 }
 
-- 
2.43.0


From b18ed0917cc05cf9b1c1075c69db941761f25bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 102/175] fix: a file which ends inside of a track was parsed
 without end

---
 src/mg/media/mp4parse.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 3e67a49..a239b03 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1482,7 +1482,7 @@ protected:
 		if(mp4.get_position() >= (_minf_position + _minf_size))
 				MP4ERROR(_T("sample description not found"));
 
-		mp4.do_box();
+		mp4.need_box();
 
 		return true;
 	}
@@ -1513,7 +1513,7 @@ protected:
 			mp4.parse_sample_description_box(_stsd);
 			for(unsigned int i = 0; i < _stsd.entry_count; i++)
 			{
-				mp4.do_box();
+				mp4.need_box();
 				parse_sample_description(mp4);
 				_has_sample_description = true;
 			}
@@ -1535,9 +1535,9 @@ public:
 		_minf_position = mp4.get_box_position();
 		_minf_size     = mp4.get_box().get_size();
 
-		mp4.do_box();
+		mp4.need_box();
 		if(parse_header(mp4))
-			mp4.do_box();
+			mp4.need_box();
 
 		parse_boxes(mp4);
 	}
@@ -1640,7 +1640,7 @@ class CMP4VisualEntry
 	{
 		while(mp4.get_position() < _visual_end)
 		{
-			mp4.do_box();
+			mp4.need_box();
 			switch(mp4.get_box().get_type())
 			{
 			case box_avcC:
@@ -2011,7 +2011,7 @@ protected:
 			return false;
 		}
 
-		mp4.do_box();
+		mp4.need_box();
 
 		return true;
 	}
@@ -2023,7 +2023,7 @@ protected:
 			mp4.read_box(_head);
 
 		}else
-			mp4.move_box_start();
+			mp4.skip_current();
 	}
 
 	
@@ -2098,7 +2098,7 @@ protected:
 
 		while(mp4.get_position() < (_trak_position + _trak_size))
 		{
-			mp4.do_box();
+			mp4.need_box();
 			parse_current_box(mp4);
 		}
 	}
@@ -2532,7 +2532,7 @@ public:
 
 		read_position(mp4);
 
-		mp4.do_box();
+		mp4.need_box();
 
 		parse_boxes(mp4);
 	}
@@ -2741,7 +2741,7 @@ public:
 		if(0 != mp4.get_position())
 			mp4.set_position(0);
 
-		mp4.do_box();
+		mp4.need_box();
 
 		MP4CHECK2(box_ftyp, box_STYP);
 
-- 
2.43.0


From 0319efd5329acfac3cea9b38a9a150bf7d7be945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 103/175] fix: a track which could not be parsed was not given
 back

---
 src/mg/media/mp4parse.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index a239b03..451dbbb 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1563,6 +1563,8 @@ protected:
 	{
 		H264Sequence *psequence = new H264Sequence;
 
+		_sequences.push_back(psequence);
+
 		H264Nal nal;
 		nal.decode_nal(size
 			, body);
@@ -1575,14 +1577,13 @@ protected:
 
 		psequence->get(mem);
 
-		_sequences.push_back(psequence);
-
-
 	}
 	virtual void add_picture_parameter_set (const unsigned char * body, unsigned int size)
 	{
 		pic_parameter_set_rbsp * ppic = new pic_parameter_set_rbsp;
-	
+
+		_pictures.push_back(ppic);
+
 		H264Nal nal;
 		nal.decode_nal(size
 			, body);
@@ -1594,8 +1595,6 @@ protected:
 			);
 
 		ppic->get(mem);
-
-		_pictures.push_back(ppic);
 	}
 
 public:
@@ -1916,9 +1915,9 @@ protected:
 #endif		
 		CMP4VisualEntry *pe = new CMP4VisualEntry;
 
-		pe->parse(mp4);
-
 		_entries.push_back(pe);
+
+		pe->parse(mp4);
 		
 	}
 public:
@@ -1962,9 +1961,9 @@ protected:
 	
 	    CMP4AudioEntry * pe = new CMP4AudioEntry;
 
-		pe->parse(mp4);
-
 		_entries.push_back(pe);
+
+		pe->parse(mp4);
 		
 	}
 
@@ -2700,8 +2699,8 @@ private:
 			break;
 		case box_trak:
 			ptrack = new CPM4Track(_mvhd.get_timescale());
-			ptrack->parse(mp4);
 			_streams.push_back(ptrack);
+			ptrack->parse(mp4);
 			break;
 		case box_meta:
 			 meta_position = mp4.get_box_position();
@@ -2712,8 +2711,8 @@ private:
 			if(IS_LTC_BOX(mp4.get_box()))
 			{
 				ptrack = new CPM4LTCTrack(_mvhd.get_timescale());
-							ptrack->parse(mp4);
 			    _streams.push_back(ptrack);
+			    ptrack->parse(mp4);
 			}
 			else
 			{
-- 
2.43.0


From f963883f1dedfcbdcc66cc3d94da6ea7447cd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 104/175] fix: a sample entry without a configuration, or with
 two, was read out of bounds

---
 src/mg/media/mp4parse.h | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 451dbbb..49a7815 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1571,6 +1571,9 @@ protected:
 		
 		_ASSERTE(NALTYPE::SEQUENCE == nal.get_decoded_nal_unit_type());
 		
+		if(1 > nal.decoded_rbsp_size())
+			MP4ERROR(_T("a parameter set is empty"));
+
 		FixedMemoryBitstream mem(nal.decoded_rbsp()     + 1 //nal header 
 			              , nal.decoded_rbsp_size() -1
 			);
@@ -1590,6 +1593,9 @@ protected:
 		
 		_ASSERTE(NALTYPE::PICTURE == nal.get_decoded_nal_unit_type());
 		
+		if(1 > nal.decoded_rbsp_size())
+			MP4ERROR(_T("a parameter set is empty"));
+
 		FixedMemoryBitstream mem(nal.decoded_rbsp()     + 1 //nal header 
 			              , nal.decoded_rbsp_size() -1
 			);
@@ -1643,7 +1649,13 @@ class CMP4VisualEntry
 			switch(mp4.get_box().get_type())
 			{
 			case box_avcC:
-			   _body_size = mp4.get_box().get_size() - 8;
+			   if(_p_body)
+				   MP4ERROR(_T("a sample entry has two avcC boxes"));
+
+			   if(mp4.get_box_position_end() < mp4.get_position() || mp4.get_box_position_end() - mp4.get_position() > UINT32_MAX)
+				   MP4ERROR(_T("invalid avcC size"));
+
+			   _body_size = mp4.get_box_position_end() - mp4.get_position();
 			   _p_body = new BYTE[static_cast<uint32_t>(_body_size)];
 
 			   mp4.read_bytes(_p_body, _body_size);
@@ -1697,8 +1709,10 @@ public:
 
 	CMP4VisualEntry():
 		_p_body(NULL)
+	  , _body_size(0)
 	{}
-	CMP4VisualEntry(const CMP4VisualEntry &rhs)
+	CMP4VisualEntry(const CMP4VisualEntry &rhs):
+		_p_body(NULL)
 	{
 		_visual = rhs._visual;
 	    _visual_end = 0;
@@ -1722,7 +1736,8 @@ public:
 				 , const unsigned int horizresolution
 				 , const unsigned int vertresolution
 		         , const BYTE* source
-                 , const unsigned size)
+                 , const unsigned size):
+		_p_body(NULL)
 	{
 		
 		_visual.width  = width;
@@ -1788,6 +1803,9 @@ public:
 
 		if(_audio_end > mp4.get_position())
 		{
+			if(_audio_end - mp4.get_position() > UINT32_MAX)
+				MP4ERROR(_T("invalid sample entry size"));
+
 			_body_size = _audio_end - mp4.get_position();
 			_p_body = new BYTE[static_cast<uint32_t>(_body_size)];
 
@@ -1814,7 +1832,9 @@ public:
 			ES_Descriptor es;
 			es.get(mem);
 
-			if(!es.p_decoder_config_descriptor->p_ext->get_length())
+			if(!es.p_decoder_config_descriptor
+				|| !es.p_decoder_config_descriptor->p_ext
+				|| !es.p_decoder_config_descriptor->p_ext->get_length())
 				ALXTHROW_T(_T("no audio decoder configuration"));
 			
 			FixedMemoryBitstream  maac(es.p_decoder_config_descriptor->p_ext->get_descriptor()
@@ -1838,12 +1858,14 @@ public:
 
 	CMP4AudioEntry():
 		_p_body(NULL)
+	  , _body_size(0)
 	{}
 
 	CMP4AudioEntry(const unsigned int sample_rate
 				 , const unsigned int channels
 				 , const BYTE* source
-                 , const unsigned size)
+                 , const unsigned size):
+		_p_body(NULL)
 	{
 		_audio.set_channelcount(channels);
 		_audio.set_samplesize(16);
@@ -1859,7 +1881,8 @@ public:
 		}
 	}
 	
-	CMP4AudioEntry(const CMP4AudioEntry &rhs)
+	CMP4AudioEntry(const CMP4AudioEntry &rhs):
+		_p_body(NULL)
 	{
 		_audio = rhs._audio;
 	    _audio_end = 0;
-- 
2.43.0


From c49c7b39ef90f1238d884ae974dbfba2936701a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 105/175] fix: a track without media or time scale was accepted
 and read through null pointers

---
 src/mg/media/mp4parse.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 49a7815..793ea1b 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2223,6 +2223,18 @@ public:
 		read_position(mp4);
 
 		parse_boxes(mp4);
+
+		check_parsed();
+	}
+
+	//what the rest relies on
+	void check_parsed() const
+	{
+		if(!_p_hdlr || !_p_media)
+			MP4ERROR(_T("a track has no media"));
+
+		if(0 == _mdhd.get_timescale())
+			MP4ERROR(_T("a track has no time scale"));
 	}
 
 	CPM4Track(uint64_t mvhd_time_scale):
@@ -2435,6 +2447,10 @@ public:
 	uint64_t get_stream_offset() const
 	{
 		uint64_t time = _time_manager.get_offset();
+
+		if(0 == time || 0 == _mvhd_time_scale)
+			return 0;
+
 		return (1000UL * 10000UL * time) / _mvhd_time_scale;
 	}
 
@@ -2557,6 +2573,8 @@ public:
 		mp4.need_box();
 
 		parse_boxes(mp4);
+
+		check_parsed();
 	}
 
 	virtual bool IsLTC() const
@@ -3088,7 +3106,8 @@ public:
 			stream = 0;
 		}
 
-		_ASSERTE(stream < _streams.size());
+		if(stream >= _streams.size())
+			MP4ERROR(_T("there is no such stream"));
 
 		uint64_t sample_number    = _streams[stream]->get_IFrame_number(time);
 
-- 
2.43.0


From fb7c4d836bda26116a009f0e09b5cb4fcb02afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 106/175] fix: a file type box of a wrong size was read to the
 end of the memory

The size of the brands wrapped around when the box was too short, and was never
reached when it was not a multiple of four.
---
 src/mg/media/mp4/mp4.fl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index 6566d1d..fde4abd 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -823,7 +823,11 @@ private:
 %{
 public:
     FileTypeBox():_size(0){}
-    FileTypeBox(unsigned int size):_size(size - 16){}
+    FileTypeBox(unsigned int size):_size(size - 16)
+    {
+       if(16 > size || size % 4)
+          throw InvalidInput(__FILE__, __LINE__);
+    }
     V32(major_brand);
     V32(minor_version);
 
-- 
2.43.0


From bb42943749d15be06f62c63cbe8ca9081ecca942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 107/175] fix: a handler box with a name longer than its array
 was written out of bounds

---
 src/mg/media/mp4/mp4.fl | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index fde4abd..bb1513b 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -440,7 +440,10 @@ private:
     unsigned int __x = 0;
     unsigned int __max = 0;
 
-    %g{__max = __body_size;%g}
+    %g{
+    __max = __body_size;
+    if(__max >= sizeof(desc) / sizeof(desc[0])){throw InvalidInput(__FILE__, __LINE__);}
+    %g}
     %p{__max = __body_size;%p}
     
     while(__x < __max)
@@ -450,8 +453,6 @@ private:
        char(8) __name;
        
        %g{
-       _ASSERTE(__max < 1022);
-
       desc[__x++] = __name;
       //if(__name == '\0')
       //	 break;
@@ -464,7 +465,13 @@ private:
     %g}
 %{
 public:
-    HandlerBox(unsigned int boxsize){ _ASSERTE(32 <= boxsize); __body_size = boxsize - 32;}
+    HandlerBox(unsigned int boxsize)
+    {
+      if(32 > boxsize)
+         throw InvalidInput(__FILE__, __LINE__);
+
+      __body_size = boxsize - 32;
+    }
     HandlerBox():reserved(0)
     {
 desc[0] = 'F';
-- 
2.43.0


From c0b623ffce0193d5f98545c338cdf9819547f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 108/175] fix: a duration without a time scale was divided by
 zero

---
 src/mg/media/mp4/mp4.fl | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index bb1513b..ba8f647 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -269,7 +269,7 @@ public:
 	V32(volume);
 	V32(next_track_ID);
 	
-	uint64_t get_duration_hns()const{return (1000UL * 10000UL * get_duration()) / get_timescale() ;}
+	uint64_t get_duration_hns()const {return (0 == get_timescale())?0:((1000UL * 10000UL * get_duration()) / get_timescale());}
 
      MovieHeaderBox():
          matrix_1(0x00010000)
@@ -283,6 +283,10 @@ public:
        , matrix_9(0x40000000)
        , rate(0x00010000) // typically 1.0
        , volume(0x0100)        
+       , timescale(0)
+       , duration_0(0)
+       , duration(0)
+       , next_track_ID(0)
      {
      }
 %}
@@ -415,12 +419,15 @@ public:
     void set_lang(TCHAR * lang){lang_1=lang[0]-0x60;lang_2=lang[1]-0x60;lang_3=lang[2]-0x60;}
 
 
-    uint64_t get_duration_hns()const {return (1000UL * 10000UL * get_duration()) / get_timescale() ;}
+    uint64_t get_duration_hns()const {return (0 == get_timescale())?0:((1000UL * 10000UL * get_duration()) / get_timescale());}
 
     MediaHeaderBox():
       lang_1(21)
     , lang_2(14)
     , lang_3(4)
+    , timescale(0)
+    , duration_0(0)
+    , duration(0)
     {}
 %}
 }
-- 
2.43.0


From c872467dc41adf70c22d83450b8ae7e56e01692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 109/175] fix: segment index and xml boxes of a wrong size were
 written out of bounds

---
 src/mg/media/mp4/mp4.fl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index ba8f647..96b766e 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -907,7 +907,7 @@ aligned(8) class SegmentIndexBox extends FullBox {
 	 unsigned int(16) reference_count; 
 	 unsigned int i = 0;
 	 %g{
-	 _ASSERTE(reference_count <= sizeof(reference_type));
+	 if(reference_count > sizeof(reference_type) / sizeof(reference_type[0])){throw InvalidInput(__FILE__, __LINE__);}
 	 %g}
 	 for(i=0; i < reference_count; i++) 
 	 { 
@@ -960,7 +960,11 @@ private:
     }
 public:
     XmlBox(unsigned int boxsize):_p_xml(NULL)
-    { _ASSERTE(12 <= boxsize); __body_size = boxsize - 12;
+    {
+      if(12 > boxsize)
+         throw InvalidInput(__FILE__, __LINE__);
+
+      __body_size = boxsize - 12;
       init();
     }
     ~XmlBox(){if(_p_xml)delete[] _p_xml;}
-- 
2.43.0


From 1ba544ba1d2b5361e132684bea0b1be79dbac714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 110/175] fix: descriptors took memory for any length, and read
 their length without end

The length of a descriptor has at most four bytes, and its memory is only taken
for the bytes which are there.
---
 src/mg/media/mp4/mpeg4_odf.fl | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/mg/media/mp4/mpeg4_odf.fl b/src/mg/media/mp4/mpeg4_odf.fl
index e0d42fe..5044cfe 100644
--- a/src/mg/media/mp4/mpeg4_odf.fl
+++ b/src/mg/media/mp4/mpeg4_odf.fl
@@ -90,6 +90,7 @@ aligned(8) class descriptor
 	 length = __blength;
          
 	 __sizeHeader++;
+	 %g{if(4 < __sizeHeader){throw InvalidInput(__FILE__, __LINE__);}%g}
 	 size <<= 7;
 	 size |= length & 0x7F;
 
@@ -168,7 +169,7 @@ aligned(8) class extension_descriptor extends descriptor
 {
    %{
 private:
-     BYTE * _row_memory;
+     std::vector<BYTE> _row_memory;
    %}
 
     int _byte_size = length;
@@ -179,26 +180,17 @@ private:
    {
       bit(8) length2;
       _byte_size = length - 1;
-
-      %g{
-          _ASSERTE(false);
-          length = (length << 8) | length2;
-      %g}
    }
 
    if(0xE0 == tag)
    {
        bit(24) length2;
        _byte_size = length - 3;
-
-      %g{
-          _ASSERTE(false);
-          length = (length << 24) | length2;
-      %g}
    }
 
    %g{
-       _row_memory = new BYTE[_byte_size];
+       if(0 > _byte_size){throw InvalidInput(__FILE__, __LINE__);}
+       _row_memory.clear();
    %g}
 
    int __idx = 0;
@@ -212,27 +204,25 @@ private:
        bit(8) descriptor_byte;
 
       %g{
-         _row_memory[__idx] = descriptor_byte;
+         _row_memory.push_back(static_cast<BYTE>(descriptor_byte));
       %g}
    }  
    
 
    %{
-      void cleanup(){if(_row_memory)delete[] _row_memory;_row_memory=NULL;}
 public:
-      extension_descriptor():_row_memory(NULL){}
+      extension_descriptor(){}
       
-      virtual ~extension_descriptor(){cleanup();}
-      unsigned int get_length() const {return length;}
-      const BYTE* get_descriptor() const {return _row_memory;}
+      virtual ~extension_descriptor(){}
+      unsigned int get_length() const {return static_cast<unsigned int>(_row_memory.size());}
+      const BYTE* get_descriptor() const {return _row_memory.empty()?NULL:&_row_memory[0];}
       void set_descriptor(const BYTE* source, const unsigned size)
       {
           _ASSERTE(size < 254);
-          _ASSERTE(NULL ==  _row_memory);
+          _ASSERTE(_row_memory.empty());
 	  length = size;
 	   _byte_size = size;
-	  _row_memory = new BYTE[_byte_size]; 
-	  memcpy(_row_memory, source, _byte_size);
+	  _row_memory.assign(source, source + size);
       }
    %}
 }
-- 
2.43.0


From 541471e48dd4022e7204849be301e6088c906c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 111/175] fix: parameter sets with more entries than the arrays
 were written out of bounds

The slice group ids of a picture parameter set are also not Exp-Golomb codes, but
as many bits as the slice groups need.
---
 src/mg/media/mp4/h264.fl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 217f23f..f9b85a0 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -51,6 +51,7 @@ class hrd_parameters
 	unsigned int cpb_size_value_minus1[64];
 
 	%g{cpb_cnt_minus1  = exp_ue_golomb(var_bs);%g}
+	%g{if(cpb_cnt_minus1 > 31){throw InvalidInput(__FILE__, __LINE__);}%g}
 	unsigned int(4) bit_rate_scale;
 	unsigned int(4) cpb_size_scale;
 
@@ -313,6 +314,7 @@ class pic_parameter_set_rbsp
 	unsigned int(1) pic_order_present_flag;
 	
 	%g{num_slice_groups_minus1  = exp_ue_golomb(var_bs);%g}
+	%g{if(num_slice_groups_minus1 > 7){throw InvalidInput(__FILE__, __LINE__);}%g}
 	
 	if( num_slice_groups_minus1 > 0 ) {
 		%g{slice_group_map_type  = exp_ue_golomb(var_bs);%g}
@@ -342,7 +344,12 @@ class pic_parameter_set_rbsp
 			for( i = 0; i <= pic_size_in_map_units_minus1; i++ )
 			{
 			
-			%g{_ASSERTE(false);slice_group_id[ i ]  = exp_ue_golomb(var_bs);%g}
+			//Ceil( Log2( num_slice_groups_minus1 + 1 ) ) bits
+			%g{
+			unsigned int group = var_bs.getbits((num_slice_groups_minus1 > 3)?3:((num_slice_groups_minus1 > 1)?2:1));
+			if(i < sizeof(slice_group_id) / sizeof(slice_group_id[0]))
+				slice_group_id[ i ]  = group;
+			%g}
 			}
 	       }
 	}
-- 
2.43.0


From 87b37bbe3dde49f833ebd207c643ba730a3a4176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 112/175] fix: an empty NAL unit was read past its end

---
 src/mg/media/h264nal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/h264nal.h b/src/mg/media/h264nal.h
index 6369033..95f3631 100644
--- a/src/mg/media/h264nal.h
+++ b/src/mg/media/h264nal.h
@@ -64,6 +64,9 @@ protected:
 	{
 		NumBytesInRBSP = 0;
 
+		if(0 == NumBytesInNALunit)
+			throw InvalidInput(__FILE__, __LINE__);
+
 		//copy nal_ref_idc and nal_unit_type to output
 		p_nal[NumBytesInRBSP++] = bit_stream.nextbits(8);
 
-- 
2.43.0


From a41e883a591380412906dba0802601d3a3437dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 113/175] fix: bytes missing at the end of a file were taken
 from uninitialised memory

---
 src/mg/media/mp4parse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 793ea1b..adb68a0 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -524,7 +524,8 @@ public:
 		_p_f->read(static_cast<unsigned char*>(pbyte), s, &cb_read);
 		
 
-		_ASSERTE(cb_read == s);
+		if(cb_read != s)
+			MP4ERROR(_T("the file ends inside of a box"));
 		
 	}
 
-- 
2.43.0


From 261278a0a5d229e596cd64ae2fdf90e7ddfa3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 114/175] fix: a missing decoder specific info was read through
 an uninitialised pointer

---
 src/mg/media/mp4/mpeg4_odf.fl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mpeg4_odf.fl b/src/mg/media/mp4/mpeg4_odf.fl
index 5044cfe..7b75e07 100644
--- a/src/mg/media/mp4/mpeg4_odf.fl
+++ b/src/mg/media/mp4/mpeg4_odf.fl
@@ -280,6 +280,8 @@ public:
 
     }
     
+    DecoderConfigDescriptor():p_ext(NULL){}
+
     virtual ~DecoderConfigDescriptor(){cleanup();}
 
     void add_extension(const BYTE* source, const unsigned size)
@@ -501,7 +503,8 @@ aligned(8) class ES_Descriptor extends descriptor
 public:
     
     ES_Descriptor():
-      p_lang(NULL)
+      p_ext(NULL)
+    , p_lang(NULL)
     , p_decoder_config_descriptor(NULL)
     , p_sl_config_descriptor(NULL)
     , p_ipi_desc_pointer(NULL)
-- 
2.43.0


From b9d3790fa60d25cd0340f7075807c10673e2a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 115/175] fix: with several parameter sets, the size of one
 came with the bytes of another

The bytes of a parameter set were always those of the last one, and their size
that of the one asked for, or uninitialised when there was none.
---
 src/mg/media/mp4/mp4.fl | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4/mp4.fl b/src/mg/media/mp4/mp4.fl
index 96b766e..4cd9e17 100644
--- a/src/mg/media/mp4/mp4.fl
+++ b/src/mg/media/mp4/mp4.fl
@@ -584,12 +584,18 @@ aligned(8) class VisualSampleEntry extends SampleEntry
 aligned(8) class AVCDecoderConfigurationRecord 
 {
 %{
-	
+	//what was read: the arrays below have only the last one
+	std::vector<std::vector<unsigned char> > _sequence_nals;
+	std::vector<std::vector<unsigned char> > _picture_nals;
+
 protected:
 	virtual void add_sequence_parameter_set(const unsigned char * body, unsigned int size){}
 	virtual void add_picture_parameter_set (const unsigned char * body, unsigned int size){}
 public:
 %}
+	%g{numOfSequenceParameterSets = numOfPictureParameterSets = 0;%g}
+	%g{_sequence_nals.clear();_picture_nals.clear();%g}
+
 	unsigned int(8) configurationVersion = 1;
 	unsigned int(8) AVCProfileIndication;
 	unsigned int(8) profile_compatibility;
@@ -617,6 +623,7 @@ public:
 	    for(__idy = 0; __idy < sequenceParameterSetLength[__idx]; __idy++)
 			unsigned char(8) sequenceParameterSetNALUnit[[__idy]];
 		
+		%g{_sequence_nals.push_back(std::vector<unsigned char>(sequenceParameterSetNALUnit, sequenceParameterSetNALUnit + sequenceParameterSetLength[__idx]));%g}
 		%g{add_sequence_parameter_set(sequenceParameterSetNALUnit, sequenceParameterSetLength[__idx]);%g}
     }
     
@@ -629,24 +636,34 @@ public:
        for(__idy = 0; __idy < pictureParameterSetLength[__idx]; __idy++)
        		unsigned char(8) pictureParameterSetNALUnit[[__idy]];
        		
+       %g{_picture_nals.push_back(std::vector<unsigned char>(pictureParameterSetNALUnit, pictureParameterSetNALUnit + pictureParameterSetLength[__idx]));%g}
        %g{add_picture_parameter_set(pictureParameterSetNALUnit, pictureParameterSetLength[__idx]);%g}
     }
 %{
 public:
-      const BYTE* get_sequence(unsigned int idx = 0) const {_ASSERTE(0==idx);return sequenceParameterSetNALUnit;}
-      const unsigned int get_sequence_size(unsigned int idx = 0) const {_ASSERTE(0==idx);return  sequenceParameterSetLength[idx];}
+      AVCDecoderConfigurationRecord():
+	numOfSequenceParameterSets(0)
+      , numOfPictureParameterSets(0)
+      {}
+
+      const BYTE* get_sequence(unsigned int idx = 0) const {return (idx < _sequence_nals.size())?_sequence_nals[idx].data():sequenceParameterSetNALUnit;}
+      const unsigned int get_sequence_size(unsigned int idx = 0) const {return (idx < numOfSequenceParameterSets)?sequenceParameterSetLength[idx]:0;}
       const unsigned int get_sequence_count() const {return numOfSequenceParameterSets;}
 
 
 
-      const BYTE* get_picture(unsigned int idx = 0) const {_ASSERTE(0==idx);return pictureParameterSetNALUnit;}
-      const unsigned int get_picture_size(unsigned int idx = 0) const {_ASSERTE(0==idx);return  pictureParameterSetLength[idx];}
+      const BYTE* get_picture(unsigned int idx = 0) const {return (idx < _picture_nals.size())?_picture_nals[idx].data():pictureParameterSetNALUnit;}
+      const unsigned int get_picture_size(unsigned int idx = 0) const {return (idx < numOfPictureParameterSets)?pictureParameterSetLength[idx]:0;}
       const unsigned int get_picture_count() const {return numOfPictureParameterSets;}
       
       unsigned int get_nal_length_size() const {return lengthSizeMinusOne + 1;}
 
       void set_sps(const BYTE * source, const int size)
       {
+         if(size < 0 || static_cast<size_t>(size) > sizeof(sequenceParameterSetNALUnit))
+            throw InvalidInput(__FILE__, __LINE__);
+
+         _sequence_nals.clear();
          numOfSequenceParameterSets    = 1;
 	 sequenceParameterSetLength[0] = size;
 
@@ -658,6 +675,10 @@ public:
 
       void set_pps(const BYTE * source, const int size)
       {
+         if(size < 0 || static_cast<size_t>(size) > sizeof(pictureParameterSetNALUnit))
+            throw InvalidInput(__FILE__, __LINE__);
+
+         _picture_nals.clear();
          numOfPictureParameterSets    = 1;
 	 pictureParameterSetLength[0] = size;
 
-- 
2.43.0


From 3b0f7b5c94bca5880dd0de14ee6c02d666bc5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 116/175] fix: a parameter set which a track does not have was
 read out of bounds

---
 src/mg/media/mp4parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index adb68a0..fb6fe4f 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1618,8 +1618,8 @@ public:
 	}
 
 	
-	const H264Sequence           & get_sequence(unsigned int idx) const {_ASSERTE(idx < _sequences.size()); return *_sequences[idx];}
-	const pic_parameter_set_rbsp & get_picture (unsigned int idx) const {_ASSERTE(idx < _pictures.size());  return *_pictures[idx];}
+	const H264Sequence           & get_sequence(unsigned int idx) const {if(idx >= _sequences.size())MP4ERROR(_T("a parameter set is missing")); return *_sequences[idx];}
+	const pic_parameter_set_rbsp & get_picture (unsigned int idx) const {if(idx >= _pictures.size())MP4ERROR(_T("a parameter set is missing"));  return *_pictures[idx];}
 
 	const BYTE* get_nal_sequence(unsigned int idx = 0) const {return AVCDecoderConfigurationRecord::get_sequence(idx);}
 	const BYTE* get_nal_picture(unsigned int idx = 0) const { return AVCDecoderConfigurationRecord::get_picture(idx);}
-- 
2.43.0


From 2198683872e52912bdfaf1d501ecbe21bbacfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 117/175] fix: a 64 bit time with the highest bit of its lower
 half set was read as another

---
 src/mg/media/TBitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/TBitstream.h b/src/mg/media/TBitstream.h
index 1e119db..42d4635 100644
--- a/src/mg/media/TBitstream.h
+++ b/src/mg/media/TBitstream.h
@@ -32,7 +32,7 @@ using namespace MGCORE;
 #define UI64(x, y)   ((uint64_t)x) << 32 | (uint64_t)y
 #define UI64BE(x, y) ((uint64_t)y) << 32 | (uint64_t)x
 
-#define I64(x, y)   ((int64_t)x) << 32 | (int64_t)y
+#define I64(x, y)   static_cast<int64_t>(((uint64_t)(uint32_t)(x)) << 32 | (uint64_t)(uint32_t)(y))
 
 typedef IBitstream IBitstream3;
 
-- 
2.43.0


From 7022169c5563dfd57edee878b5c65a8291723b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:07 +0000
Subject: [PATCH 118/175] fix: the sample shown first was taken for the first
 of the file

When other samples are presented before the first one of the file, looking up the
earliest presentation time answered with the first sample of the file.
---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index fb6fe4f..0bc5753 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1271,7 +1271,7 @@ public:
 			return 0;
 
 		if(it == _composition_2sample.begin())
-			return 0;
+			return it->sample_number;
 
 		_ASSERTE(it != _composition_2sample.begin());
 
-- 
2.43.0


From b7c2fa3268228ead50260bd5b59d4c5c3e1acd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 119/175] fix: a time within the last sample shown was taken
 for the first of the file

---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 0bc5753..80efdef 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1268,7 +1268,7 @@ public:
 			 && time <= it->composition_time);
 
 		if(!found)
-			return 0;
+			return _composition_2sample.empty()?0:_composition_2sample.back().sample_number;
 
 		if(it == _composition_2sample.begin())
 			return it->sample_number;
-- 
2.43.0


From 0a5eb35f1c9ef2998a5948343b3be113ffe2b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 120/175] fix: a time between two samples was given the
 neighbour of one in the file

With composition times, the neighbour of a sample in the file is not its
neighbour in time.  As without composition times, the sample for a time is the
first one shown at or after it.
---
 src/mg/media/mp4parse.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 80efdef..4593738 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1273,11 +1273,6 @@ public:
 		if(it == _composition_2sample.begin())
 			return it->sample_number;
 
-		_ASSERTE(it != _composition_2sample.begin());
-
-		if(time < it->composition_time)
-		   it--;
-
 		return it->sample_number;
 		  
 	  }
@@ -2434,7 +2429,8 @@ public:
 			return _time_manager.get_sample_count() - 1;
 		}
 
-		if(_time_manager.get_composition_time(sample) < dtime)
+		//the next in the file is the next shown only when they are in the same order
+		if(!_time_manager.has_composition_time() && _time_manager.get_composition_time(sample) < dtime)
 			sample++;
 
 		if(sample >= _time_manager.get_sample_count())
-- 
2.43.0


From 99529629cdc96ce10ea2922d48b3f4d8124584dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:54 +0000
Subject: [PATCH 121/175] fix: a PES packet without a decoding time is decoded
 when it is shown

---
 src/mg/media/mp4/mpeg2ts.fl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index e11952b..624cdc1 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -868,7 +868,7 @@ class PesData extends PesBase
 		}
 
 		uint64_t GetTime() const {return MpegTime::Time(PTS_32_30, PTS_29_15, PTS_14_0);}
-		uint64_t GetDTSTime() const {return MpegTime::Time(DTS_32_30, DTS_29_15, DTS_14_0);}
+		uint64_t GetDTSTime() const {return (!DTS_flags)?GetTime():MpegTime::Time(DTS_32_30, DTS_29_15, DTS_14_0);}
 		bool IsVideo() const {return (stream_id >= 0xE0 && stream_id <= 0xEF);}
 		bool IsAudio() const {return (stream_id >= 0xC0 && stream_id <= 0xDF);}
 	%}
-- 
2.43.0


From a76a0dee8f29a68801f961c1576931dee7d58cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:54 +0000
Subject: [PATCH 122/175] fix: the adaptation field of the first PES packet was
 taken for those of all others

---
 src/mg/media/ts.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index ee90469..97bd77a 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -149,6 +149,7 @@ public:
 
 			CleanUp();
 			_payload.Reset();
+			_HasFirstAdaptation = false;
 			_begin_payload_packet_count = _last_packet_count;
 		}
 		
-- 
2.43.0


From 0ca66331514a2d436cf803d8051c818a83f6c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:54 +0000
Subject: [PATCH 123/175] fix: the last PES packet without a length was lost at
 the end of a transport stream

---
 src/mg/media/ts.h       |  3 ++-
 src/mg/media/tsinfo.cpp |  5 +++++
 src/mg/media/tsparse.h  | 12 ++++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 97bd77a..d8c704e 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -205,7 +205,8 @@ public:
 
 	void End()
 	{
-		BeforeUnitStart(_payload);
+		if(_gotfirst)
+			BeforeUnitStart(_payload);
 	}
 
 	uint64_t get_begin_payload_packet_count(){return _begin_payload_packet_count;}
diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 43ad3fa..b64add0 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -1335,8 +1335,12 @@ int tsinfo(console_command & c, std::ostream & ost)
 					if(stop)
 						ts.process_packets(processor, size);
 					else
+					{
 						while(TSPROCESSRESULT::TSEOF != ts.process_packets(processor, size))
 						{}
+
+						processor.end_streams();
+					}
 				}//auto - pick
 				else if(kind == _T("ts2mp4"))
 				{
@@ -1361,6 +1365,7 @@ int tsinfo(console_command & c, std::ostream & ost)
 					while(TSPROCESSRESULT::TSEOF != ts.process_packets(processor, size))
 					{}
 
+					processor.end_streams();
 					processor.end();
 				}
 		}
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index c1da0f0..b6fd008 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -754,6 +754,18 @@ public:
 		
 	}
 
+	///the input is over: what was collected last is complete
+	void end_streams()
+	{
+		std::map<int, ts_pes*>::iterator iter;
+
+		for( iter = _pes.begin(); iter != _pes.end(); iter++ ) 
+		{
+			if(iter->second)
+				iter->second->End();
+		}
+	}
+
 	void close()
 	{
 		clean_up_pmt();
-- 
2.43.0


From aefbee02e97b0fb5ca52cdae2eb4b71053776e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:54 +0000
Subject: [PATCH 124/175] fix: the parameter sets of a transport stream are
 read as units, when all of them is there

---
 src/mg/media/ts.h      |  6 ++++-
 src/mg/media/tsparse.h | 55 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index d8c704e..b56b981 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -897,7 +897,11 @@ protected:
 		if(payload.size() >= getMinAnalyzeSize() && !_HasStruct)
 		{
 			payload.SetPosition(0);
-			UpdateLookUp(payload);
+
+			//the structure may go on in packets which are still to come
+			try{UpdateLookUp(payload);}
+			catch(...)
+			{}
 		}
 
 		try{TSProgramElementaryStream<I>::process(ts, payload);}
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index b6fd008..8664173 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -405,26 +405,65 @@ protected:
 		std::wcerr << L"Empty PES" << std::endl;
 	}
 
-	virtual void structure_get(IBitstream &ms)
+	virtual void structure_get(IBitstream &stream)
 	{
+		//UpdateLookUp reads from memory
+		fixed_memory_bitstream & ms = static_cast<fixed_memory_bitstream &>(stream);
+
 		_ASSERTE(IsHim(ms));
-		ms.skipbits(32);
+		ms.skipbits(24);
 
-		TSProgramElementaryStreamAnalyze<H264Sequence>::structure_get(ms);
+		H264Nal nal;
+
+		read_unit(ms, nal);
 
-		
-		unsigned int nextbits =  ms.nextbits(32);
-		if((0xFFFFFF1F & nextbits) == 0x00000108)
 		{
-			ms.skipbits(32);
+			FixedMemoryBitstream mem(nal.decoded_rbsp() + 1 //nal header
+				, nal.decoded_rbsp_size() - 1);
+
+			TSProgramElementaryStreamAnalyze<H264Sequence>::structure_get(mem);
+		}
+
+		if(ms.has_bits(32) && ms.nextbits(32) == 0x00000001)
+			ms.skipbits(8);
+
+		if(ms.has_bits(32) && (0xFFFFFF1F & ms.nextbits(32)) == 0x00000108)
+		{
+			ms.skipbits(24);
+
+			read_unit(ms, nal);
+
+			FixedMemoryBitstream mem(nal.decoded_rbsp() + 1 //nal header
+				, nal.decoded_rbsp_size() - 1);
 
-			_picture.get(ms);
+			_picture.get(mem);
 
 			_has_picture = true;
 
 		}
 	}
 
+	///read what there is up to the next start code
+	void read_unit(fixed_memory_bitstream &ms, H264Nal & nal)
+	{
+		CBuffer<BYTE> unit(256);
+
+		while(ms.has_bits(8))
+		{
+			if(ms.has_bits(24))
+			{
+				unsigned int next = ms.nextbits(24);
+				if(0 == next || 1 == next)
+					break;
+			}
+
+			BYTE b = ms.getbits(8);
+			unit.add(&b, 1);
+		}
+
+		nal.decode_nal(unit.size(), unit.get());
+	}
+
 	virtual bool IsHim(IBitstream &ms)
 	{
 		unsigned int nextbits =  ms.nextbits(32);
-- 
2.43.0


From 392d4858922ad063417621cf4bb9e2c8bc1087d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 125/175] fix: zeros after a unit of a transport stream were
 taken for a part of it

---
 src/mg/media/tsparse.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index 8664173..a3986f5 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -397,6 +397,22 @@ class TSProgramElementaryStreamAnalyzeH264: public TSProgramElementaryStreamAnal
 
 	CBufferRead _payload;
 
+	//keeps zeros back until a byte of the unit follows
+	void AddByte(BYTE b, uint32_t &zeros)
+	{
+		if(0 == b)
+		{
+			zeros++;
+			return;
+		}
+
+		const BYTE zero = 0;
+
+		for(; zeros > 0; zeros--)
+			_payload.add(&zero, 1);
+
+		_payload.add(&b, 1);
+	}
 
 protected:
 
@@ -538,6 +554,8 @@ public:
 				_payload.Reset();
 
 				BYTE b = 0;
+				//zeros between a unit and the next start code are not part of it
+				uint32_t zeros = 0;
 				
 				while( ms.has_bits(32)
 					&& ms.nextbits(24) != 0x000001 
@@ -545,7 +563,7 @@ public:
 				{
 					_ASSERTE(ms.has_bits(8));
 					 b = ms.getbits(8);
-					_payload.add(&b, 1);
+					 AddByte(b, zeros);
 
 					if(ms.atend())
 						break;
@@ -558,11 +576,10 @@ public:
 					{
 						_ASSERTE(ms.has_bits(8));
 						 b = ms.getbits(8);
-					    _payload.add(&b, 1);
+						 AddByte(b, zeros);
 					}
 				}
 
-
 				NalPayload(static_cast<NALTYPE>(nal_type), Packet, pesdata, _payload
 					, static_cast<uint32_t>((ms.getpos() - start_position)/8)
 				);
-- 
2.43.0


From a1ea7ba6e41c8e119ec1feba06e4093280945931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 126/175] fix: a PES header with a checksum was read a byte too
 long

---
 src/mg/media/mp4/mpeg2ts.fl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 624cdc1..dd82988 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -774,7 +774,7 @@ class PesData extends PesBase
 	{
 		bit(16) previous_PES_packet_CRC;
 
-		size += 8;
+		size += 16;
 	}
 	if (PES_extension_flag == 1) 
 	{
-- 
2.43.0


From 9ad1a7f64e22b3cfdc9abfa93752450e72bfac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 127/175] fix: a transport packet with an error is skipped as a
 whole

---
 src/mg/media/mp4/mpeg2ts.fl | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index dd82988..0ebfc48 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -1267,6 +1267,18 @@ class Transport_Packet
 
 	bit(1) 	transport_error_indicator;
 
+	%g{
+	   //nothing in a packet with an error can be trusted
+	   if(transport_error_indicator)
+	   {
+			PID = 0x1FFF;
+			payload_unit_start_indicator = 0;
+			adaptation_flag = 0;
+			payload_field = 0;
+			var_bs.skipbits(187 * 8 - 1);
+	   }
+	%g}
+
 	if(!transport_error_indicator)
 	{
 			bit(1) 	payload_unit_start_indicator;
-- 
2.43.0


From 44ececa74964af5a7430fb81839add96d3a10ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 128/175] fix: tables of a transport stream which are longer
 than they say or may be

---
 src/mg/media/mp4/mpeg2ts.fl | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 0ebfc48..49d037e 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -1116,6 +1116,11 @@ class Program_Association_Section extends BaseSection
 
 	unsigned int i = 0;
 
+	%g{
+	   if(section_length < 9 || section_length > 1021)
+			throw InvalidInput(__FILE__, __LINE__);
+	%g}
+
 	for (i = 0; i < ( (section_length - (5 + 4))/ 4 ); i++) 
 	{
 		
@@ -1179,6 +1184,13 @@ public:
 
 	unsigned int(12) program_info_length;
 
+	%g{
+	   cleanup();
+
+	   if(section_length < 13u + program_info_length || section_length > 1021)
+			throw InvalidInput(__FILE__, __LINE__);
+	%g}
+
 	//72 bit 9 bytes
 
 	unsigned int des_byte_count = 0;
@@ -1247,6 +1259,11 @@ public:
 		program_byte_count += (5 + ES_info_length);
 
 		stream_count++;
+
+		%g{
+		   if(program_byte_count > section_length - 13u - program_info_length)
+				throw InvalidInput(__FILE__, __LINE__);
+		%g}
 	}
 		
 	unsigned int(32) CRC_32;
-- 
2.43.0


From 6db2acb458dee1e9a9837a8368665556ca0e4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 129/175] fix: a table of a transport stream is read when all
 of it has come

---
 src/mg/media/ts.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index b56b981..ee7b01f 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -257,6 +257,11 @@ protected:
 	virtual void process(Transport_Packet &ts, CBufferRead &payload)
 	{   
 		BaseSection s;
+		size_t begin(0);
+
+		//pointer field, what it skips and the beginning of the section
+		if(payload.size() < 1 || payload.size() < payload.get()[0] + 9u)
+			return;
 
 		payload.SetPosition(0);
 		{
@@ -267,20 +272,23 @@ protected:
 
 		Pointer_Field f;
 		f.get(ms);
+		begin = 1 + f.pointer_field;
 		s.get(ms);
 		}
  
 		
 		if(TABLE_ID == s.table_id || 0xFFFFFFFF == TABLE_ID)
 		{
-			if(s.section_length > payload.size())
+			if(begin + 3 + s.section_length > payload.size())
 				return;
 			//OK we have the full table
 
 			
-			//+1 step over the pointer field
+			//step over the pointer field
 			//the section length must add the first 3 byte not included and exclude the crc ending field
-			_CRC = _crc.crc_32(payload.get() + 1, s.section_length + 3 - 4);
+			if(s.section_length < 4)
+				return;
+			_CRC = _crc.crc_32(payload.get() + begin, s.section_length + 3 - 4);
 
 			payload.SetPosition(0);
 
-- 
2.43.0


From 34a7afb1824435b18647a8dcf098b4a74db11364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 130/175] fix: the network and shared streams in the tables of
 a transport stream

---
 src/mg/media/ts.h      | 6 ++++--
 src/mg/media/tsparse.h | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index ee7b01f..bfe101e 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -347,13 +347,15 @@ public:
 				return true;
 			}
 		}
+
+		return false;
 	}
 
 	bool IsProgramPid(unsigned int pid)
 	{
 		for(uint32_t i = 0; i < _pas.i; i++)
 		{
-			if(_pas.program_map_PID[i] == pid)
+			if(_pas.program_number[i] != 0 && _pas.program_map_PID[i] == pid)
 			{
 				return true;
 			}
@@ -379,7 +381,7 @@ public:
 	{
 		for(uint32_t i = 0; i < _pas.i; i++)
 		{
-			if(_pas.program_map_PID[i] == pid)
+			if(_pas.program_number[i] != 0 && _pas.program_map_PID[i] == pid)
 			{
 				programid = _pas.program_number[i];
 				return true;
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index a3986f5..9261ee4 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -713,9 +713,13 @@ public:
 				{
 					for(uint32_t idx = 0; idx < _pat.Count(); idx++)
 					{
+						if(0 == _pat.GetProgramNumber(idx))
+							continue; //the network, not a program
+
 						uint32_t pid = _pat.GetProgramPid(idx);
 
-						_pmts[pid] = new ProgramMapTable;
+						if(_pmts.find(pid) == _pmts.end())
+							_pmts[pid] = new ProgramMapTable;
 					}
 					
 					return TSPROCESSRESULT::PROCESSED;
@@ -749,6 +753,9 @@ public:
 						uint32_t pid  = iter->second->GetPid(idx);
 						uint32_t type = iter->second->GetType(idx);
 
+						if(_pes.find(pid) != _pes.end())
+							continue; //another program has it too
+
 						ts_pes * ppes = get_ts_pes(type);
 
 						/*
-- 
2.43.0


From a71fccaee8be98014bd6d65d8829c24d4fde096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 131/175] fix: an adaptation field longer than its packet

---
 src/mg/media/ts.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index bfe101e..8f6d397 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -159,6 +159,9 @@ public:
 			_HasAdaptation = (ts.adaptation_flag)?true:false;
 			if(ts.adaptation_flag)
 			{
+				if(ts.adaptation_field->adaptation_field_length > 183)
+					return;
+
 				_Adaptation = *ts.adaptation_field;
 
 				unsigned int size = 183 - ts.adaptation_field->adaptation_field_length;
-- 
2.43.0


From 7b2b901b90bdd8c4f9a41fe0f67e2fc40940bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 132/175] fix: short PES packets at the beginning of a stream
 were thrown away

---
 src/mg/media/ts.h      | 12 +++++++++++-
 src/mg/media/tsparse.h |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 8f6d397..b76c20b 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -845,7 +845,7 @@ protected:
 	{
 		//payload.ByteToRead() + ms.getUnreadBufferSize())
 
-		while(getMinAnalyzePayloadSize() <= payload.size() - ms.get_position())
+		while(getMinAnalyzePayloadSize() + ms.get_position() <= payload.size())
 		{
 			if(IsHim(ms))
 				return true;
@@ -890,6 +890,16 @@ protected:
 	}
 	virtual void Receive(CBufferRead &payload)
 	{
+		if(!_HasStruct)
+		{
+			//it may be too short to have been looked at before
+			uint64_t position = payload.GetPosition();
+			try{UpdateLookUp(payload);}
+			catch(...)
+			{}
+			payload.SetPosition(position);
+		}
+
 		if(_HasStruct)//ONLY THROW AWAY STUFF BEFORE THE FIRST VALID HEADER 
 		{	
 			if(!TSProgramElementaryStream<I>::_receiver_written && TSProgramElementaryStream<I>::HasData())
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index 9261ee4..6a3f561 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -216,7 +216,7 @@ protected:
 	
 	
 	virtual uint64_t getMinAnalyzeSize(){return 30;}
-	virtual size_t getMinAnalyzePayloadSize(){return 15;}
+	virtual size_t getMinAnalyzePayloadSize(){return 9;}
 	
 	virtual void EmptyPayload(PesData & pesdata, CBufferRead &payload)
 	{
-- 
2.43.0


From aa387f4b68a92b35d2bd72ece202d3732ec84e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 133/175] fix: the times of a transport stream which start from
 zero again

---
 src/mg/media/tsinfo.cpp | 58 +++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index b64add0..a8225da 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -187,9 +187,42 @@ protected:
 
 } ;
 
+//the times of all the streams of a transport stream, 
+//which start from zero again after 33 bits
+class TS2MP4Clock
+{
+	uint64_t _last;
+	bool     _started;
+
+	//2^33 ticks of 90000 Hz
+	static uint64_t period() {return 954437176888ULL;}
+
+public:
+
+	TS2MP4Clock(): _last(0), _started(false){}
+
+	uint64_t get(uint64_t time)
+	{
+		if(_started)
+		{
+			while(time + period() / 2 < _last)
+				time += period();
+
+			while(time > _last + period() / 2 && time >= period())
+				time -= period();
+		}
+
+		_started = true;
+		_last    = time;
+
+		return time;
+	}
+};
+
 class TS2MP4H264: public TSProgramElementaryStreamAnalyzeH264
 {
 	MP4Mux & _mux;
+	TS2MP4Clock & _clock;
 	int _stream_idx;
 
 	CBuffer<BYTE> _sps;
@@ -204,13 +237,16 @@ protected:
 
 		if(Packet.HasFirstAdaptation())
 				iframe = (Packet.first_adaptation()->random_access_indicator)?true:false;
+
+		const uint64_t decoding_time    = _clock.get(pesdata.GetDTSTime());
+		const uint64_t composition_time = _clock.get(pesdata.GetTime());
 		
 		_mux.add_sample(_stream_idx
 			, _sample_payload.get()
 			, _sample_payload.size()
 			, iframe
-			, pesdata.GetTime()
-			, pesdata.GetDTSTime()
+			, composition_time
+			, decoding_time
 			, 0);
 
 		_sample_payload.Reset();
@@ -271,7 +307,8 @@ protected:
 	}
 
 public:
-	TS2MP4H264(MP4Mux & mux):_mux(mux)
+	TS2MP4H264(MP4Mux & mux, TS2MP4Clock & clock):_mux(mux)
+		, _clock(clock)
 		, _sps(1024)
 		, _pps(1024)
 		, _stream_idx(-1)
@@ -284,6 +321,7 @@ public:
 class TS2MP4AAC: public TSProgramElementaryStreamAnalyzeAAC
 {
 	MP4Mux & _mux;
+	TS2MP4Clock & _clock;
 	int _stream_idx;
 
 protected:
@@ -306,19 +344,22 @@ protected:
 
 		uint64_t frame_time = 10000000ULL / adts.mpeg_4_sampling_frequency * 1024;
 
+		const uint64_t time = _clock.get(pesdata.GetTime()) + ( frame_time * frame_count );
+
 		_mux.add_sample(_stream_idx
 			, payload.get()
 			, payload.size()
 			, iframe
-			, pesdata.GetTime() + ( frame_time * frame_count )
-			, pesdata.GetTime() + ( frame_time * frame_count )
+			, time
+			, time
 			, frame_time);
 
 		
 	}
 
 public:
-	TS2MP4AAC(MP4Mux & mux):_mux(mux)
+	TS2MP4AAC(MP4Mux & mux, TS2MP4Clock & clock):_mux(mux)
+		, _clock(clock)
 		, _stream_idx(-1)
 	{
 
@@ -330,6 +371,7 @@ public:
 class CTSProcessConsoleMP4: public CTSProcessConsole
 {
 	MP4Mux * _p_mux;
+	TS2MP4Clock _clock;
 
 protected:
 
@@ -356,13 +398,13 @@ protected:
 	{
 		if(STREAM_TYPE_VIDEO_H264 == type)
 		{
-			ts_pes * p = new TS2MP4H264(get_mux());
+			ts_pes * p = new TS2MP4H264(get_mux(), _clock);
 			return p;
 		}
 
 		if(STREAM_TYPE_AUDIO_AAC == type)
 		{
-			ts_pes * p = new TS2MP4AAC(get_mux());
+			ts_pes * p = new TS2MP4AAC(get_mux(), _clock);
 			return p;
 		}
 
-- 
2.43.0


From 7144fa5419b9d7515f59bd57bcea036ff7f95f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 134/175] fix: the listing of a table over several packets of a
 transport stream

---
 src/mg/media/tsinfo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index a8225da..861a4fe 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -143,7 +143,8 @@ protected:
 			if(res == TSPROCESSRESULT::MORE_INPUT)
 			{
 	
-				int size = this->get_pes(pid)->payload_current_size();
+				//a table which is not complete has none
+				int size = IsStream(pid)?this->get_pes(pid)->payload_current_size():0;
 
 				
 				_ost << _T("INFO\tMORE INPUT PID ") << pid 
-- 
2.43.0


From 71c3d42819c2b561bfc5cacd2d5ab0c852d24169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 135/175] fix: a transport stream with pictures before its
 parameter sets

---
 src/mg/media/tsinfo.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 861a4fe..7d2a7ac 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -239,6 +239,13 @@ protected:
 		if(Packet.HasFirstAdaptation())
 				iframe = (Packet.first_adaptation()->random_access_indicator)?true:false;
 
+		//nothing can be shown before the parameter sets
+		if(0 > _stream_idx)
+		{
+			_sample_payload.Reset();
+			return;
+		}
+
 		const uint64_t decoding_time    = _clock.get(pesdata.GetDTSTime());
 		const uint64_t composition_time = _clock.get(pesdata.GetTime());
 		
@@ -270,7 +277,7 @@ protected:
 
 			if(NALTYPE::PICTURE == nal_type)
 			{
-				if(!_pps.size())
+				if(!_pps.size() && _sps.size())
 				{
 					_pps.add(payload.get(), payload.size());
 
@@ -291,10 +298,6 @@ protected:
 			}
 
 
-		 _ASSERTE(_stream_idx >= 0);
-
-		 //_mux.add_sample(
-
 		 BYTE bsize[4];
 			  bsize[0] = payload.size() >> 24 & 0xFF;
 		      bsize[1] = payload.size() >> 16 & 0xFF;
-- 
2.43.0


From c47b8799201537da5ca180caaa0d9b87f90b3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 136/175] fix: a PES packet without a time was given one of
 random bits

---
 src/mg/media/mp4/mpeg2ts.fl | 7 +++++--
 src/mg/media/tsparse.h      | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 49d037e..15e86cb 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -867,8 +867,11 @@ class PesData extends PesBase
 			return bytes;
 		}
 
-		uint64_t GetTime() const {return MpegTime::Time(PTS_32_30, PTS_29_15, PTS_14_0);}
-		uint64_t GetDTSTime() const {return (!DTS_flags)?GetTime():MpegTime::Time(DTS_32_30, DTS_29_15, DTS_14_0);}
+		bool HasFlags() const {return (stream_id != private_stream_2 && stream_id != padding_stream);}
+		bool HasTime() const {return (HasFlags() && PTS_flags);}
+		bool HasDTSTime() const {return (HasTime() && DTS_flags);}
+		uint64_t GetTime() const {return (!HasTime())?0:MpegTime::Time(PTS_32_30, PTS_29_15, PTS_14_0);}
+		uint64_t GetDTSTime() const {return (!HasDTSTime())?GetTime():MpegTime::Time(DTS_32_30, DTS_29_15, DTS_14_0);}
 		bool IsVideo() const {return (stream_id >= 0xE0 && stream_id <= 0xEF);}
 		bool IsAudio() const {return (stream_id >= 0xC0 && stream_id <= 0xDF);}
 	%}
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index 6a3f561..c783cbd 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -100,7 +100,7 @@ public:
 					<< HNS(pesdata.GetTime())
 					<< L"\t";
 
-		if(pesdata.DTS_flags)
+		if(pesdata.HasDTSTime())
 		{
 					std::wcout << HNS(pesdata.GetDTSTime());
 		}
@@ -135,7 +135,7 @@ public:
 					<< std::endl;
 
 
-			if(pesdata.PES_extension_flag)
+			if(pesdata.HasFlags() && pesdata.PES_extension_flag)
 			{
 				std::wcout 
 					<< "\t\t\tPES EXTENSION " 
@@ -304,7 +304,7 @@ public:
 									<< "\t"
 									<< HNS(pesdata.GetTime())
 									<< "\t"
-									<< ( (pesdata.DTS_flags)?HNS(pesdata.GetDTSTime()):_T("--") )
+									<< ( (pesdata.HasDTSTime())?HNS(pesdata.GetDTSTime()):_T("--") )
 									<< "\t"
 									<< _adts.get_body_length()
 									<< "\t"
-- 
2.43.0


From ec57a0ecf44af005f548c2160e5910b767e0f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 137/175] fix: the bits of a reserved trick mode were not
 skipped

---
 src/mg/media/mp4/mpeg2ts.fl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 15e86cb..1149912 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -760,6 +760,9 @@ class PesData extends PesBase
 				bit(1) intra_slice_refresh;
 				bit(2) frequency_truncation;
 			}
+			else {
+				bit(5) reserved_trick_mode;
+			}
 
 			size += 8;
 	}
-- 
2.43.0


From 275634d1cdf5b208656be2514de55ed18f492625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 138/175] fix: audio of a transport stream without a time
 follows what was before

---
 src/mg/media/tsinfo.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 7d2a7ac..4a97668 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -239,8 +239,8 @@ protected:
 		if(Packet.HasFirstAdaptation())
 				iframe = (Packet.first_adaptation()->random_access_indicator)?true:false;
 
-		//nothing can be shown before the parameter sets
-		if(0 > _stream_idx)
+		//nothing can be shown before the parameter sets, or without a time
+		if(0 > _stream_idx || !pesdata.HasTime())
 		{
 			_sample_payload.Reset();
 			return;
@@ -326,6 +326,9 @@ class TS2MP4AAC: public TSProgramElementaryStreamAnalyzeAAC
 {
 	MP4Mux & _mux;
 	TS2MP4Clock & _clock;
+
+	bool     _has_time;
+	uint64_t _next_time;
 	int _stream_idx;
 
 protected:
@@ -348,7 +351,16 @@ protected:
 
 		uint64_t frame_time = 10000000ULL / adts.mpeg_4_sampling_frequency * 1024;
 
-		const uint64_t time = _clock.get(pesdata.GetTime()) + ( frame_time * frame_count );
+		//without a time it follows what was before
+		if(!pesdata.HasTime() && !_has_time)
+			return;
+
+		const uint64_t time = pesdata.HasTime()
+			?_clock.get(pesdata.GetTime()) + ( frame_time * frame_count )
+			:_next_time;
+
+		_has_time  = true;
+		_next_time = time + frame_time;
 
 		_mux.add_sample(_stream_idx
 			, payload.get()
@@ -364,6 +376,8 @@ protected:
 public:
 	TS2MP4AAC(MP4Mux & mux, TS2MP4Clock & clock):_mux(mux)
 		, _clock(clock)
+		, _has_time(false)
+		, _next_time(0)
 		, _stream_idx(-1)
 	{
 
-- 
2.43.0


From 3eaf448a8d582ae8ffd228ee19d3db4f6aaf9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:20 +0000
Subject: [PATCH 139/175] fix: a gap of hours in all streams took hours to
 write

---
 src/mg/media/mp4write.h | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index fa3e875..e3e1842 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1008,7 +1008,20 @@ public:
 		return last_time;
 	}
 
-	
+	///the time of the sample waiting to be written
+	int64_t get_queued_time(bool use_composition = true)
+	{
+		BYTE * p_body(NULL);
+		int body_size(0);
+
+		if(!_sample_queue.size())
+			return INT64_MAX;
+
+		return use_composition
+			?_sample_queue.pick_next(&body_size, &p_body)->composition_time
+			:_sample_queue.pick_next(&body_size, &p_body)->decoding_time;
+	}
+
 	uint64_t get_start_time() const
 	{
 		if(_samples.size())
@@ -2190,8 +2203,23 @@ public:
 				
 					//_ASSERTE(false);
 
-					//retry
-					_max_composition_time_used += _max_composition_time_increment;
+					//retry with the first increment which is enough
+					int64_t next = INT64_MAX;
+
+					for(uint32_t i = 0; i < _streams.size(); i++)
+					{
+						const int64_t queued = _streams[i]->get_queued_time(_use_composition_in_distance);
+
+						if(queued < next)
+							next = queued;
+					}
+
+					const int64_t missing = next - static_cast<int64_t>(_max_composition_time_used + _max_distance);
+
+					if(missing > static_cast<int64_t>(_max_composition_time_increment))
+						_max_composition_time_used += missing / _max_composition_time_increment * _max_composition_time_increment;
+					else
+						_max_composition_time_used += _max_composition_time_increment;
 					
 					w = 0;
 
-- 
2.43.0


From 6ddd40ca7bf270ede72372b9de7c77bcaf70fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 140/175] fix: an ADTS header with a reserved sampling
 frequency divided by zero

---
 src/mg/media/tsinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 4a97668..8e6bffb 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -335,6 +335,10 @@ protected:
 
 	virtual void AACPayload(ADTS &adts, tspacket &Packet, const PesData &pesdata, CBufferRead &payload, int frame_count)
 	{
+		//a reserved sampling frequency
+		if(0 == adts.mpeg_4_sampling_frequency)
+			return;
+
 		int target_bit_rate = payload.size() * (adts.mpeg_4_sampling_frequency / 1024);
 
 		if(-1 == _stream_idx)
-- 
2.43.0


From 9da488fe5e63251bb3c408a7c0877d7feeba9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 141/175] fix: the audio frames of a PES packet drifted from
 each other

---
 src/mg/media/tsinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 8e6bffb..ca1ce20 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -353,7 +353,7 @@ protected:
 	
 		bool iframe = true;
 
-		uint64_t frame_time = 10000000ULL / adts.mpeg_4_sampling_frequency * 1024;
+		uint64_t frame_time = 10000000ULL * 1024 / adts.mpeg_4_sampling_frequency;
 
 		//without a time it follows what was before
 		if(!pesdata.HasTime() && !_has_time)
-- 
2.43.0


From 3c99bb8d3b068a8bdf5a280f7acca68b1627b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 142/175] fix: a PES packet whose beginning was lost was read
 from its middle

---
 src/mg/media/ts.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index b76c20b..20cbca6 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -152,6 +152,8 @@ public:
 			_HasFirstAdaptation = false;
 			_begin_payload_packet_count = _last_packet_count;
 		}
+		else if(!_gotfirst)
+			return; //the beginning of this was lost
 		
 		
 	    if(ts.payload_field)
-- 
2.43.0


From 8d682e04baf202ee99e74bcdcae2fe33d700755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 143/175] fix: a PES packet cut after a start code ended the
 reading of a transport stream

---
 src/mg/media/tsparse.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index c783cbd..8aa7d1c 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -529,6 +529,10 @@ public:
 					break;
 			}
 
+			//what is left is no unit
+			if(!ms.has_bits(32))
+				break;
+
 			if(!ms.atend())
 			{
 
-- 
2.43.0


From 8e09557647c733b07b3eb224d20f7caf1ff2459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 144/175] fix: a damaged table of a transport stream was used

---
 src/mg/media/ts.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 20cbca6..f30617a 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -295,6 +295,12 @@ protected:
 				return;
 			_CRC = _crc.crc_32(payload.get() + begin, s.section_length + 3 - 4);
 
+			//damaged, the next one may be right
+			const BYTE * p_crc = payload.get() + begin + s.section_length + 3 - 4;
+
+			if(_CRC != (static_cast<unsigned int>(p_crc[0]) << 24 | p_crc[1] << 16 | p_crc[2] << 8 | p_crc[3]))
+				return;
+
 			payload.SetPosition(0);
 
 			{		
-- 
2.43.0


From 206486b2f1aec2467db76191272b4fe116af7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 145/175] fix: a transport stream without video had no clock

No PCR was written and the PMT named PID 0 as the one of the clock.
---
 src/mg/media/tsmux.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index 3283cd7..0c3fd59 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -546,7 +546,9 @@ public:
 
 		//_ASSERTE(composition_time >= decoding_time);
 
-
+		//WITHOUT VIDEO THE CLOCK IS THE ONE OF THE FIRST STREAM
+		if(_is_first_sample && -1 == _repeat_pid)
+			set_stream_pcr(0);
 
 		if( _is_first_sample 
 		   || ((!_only_table_at_beginning) && _repeat_pid == stream_id && IFrame)
-- 
2.43.0


From 3fcd2a6acdc83070f4c9814bed537389bda250f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:21 +0000
Subject: [PATCH 146/175] fix: listing a file with a timescale of 0 divided by
 it

---
 src/mgcli/mp4info.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 2b36959..506452b 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -376,7 +376,7 @@ struct moovinfo
 } g_moov_info;
 
 
-uint64_t trun_time_hns(uint64_t time)  {return (1000UL * 10000UL * time) / g_moov_info.mvhd_time_scale ;}
+uint64_t trun_time_hns(uint64_t time)  {return (0 == g_moov_info.mvhd_time_scale)?0:((1000UL * 10000UL * time) / g_moov_info.mvhd_time_scale);}
 
 
 BOX_FUNCTION(moof)
@@ -1140,8 +1140,7 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 			   TrackHeaderBox box;
 			   mp4.parse_track_header_box(box);
 
-			   uint64_t duration = box.get_duration();
-                                    duration = (1000UL * 10000UL * duration) / g_moov_info.mvhd_time_scale;
+			   uint64_t duration = trun_time_hns(box.get_duration());
 
 			   std::wcout 
 				   << _T("version: ")
@@ -1626,8 +1625,7 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 			   for(uint32_t i = 0; i < box.count(); i++)
 			   {
 
-				   uint64_t duration = box.entry(i)._segment_duration;
-                                    duration = (1000UL * 10000UL * duration) / g_moov_info.mvhd_time_scale;
+				   uint64_t duration = trun_time_hns(box.entry(i)._segment_duration);
 
 				   std::wcout 
 					   << box.entry(i)._segment_duration
-- 
2.43.0


From aec519f1e7f9637d087767888d21e796dc2ba109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 147/175] fix: listing H264 units read beyond the sample

---
 src/mgcli/mp4info.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 506452b..b5a1fe2 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -2990,7 +2990,8 @@ int parse_h264_header(  const CAVCCHeader & h
 
 		while(consumed < ms.size)
 		{
-
+			if(h.get_nal_length_size() > (ms.size - consumed))
+				throw InvalidInput(__FILE__, __LINE__);
 
 			unsigned int nal_size(0);
 
@@ -2999,6 +3000,9 @@ int parse_h264_header(  const CAVCCHeader & h
 				nal_size = (nal_size << 8) + psample[x + consumed];
 			}
 
+			if(nal_size > (ms.size - consumed - h.get_nal_length_size()))
+				throw InvalidInput(__FILE__, __LINE__);
+
 			H264Nal nal;
 			sei_message sei;
 			nal.decode_nal(nal_size
@@ -3112,7 +3116,7 @@ int parse_h264_header(  const CAVCCHeader & h
 			}
 
             //nal size prefix
-			consumed += (nal_size + 4);
+			consumed += (nal_size + h.get_nal_length_size());
 
 		}//while
 
-- 
2.43.0


From 166a02e2d8f6036c9576a1a9dbf306ceb457934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 148/175] fix: decryption used a sample description which does
 not fit the sample

---
 src/mgcli/mp4info.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index b5a1fe2..2574850 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -3840,6 +3840,9 @@ int decrypt(CBuffer<unsigned char> & buffer, CBuffer<unsigned char> & decrypt, u
 	unsigned char * pDecrypt = decrypt.get();
 	unsigned char * pSource  = buffer.get();
 
+	if(sample_number >= static_cast<int64_t>(senc._samples.size()))
+		throw InvalidInput(__FILE__, __LINE__);
+
 	unsigned char iv[BLOCK_LEN];
 
 	::memset(iv, 0, BLOCK_LEN);
@@ -3849,6 +3852,10 @@ int decrypt(CBuffer<unsigned char> & buffer, CBuffer<unsigned char> & decrypt, u
 	{
 		for(uint32_t i = 0; i < senc._samples[sample_number]->subsample_count; i++)
 		{
+			if(static_cast<uint64_t>(senc._samples[sample_number]->_sub_samples[i]->BytesOfClearData)
+				+ senc._samples[sample_number]->_sub_samples[i]->BytesOfProtectedData > (size - read))
+				throw InvalidInput(__FILE__, __LINE__);
+
 			if(senc._samples[sample_number]->_sub_samples[i]->BytesOfClearData)
 			{
 				::memcpy(pDecrypt + written, pSource + read
-- 
2.43.0


From f63012eb92beeba5d08aa21b6b54a5478bac2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 149/175] fix: an initialization file without a stream was used

---
 src/mgcli/mp4info.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 2574850..e808ab1 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -3989,6 +3989,9 @@ int do_moof_mux(console_command &c)
 
 		MP4ReaderConsole reader;
 		reader.parse(mp4);
+
+		if(1 != reader.stream_count())
+			ALXTHROW_T(_T("an initialization file must have one stream"));
 		
 		for(size_t k = 0 ; k < reader.stream_count(); k++)
 		{
@@ -4041,7 +4044,9 @@ int do_moof_mux(console_command &c)
 
 	}
 
-	
+	if(astream.size() != scount.size())
+		ALXTHROW_T(_T("an initialization file must have a video or an audio stream"));
+
 	mp4mux.start(c.get_value(_T("output")));
 
 	CBuffer<unsigned char> buffer(1024);
-- 
2.43.0


From 3becb980f6f1b954aaa39260f26167e5d893fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 150/175] fix: listing an unknown sample group used an entry it
 does not have

---
 src/mgcli/mp4info.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index e808ab1..11afe14 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -898,6 +898,9 @@ BOX_FUNCTION(sgpd)
 			}
 		}
 
+		if(NULL == sgpd._seig)
+			continue;
+
 		Cstring kid = ALX::hexformat(&sgpd._seig->KID, 16, 16);
 		
 		std::wcout << _T("constant_IV_size:\t")
-- 
2.43.0


From 7248f30ff73eca76428810d2aa08d212de3e9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 151/175] fix: a missing decoder configuration was used

---
 src/mg/media/mp4edit.cpp | 4 +++-
 src/mgcli/mp4info.cpp    | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index c056cc0..de8a742 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -117,7 +117,9 @@ void CMP4EditBase::do_edit_header_mux( MP4Reader &reader
 				ES_Descriptor es;
 				es.get(mem);
 
-				if(!es.p_decoder_config_descriptor->p_ext->get_length())
+				if(NULL == es.p_decoder_config_descriptor
+					|| NULL == es.p_decoder_config_descriptor->p_ext
+					|| !es.p_decoder_config_descriptor->p_ext->get_length())
 					ALXTHROW_T(_T("no audio decoder configuration"));
 				
 				FixedMemoryBitstream  maac(es.p_decoder_config_descriptor->p_ext->get_descriptor()
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 11afe14..a15a42a 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -1442,7 +1442,12 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 									<< _T(" OCR_Flag: ")
 									<< es.OCR_Flag
 									<< _T(" streamPriority: ")
-									<< es.streamPriority
+									<< es.streamPriority;
+
+							  if(NULL == es.p_decoder_config_descriptor || NULL == es.p_decoder_config_descriptor->p_ext)
+								  throw InvalidInput(__FILE__, __LINE__);
+
+							  std::wcout
 									<< _T(" decoder_config_objectProfileIndication: ")
 									<< es.p_decoder_config_descriptor->objectProfileIndication
 									<< _T(" decoder_config_streamType: ")
-- 
2.43.0


From c82de2544d80c4164fbfddda971fb96766a8f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 152/175] fix: the check of the video index used a stream which
 is not there

---
 src/mgcli/mp4info.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index a15a42a..102473b 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -2360,6 +2360,9 @@ int testvideoindex(CMP4 &mp4)
 
 	uint32_t video_stream(0);
 
+	if(0 == reader.stream_count())
+		return 2;
+
 	uint64_t cn = reader.get_sample_count(video_stream);
 
 	std::wcout << _T("video index check of stream ") << video_stream << std::endl;
-- 
2.43.0


From 41864960bd3e4909a33f98a6e084c202656c910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 153/175] fix: the entries of an unknown sample group were
 counted for ever

---
 src/mg/media/mp4/cenc.fl | 2 ++
 src/mgcli/mp4info.cpp    | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/cenc.fl b/src/mg/media/mp4/cenc.fl
index ce85cf6..2cb060e 100644
--- a/src/mg/media/mp4/cenc.fl
+++ b/src/mg/media/mp4/cenc.fl
@@ -474,6 +474,8 @@ aligned(8) class SampleGroupDescriptionBox extends FullBox
 
 	for (i = 1 ; i <= entry_count ; i++)
 	{
+		%g{if(0x73656967 != grouping_type) break; //not known%g}
+
 		if (version==1)
 		{
 			if (default_length==0) 
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 102473b..339373c 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -899,7 +899,7 @@ BOX_FUNCTION(sgpd)
 		}
 
 		if(NULL == sgpd._seig)
-			continue;
+			break;
 
 		Cstring kid = ALX::hexformat(&sgpd._seig->KID, 16, 16);
 		
-- 
2.43.0


From 3868503976b48925c351243fa7a37760b8acddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 154/175] fix: a unit longer than its sample was written into a
 transport stream

---
 src/mg/media/tsmux.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index 0c3fd59..3141012 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -138,6 +138,9 @@ class TSMuxH264Stream:public TSMuxStream
 	{
 		unsigned int nal_size(0);
 
+		if(_nal_lengthSize > body_size)
+			throw InvalidInput(__FILE__, __LINE__);
+
 		uint32_t x(0);
 
 		for(x = 0; x < _nal_lengthSize; x++)
@@ -145,7 +148,8 @@ class TSMuxH264Stream:public TSMuxStream
 			nal_size = (nal_size << 8) + body[x];
 		}
 
-		_ASSERTE(nal_size <= body_size);
+		if(nal_size > (body_size - _nal_lengthSize))
+			throw InvalidInput(__FILE__, __LINE__);
 		
 		CTSWriteMemory * m = &_header;
 
-- 
2.43.0


From db40ed92ced21c57b33fbc3cf6625387ccdeddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 155/175] fix: a fragment without samples used its first sample

---
 src/mg/media/mp4fragmented.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 8478939..77ab62e 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -428,6 +428,9 @@ public:
 		                  
             mp4w.write_child_box(box_STYP, ftyp);
 
+            if(0 == _trun.get_sample_count())
+                throw InvalidInput(__FILE__, __LINE__);
+
             uint64_t sidx_referenced_size_position = mp4w.get_position();
                      sidx_referenced_size_position += (12 + 16 + 4);
 
-- 
2.43.0


From 46e50ea2cec850e014f2d5f1d2a51e5655f31f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 156/175] fix: writing the smallest time overflowed

---
 src/mg/media/hnano.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/hnano.h b/src/mg/media/hnano.h
index c501262..3e47685 100644
--- a/src/mg/media/hnano.h
+++ b/src/mg/media/hnano.h
@@ -112,14 +112,14 @@ public:
 inline Cstring hns(const int64_t x)
 {
 	Cstring t(_T(""));
-	int64_t p = 1;
+	uint64_t p = static_cast<uint64_t>(x);
 	if(0 > x)
 	{
 		t += _T("-");
-		p = -1;
+		p = 0 - p;
 	}
 
-	HundredNano h(x * p);
+	HundredNano h(p);
 	t += h.ToString();
 	return t;
 }
-- 
2.43.0


From 0cc987b3891a2465f5a18546436808ec2cfd2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 157/175] fix: segments shorter than an audio sample were made
 for ever

---
 src/mg/media/mp4dynamic.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 4c2fa64..ca2646d 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -315,11 +315,15 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	
 
-	_ASSERTE(_fragment_length > d);
+	if(0 == d)
+		throw InvalidInput(__FILE__, __LINE__);
 
 	//TODO: allow to use a predefined duration 
 	//for old file with invalid audio duration
 	uint64_t jump = _fragment_length / d;
+
+	if(0 == jump) //a sample is longer than a fragment
+		jump = 1;
 	
 	uint64_t composition(reader.get_decoding_time(p, stream));
 
-- 
2.43.0


From 0e04888bc644cf3e69321b808bbbb47e97a56df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 158/175] fix: a run without samples had an unset number of
 samples

---
 src/mg/media/mp4/mp4_fragments.fl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 2154f06..e654340 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -125,6 +125,7 @@ private:
 public:
 
       TrackRunBox():_duration(0)
+      , sample_count(0)
       {}
 
       uint64_t get_duration(){return _duration;}
-- 
2.43.0


From 28d283b7c134b75a5a7e766da837f71471bf32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:02 +0000
Subject: [PATCH 159/175] fix: a protection header which could not be read
 freed data it did not have

---
 src/mg/media/mp4/cenc.fl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/media/mp4/cenc.fl b/src/mg/media/mp4/cenc.fl
index 2cb060e..0b6924a 100644
--- a/src/mg/media/mp4/cenc.fl
+++ b/src/mg/media/mp4/cenc.fl
@@ -290,6 +290,8 @@ aligned(8) class ProtectionSystemSpecificHeaderBox extends FullBox
 %{
 	  unsigned char *  _p_data;
 	  
+	  ProtectionSystemSpecificHeaderBox():_p_data(NULL){}
+
 	  ~ProtectionSystemSpecificHeaderBox()
 	  {
 		delete[] _p_data;
-- 
2.43.0


From 4fe11e216ff30e52f7683651a25505abbd6fba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:02 +0000
Subject: [PATCH 160/175] fix: the simulation of decoding times used a sample
 which is not there

---
 src/mgcli/mp4info.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 339373c..15b1f5a 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -2633,6 +2633,9 @@ int simulate_auto_decoding(uint64_t start, uint64_t end
 	{
 		work = reader.next_file_chunks(ms);
 
+		if(!work)
+			break;
+
 		if(-1 < stream 
 			&& stream != ms.stream
 			&& work)
-- 
2.43.0


From cfb3281a5eb188a6274ca3c859c31462df8cd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:08 +0000
Subject: [PATCH 161/175] fix: a time of a fragment out of range was converted
 to an undefined value

---
 src/mgcli/mp4info.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 15b1f5a..e5c9637 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -3821,7 +3821,13 @@ double normalize_time(double t, double time_base)
 
 uint64_t normalize_time(uint64_t t, uint64_t time_base)
 {
-	return static_cast<uint64_t>(normalize_time(static_cast<double>(t), static_cast<double>(time_base)));
+	//the times are signed, a composition time can precede zero
+	double n = normalize_time(static_cast<double>(static_cast<int64_t>(t)), static_cast<double>(time_base));
+
+	if(!(n > -9.2e18 && n < 9.2e18))
+		throw InvalidInput(__FILE__, __LINE__);
+
+	return static_cast<uint64_t>(static_cast<int64_t>(n));
 }
 
 void counter(unsigned char *cbuf)
-- 
2.43.0


From 8a779937cea634f700d738f349a562775df381ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:13 +0000
Subject: [PATCH 162/175] fix: analyze took what follows an aspect ratio at the
 end of a sample entry for a part of it

---
 src/mgcli/mp4info.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index e5c9637..1cbf638 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -1310,7 +1310,6 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 						  {
 							  CleanApertureBox clap;
 							  mp4.parse_clap_box(clap);
-							  mp4.parse_box(config_box);
 
 							  std::wcout 
 								  << _T("CLAP BOX") 
@@ -1321,7 +1320,6 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 						  {
 							  PixelAspectRatioBox pasp;
 							  mp4.parse_pasp_box(pasp);
-							  mp4.parse_box(config_box);
 
 							  std::wcout 
 								  << _T("PASP BOX ")
-- 
2.43.0


From 89ef16429f6bba4683773681542d41f6a82e1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 163/175] fix: analyze took the rest of an audio sample entry
 for the next entry

---
 src/mgcli/mp4info.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 1cbf638..2a61c17 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -1519,6 +1519,10 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
                    std::wcout << _T("Unknown handler type ") << sample_box.get_type_string() << std::endl;
                    return 12;
                }
+
+				   //the boxes of the entry which were not read
+				   if(mp4.get_position() < sample_pos_end)
+					   mp4.set_position(sample_pos_end);
 		   }//for
 		   }//command
 		   else if(command == _T("btrt"))
-- 
2.43.0


From deab0e7fd0d6a625c024219c4d5254b93859cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:35 +0000
Subject: [PATCH 164/175] fix: analyze took the entries of an unknown sample
 group for boxes

---
 src/mgcli/mp4info.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 2a61c17..996ad71 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -887,6 +887,9 @@ BOX_FUNCTION(sgpd)
 
 	std::wcout << std::endl;
 
+	//the entries of other groups are not read
+	if(NULL == sgpd._seig && mp4.get_position() < mp4.get_box_position_end())
+		mp4.set_position(mp4.get_box_position_end());
 
 	for (uint32_t i = 1 ; i <= sgpd.entry_count ; i++)
 	{
-- 
2.43.0


From f574baeb0f5c50d38f2585e060ae86c8ae7f6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:33 +0000
Subject: [PATCH 165/175] fix: the end of a fragment which crosses from one
 file to the next was that of another one

---
 src/mg/media/mp4dynamicinfo.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 4746fe5..2a68c31 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -321,8 +321,17 @@ public:
         std::set<int64_t>::const_iterator ifilecross1 = _file_cross.upper_bound(comp);
         std::set<int64_t>::const_iterator ifilecross2 = _file_cross.upper_bound(iter->first);
 
+		if(CROSS_POINT_TIME == orig)
+		{
+			//the fragment ends in the second file
+			const CrossPoint & cp = get_cross_point(comp);
+
+			return cp.composition_2 + (iter->first - static_cast<int64_t>(cp.computed_time_2));
+		}
+
 		//if(orig > iter->second //changed file
         if(ifilecross1 != ifilecross2 //changed file
+			|| CROSS_POINT_TIME == iter->second //the next fragment starts in this file
 			) 
 		{
 			//return INT64_MAX; //get all file to the end
-- 
2.43.0


From db77387cc1de3344095f36a861ec8393ff4012fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:33 +0000
Subject: [PATCH 166/175] fix: a file shorter than the rest of a fragment
 stopped the packaging

---
 src/mg/media/mp4dynamic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index ca2646d..d73f6b5 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -378,8 +378,13 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 				
 		
 		
+		_reporting_start_time = UINT64_MAX;
+
 		p += fill_jump;
 
+		if(p >= reader.get_sample_count(stream)) //the file ends inside of the fragment
+			return;
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
@@ -430,6 +435,9 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 									 );
 
 				_reporting_start_time += off;
+
+				if(_reporting_start_time >= end) //nothing of it is asked for
+					_reporting_start_time = UINT64_MAX;
 				
 				//p = reader.get_sample_count(stream); //get off
 				return;
-- 
2.43.0


From 7bacf84cacba1195571147d59281998168965bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:38 +0000
Subject: [PATCH 167/175] fix: pictures at the very end of a file were not
 packaged

---
 src/mg/media/mp4dynamic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index d73f6b5..f5b064a 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -244,7 +244,7 @@ void CMP4Dynamic::Add(/*MP4File*/CMP4 & mp4, MP4Reader & reader, uint64_t start,
 
 	if (0 == _current_end)
 	{
-		_current_end = reader.get_duration();
+		_current_end = UINT64_MAX; //to the end of the file
 	}
 
 	if (0 == _info.file_count)
-- 
2.43.0


From 23b616e09cb08d8f56052b8fc8ff6a903b0fae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:06 +0000
Subject: [PATCH 168/175] fix: the value of the option -0 went to another
 unknown option

---
 src/mg/cmdline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index f9a9e5c..d6853bb 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -484,7 +484,7 @@ public:
 
 					if(add)
 					{
-						console_item item = {type_string, false, _T("unclussified parameter"), '0'};
+						console_item item = {type_string, false, _T("unclussified parameter"), 0x0};
 						_commands[name] = item;
 					}
 				}				
-- 
2.43.0


From 234fce8e8934826deea4ecd7d4519aa31ff91d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:28 +0000
Subject: [PATCH 169/175] fix: the headers of a movie cut its duration to 32
 bits

---
 src/mg/media/mp4write.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index e3e1842..ab38cb5 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -702,6 +702,11 @@ protected:
 			return;
 
 		EditListBox elst;
+
+		if(UINT32_MAX < time_scale(_stream_offset, _mvhd_time_scale)
+			|| UINT32_MAX < time_scale(get_duration(), _mvhd_time_scale))
+					elst.set_version(1);
+
 		            elst.add_item(
 						  time_scale(_stream_offset, _mvhd_time_scale)
 						, -1
@@ -1130,7 +1135,12 @@ public:
 		
 		//box.set_duration(get_duration() / 10000ULL);
 
-		box.set_duration(time_scale(get_duration(), _mvhd_time_scale) + time_scale(_stream_offset, _mvhd_time_scale));
+		const uint64_t track_duration = time_scale(get_duration(), _mvhd_time_scale) + time_scale(_stream_offset, _mvhd_time_scale);
+
+		if(UINT32_MAX < track_duration)
+			box.set_version(1);
+
+		box.set_duration(track_duration);
 
 		fill_track_header(box);
 
@@ -1144,6 +1154,9 @@ public:
 
 				 mdhd.set_creation_time(MP4NOW());
 		         mdhd.set_modification_time(MP4NOW());
+				 if(UINT32_MAX < time_scale(get_duration()))
+					 mdhd.set_version(1);
+
 				 fill_media_header(mdhd);
 
 				 mp4w.write_child_box(box_mdhd, mdhd);
@@ -2292,6 +2305,9 @@ public:
 		//_mvhd.set_duration(max_duration() / time_scale );
 		//_mvhd.set_timescale(1000);
 
+		if(UINT32_MAX < CMP4Stream::time_scale(max_duration(), time_scale))
+			_mvhd.set_version(1);
+
 		_mvhd.set_duration(CMP4Stream::time_scale(max_duration(), time_scale));
 
 		_mvhd.set_next_track_ID(_first_track_id + _streams.size() + 1);
-- 
2.43.0


From c5c4010f5c4a0fef1581c335ded78442cfbf1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:28 +0000
Subject: [PATCH 170/175] fix: the index of a DASH segment cut its time to 32
 bits

---
 src/mg/media/mp4fragmented.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 77ab62e..e030d10 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -435,12 +435,18 @@ public:
                      sidx_referenced_size_position += (12 + 16 + 4);
 
             SegmentIndexBox sidx;
+
+            const uint64_t earliest_time = _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime;
+
+            if(UINT32_MAX < earliest_time)
+            {
+                            sidx.set_version(1);
+                            sidx_referenced_size_position += 8; //time and offset are 64 bit
+            }
                             
                             sidx.reference_ID = _tfhd.track_ID;
                             sidx.timescale = U64_ST(_timescale);//1000UL * 10000UL;
-                            sidx.set_earliest_presentation_time(
-                                    _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime
-                            );
+                            sidx.set_earliest_presentation_time(earliest_time);
                             
                             sidx.set_first_offset(0);
 
-- 
2.43.0


From 69096149f870fe8b9b263e6219f70ccecbf5efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:04 +0000
Subject: [PATCH 171/175] fix: a cut of intra pictures shown later than decoded
 lost its first one

---
 src/mg/media/mp4parse.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 4593738..52e5f71 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1315,6 +1315,19 @@ public:
 		 _sample_2I_frame.get(get_decoding_sample_number(time), IFrame_number);
 		 //_sample_2I_frame.get(get_composition_sample_number(time), IFrame_number);
 
+		 //what is shown at that time is decoded earlier
+		 while(has_composition_time() && 0 < IFrame_number && get_composition_time(IFrame_number) > time)
+		 {
+			 uint64_t previous(0);
+
+			 _sample_2I_frame.get(IFrame_number - 1, previous);
+
+			 if(previous >= IFrame_number)
+				 break;
+
+			 IFrame_number = previous;
+		 }
+
 		 return IFrame_number;
 	  }
 
-- 
2.43.0


From b6dec2502510498f1c824a243aa00eb516abab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:07 +0000
Subject: [PATCH 172/175] fix: the list of boxes stopped at the first track
 which is neither audio nor video

---
 src/mgcli/mp4info.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 996ad71..daf00e7 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -1520,7 +1520,6 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
                else
                {
                    std::wcout << _T("Unknown handler type ") << sample_box.get_type_string() << std::endl;
-                   return 12;
                }
 
 				   //the boxes of the entry which were not read
-- 
2.43.0


From bd261e8a1214ad9b268b8345bfb89c5f4a52deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:07 +0000
Subject: [PATCH 173/175] fix: the samples of a movie with a track of text
 could not be listed

---
 src/mgcli/mp4info.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index daf00e7..39f4904 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -2809,6 +2809,11 @@ int pick_samples(uint64_t start, uint64_t end
 
 	for(uint32_t i = 0; i < streams.size(); i++)
 	{
+		streams[i] = true;
+
+		if(!reader.IsValidStream(i))
+			continue;
+
 		std::wcout << i
 			<< _T(") offset: ")
 			<< HNS(reader.get_stream_offset(i))
@@ -2833,8 +2838,6 @@ int pick_samples(uint64_t start, uint64_t end
 			<< _T("}")
 			*/
 			<< std::endl;
-
-		streams[i] = true;
 	}
 
 	if(0 < start)
-- 
2.43.0


From d5a4c60a1550bc8a86435d7734d457c8e54434e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:56 +0000
Subject: [PATCH 174/175] fix: the duration of the fragments was announced in
 another timescale

---
 src/mg/media/mp4fragmented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index e030d10..7701002 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -766,7 +766,7 @@ public:
 					output_stream.open_box(box_MVEX);
 
 						MovieExtendsHeaderBox mehd;
-											  mehd.set_fragment_duration(duration);
+											  mehd.set_fragment_duration(CMP4Stream::nearest_time_scale(duration, time_scale));
 
 											  output_stream.write_child_box(box_MEHD, mehd);
 
-- 
2.43.0


From 17066027f85f0bcaf52afa4954f71c2720e0863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:24 +0000
Subject: [PATCH 175/175] fix: the duration of the fragments was cut to 32 bits
 in the initialization segment

---
 src/mg/media/mp4fragmented.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 7701002..9aa5cbd 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -766,6 +766,7 @@ public:
 					output_stream.open_box(box_MVEX);
 
 						MovieExtendsHeaderBox mehd;
+											  mehd.set_version(1);
 											  mehd.set_fragment_duration(CMP4Stream::nearest_time_scale(duration, time_scale));
 
 											  output_stream.write_child_box(box_MEHD, mehd);
-- 
2.43.0

