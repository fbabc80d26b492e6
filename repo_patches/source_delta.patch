From 10fa33defc2b4175c835da0d9eba13083fa000f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 01/41] fix: IndexSet::indicesDo never ends if a range ends at
 UINTMAX_MAX

---
 src/IndexSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 07a87cc..4d2eb4a 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -152,10 +152,12 @@ bool IndexSet::extentsDo(const std::function<bool(uintmax_t fromIndex, uintmax_t
 bool IndexSet::indicesDo(const std::function<bool(uintmax_t eachIndex)> &each_f) const
 {
 	return extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) {
-		for(uintmax_t eachIndex = fromIndex; eachIndex <= toIndex; eachIndex++)
+		for(uintmax_t eachIndex = fromIndex; ; eachIndex++)
 		{
 			if(not each_f(eachIndex))
 				return false;
+			if(eachIndex == toIndex)
+				break; // test here because toIndex can be UINTMAX_MAX
 		}
 		return true;
 	});
-- 
2.43.0


From 2dce39de40cc7473d049f619f12f92725f3871a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 02/41] fix: IndexSet::remove of a set from itself used freed
 memory

---
 src/IndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 4d2eb4a..30593bc 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -270,6 +270,9 @@ void IndexSet::remove(uintmax_t anIndex)
 
 void IndexSet::remove(const IndexSet& other)
 {
+	if(&other == this)
+		return clear(); // can't modify our own ranges while iterating them
+
 	other.extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) { remove(fromIndex, toIndex); return true; });
 }
 
-- 
2.43.0


From 8a2dc926a73cf3146e2e81535f11ce6efbc3ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 03/41] fix: List use after free adding a value that is in the
 list, and endless append to itself

---
 include/rtmfp/List.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/rtmfp/List.hpp b/include/rtmfp/List.hpp
index 9ff8e72..46f85ff 100644
--- a/include/rtmfp/List.hpp
+++ b/include/rtmfp/List.hpp
@@ -5,6 +5,7 @@
 
 // inspired by MObjList from amicima
 
+#include <utility>
 #include <vector>
 
 #if __cpp_exceptions
@@ -326,8 +327,14 @@ template <class T> void List<T>::clear()
 
 template <class T> void List<T>::appendValuesFrom(const List<T>& other)
 {
+	const long lastName = other.last(); // don't follow what we append if other is this
+
 	for(long name = other.first(); name > SENTINEL; name = other.next(name))
+	{
 		append(other.at(name));
+		if(name == lastName)
+			break;
+	}
 }
 
 template <class T> bool List<T>::valuesDo(const std::function<bool(T& value)> &pred)
@@ -438,8 +445,9 @@ template <class T> long List<T>::basicAddBeforeOrAfter(long name, bool after)
 
 template <class T> long List<T>::addValueBeforeOrAfter(const T& val, long name, bool after)
 {
+	T tmp(val); // val might refer to one of our own nodes, which can move
 	long rv = basicAddBeforeOrAfter(name, after);
-	at(rv) = val;
+	at(rv) = std::move(tmp);
 	return rv;
 }
 
@@ -469,7 +477,7 @@ template <class T> size_t SumList<T>::sum() const
 template <class T> long SumList<T>::addValueBeforeOrAfter(const T& val, long name, bool after)
 {
 	long rv = List<T>::addValueBeforeOrAfter(val, name, after);
-	m_sum += m_size_f(val);
+	m_sum += m_size_f(this->at(rv)); // val might refer to one of our own nodes, which can have moved
 	return rv;
 }
 
-- 
2.43.0


From 34508344aa0bfd4fa555816c960933709cb064db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 04/41] fix: Timer rescheduled then canceled in its own action
 never let go of the action

---
 src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 0a2d79a..4b202b1 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -128,7 +128,7 @@ void Timer::basicFire(const std::shared_ptr<Timer> &myself, Time now)
 		action(myself, now);
 	m_firing = false;
 
-	if(doesRecur() or m_rescheduled)
+	if((doesRecur() or m_rescheduled) and not isCanceled())
 	{
 		if(not m_rescheduled)
 		{
-- 
2.43.0


From df981778668f77a8ac80460b85d8d39f8fac8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:06 +0000
Subject: [PATCH 05/41] fix: Timers cleared from a TimerList kept a dangling
 pointer to it

---
 src/Timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 4b202b1..b955a05 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -244,6 +244,8 @@ void TimerList::removeTimer(const std::shared_ptr<Timer> &timer)
 
 void TimerList::clear()
 {
+	for(auto it = m_timers.begin(); it != m_timers.end(); it++)
+		(*it)->setTimerList(nullptr); // others may still hold the timer after this list is gone
 	m_timers.clear();
 }
 
-- 
2.43.0


From 0a786ae6c1966a9d6254e89359a4b742e0593d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 06/41] fix: URIParse overflowed the stack on long URIs, and
 split nothing with a line break or an empty port

---
 src/URIParse.cpp | 87 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 31 deletions(-)

diff --git a/src/URIParse.cpp b/src/URIParse.cpp
index a3a201a..2ba7c2a 100644
--- a/src/URIParse.cpp
+++ b/src/URIParse.cpp
@@ -1,16 +1,20 @@
 // Copyright © 2022 Michael Thornburgh
 // SPDX-License-Identifier: MIT
 
+#include <algorithm>
 #include <cctype>
 #include <cstring>
 
-#include <regex>
-
 #include "../include/rtmfp/Hex.hpp"
 #include "../include/rtmfp/URIParse.hpp"
 
 namespace com { namespace zenomt {
 
+static bool isAsciiAlpha(char ch)
+{
+	return ((ch >= 'a') and (ch <= 'z')) or ((ch >= 'A') and (ch <= 'Z'));
+}
+
 URIParse::URIParse(const std::string &uri_)
 {
 	parse(uri_);
@@ -20,36 +24,57 @@ void URIParse::parse(const std::string &uri_)
 {
 	uri = uri_;
 
-	std::smatch parts;
-	std::regex_match(uri_, parts, std::regex("^(([a-zA-Z][^:/?#]*):)?([^?#]*)?(\\?([^#]*))?(#(.*))?"));
-	schemePart = parts[1];
-	scheme = parts[2];
+	// RFC 3986 Appendix B, without using std::regex (its "." doesn't match
+	// line terminators, and its recursion overflows the stack on long strings).
+	size_t cursor = uri.find_first_of(":/?#");
+	if((std::string::npos != cursor) and (':' == uri[cursor]) and cursor and isAsciiAlpha(uri[0]))
+	{
+		scheme = uri.substr(0, cursor);
+		schemePart = uri.substr(0, ++cursor);
+	}
+	else
+	{
+		scheme = schemePart = "";
+		cursor = 0;
+	}
 	canonicalScheme = lowercase(scheme);
-	hierpart = parts[3];
-	queryPart = parts[4];
-	query = parts[5];
-	fragmentPart = parts[6];
-	fragment = parts[7];
-
-	std::smatch hierparts;
-	std::regex_match(hierpart, hierparts, std::regex("^(//([^/]*))?(.*)"));
-	authorityPart = hierparts[1];
-	authority = hierparts[2];
-	path = hierparts[3];
-
-	std::smatch authparts;
-	std::regex_match(authority, authparts, std::regex("^((([^:@]*)(:([^@]*))?)@)?(.*)"));
-	userinfoPart = authparts[1];
-	userinfo = authparts[2];
-	user = authparts[3];
-	passwordPart = authparts[4];
-	password = authparts[5];
-	hostinfo = authparts[6];
-
-	std::smatch hostparts;
-	std::regex_match(hostinfo, hostparts, std::regex("^((\\[([^\\]]*)?\\]))?([^:]*)?(:([0-9]+))?"));
-	host = std::string(hostparts[3]).empty() ? hostparts[4] : hostparts[3];
-	port = hostparts[6];
+
+	const size_t fragmentPos = std::min(uri.find('#', cursor), uri.size());
+	const size_t queryPos = std::min(uri.find('?', cursor), fragmentPos);
+	hierpart = uri.substr(cursor, queryPos - cursor);
+	queryPart = uri.substr(queryPos, fragmentPos - queryPos);
+	query = queryPart.substr(queryPart.empty() ? 0 : 1);
+	fragmentPart = uri.substr(fragmentPos);
+	fragment = fragmentPart.substr(fragmentPart.empty() ? 0 : 1);
+
+	size_t pathPos = 0;
+	if(0 == hierpart.compare(0, 2, "//"))
+		pathPos = std::min(hierpart.find('/', 2), hierpart.size());
+	authorityPart = hierpart.substr(0, pathPos);
+	authority = authorityPart.substr(authorityPart.empty() ? 0 : 2);
+	path = hierpart.substr(pathPos);
+
+	userinfoPart = authority.substr(0, authority.find('@') + 1); // empty if no "@"
+	userinfo = userinfoPart.substr(0, userinfoPart.size() - (userinfoPart.empty() ? 0 : 1));
+	user = userinfo.substr(0, userinfo.find(':'));
+	passwordPart = userinfo.substr(user.size());
+	password = passwordPart.substr(passwordPart.empty() ? 0 : 1);
+	hostinfo = authority.substr(userinfoPart.size());
+
+	host = "";
+	cursor = 0;
+	const size_t closePos = hostinfo.find(']');
+	if((0 == hostinfo.compare(0, 1, "[")) and (std::string::npos != closePos))
+	{
+		host = hostinfo.substr(1, closePos - 1);
+		cursor = closePos + 1;
+	}
+	const size_t colonPos = std::min(hostinfo.find(':', cursor), hostinfo.size());
+	if(host.empty())
+		host = hostinfo.substr(cursor, colonPos - cursor);
+	port = hostinfo.substr(std::min(colonPos + 1, hostinfo.size()));
+	if(std::string::npos != port.find_first_not_of("0123456789"))
+		host = port = ""; // malformed
 	effectivePort = port;
 
 	if((not scheme.empty()) and not hostinfo.empty())
-- 
2.43.0


From 3d9e7dbd84a3a7e804105ec81868fc10f0f3d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 07/41] fix: Address::setFromPresentation took ports out of
 range modulo 65536

---
 src/Address.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Address.cpp b/src/Address.cpp
index 256a347..96f1c6a 100644
--- a/src/Address.cpp
+++ b/src/Address.cpp
@@ -342,7 +342,7 @@ static size_t _count_colons(const char *src)
 bool Address::setFromPresentation(const char *src, bool withPort)
 {
 	char ip[45+1]; // INET6_ADDRSTRLEN is 46, explicit here to match sscanf use below
-	int port = 0;
+	long port = 0;
 	int family = _count_colons(src) > 1 ? AF_INET6 : AF_INET;
 
 	if(withPort)
@@ -351,14 +351,17 @@ bool Address::setFromPresentation(const char *src, bool withPort)
 		// conversions specify a maximum field width that fits in the destination
 		// array including the terminating NUL.
 
-		if(2 != sscanf(src, "[%45[0-9a-fA-F:.]]:%d", ip, &port))
+		if(2 != sscanf(src, "[%45[0-9a-fA-F:.]]:%ld", ip, &port))
 		{
 			if(AF_INET6 == family)
 				return false;
 
-			if(2 != sscanf(src, "%45[0-9.]:%d", ip, &port))
+			if(2 != sscanf(src, "%45[0-9.]:%ld", ip, &port))
 				return false;
 		}
+
+		if((port < 0) or (port > 65535))
+			return false;
 	}
 	else
 	{
-- 
2.43.0


From e093ac99aa04682618872e041b112d5efc7a15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 08/41] fix: ReorderBuffer flushed through an uninitialized
 sequence number

---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From 04d81005517f2fd7e17e29555531fed1f2291b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 09/41] fix: ReorderBuffer used its map and callback after
 onMessage closed, flushed or released it

---
 src/ReorderBuffer.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9e79aa5..d2a4898 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -113,8 +113,9 @@ void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t
 {
 	uintmax_t lastSequenceNumber = _lastSN(sequenceNumber, fragmentCount);
 
-	if(onMessage)
-		onMessage(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
+	auto onMessage_f = onMessage; // in case it calls close()
+	if(onMessage_f)
+		onMessage_f(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
 
 	m_csn = std::max(m_csn, lastSequenceNumber);
 	m_deliveredThrough = std::max(m_deliveredThrough, lastSequenceNumber);
@@ -122,6 +123,7 @@ void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t
 
 void ReorderBuffer::tryDeliver()
 {
+	auto myself = share_ref(this); // a callback could release us
 	Time now = getCurrentTime();
 	findCSN(now); // advance m_csn for old messages
 	
@@ -130,16 +132,15 @@ void ReorderBuffer::tryDeliver()
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // before delivering, which can call back to here or close()
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
+			findCSN(now); // also trim delivered ones from m_messagesByTime
 		}
 		else
 			break;
 	}
 
-	findCSN(now); // also trim delivered ones from m_messagesByTime
-
 	scheduleDelivery();
 
 	assert(m_messagesBySequence.empty() == m_messagesByTime.empty());
-- 
2.43.0


From 20d839990faea089cdba917973bdf9b890eeccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 10/41] fix: FlowSyncManager sign-extended counts of 2^31 and
 more

---
 src/FlowSyncManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FlowSyncManager.cpp b/src/FlowSyncManager.cpp
index 0d8c2e0..4e49699 100644
--- a/src/FlowSyncManager.cpp
+++ b/src/FlowSyncManager.cpp
@@ -89,8 +89,8 @@ size_t FlowSyncManager::parseUserCommandPayload(const uint8_t *payload, const ui
 	if((limit - payload) < 8)
 		return 0;
 
-	syncID = (payload[0] << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
-	count = (payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
+	syncID = (uint32_t(payload[0]) << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
+	count = (uint32_t(payload[4]) << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
 
 	return 8;
 }
-- 
2.43.0


From 145becc730387f5f9b3f5182e4ebe4059fb0b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 11/41] fix: receipts of a SendFlow closed before its session
 opened never finished

---
 include/rtmfp/rtmfp.hpp |  1 +
 src/SendFlow.cpp        | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index f0c8e3d..ee5e7fc 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -298,6 +298,7 @@ protected:
 	void ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo);
 	void onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t cumulativeAck, const uint8_t *disjointed, const uint8_t *limit);
 	void onExceptionReport(uintmax_t exceptionCode);
+	void abandonSendQueue();
 	void setPersistTimer();
 	void onPersistTimer(const std::shared_ptr<Timer> &sender, Time now);
 	void onLoss(size_t amount);
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..8f2835f 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -196,6 +196,9 @@ void SendFlow::close()
 		gotoStateClosed();
 
 	m_rtmfp->sendFlowIsNotOpening(myself);
+
+	if((F_CLOSED == m_state) and not m_exception)
+		abandonSendQueue(); // nothing will ever be sent or acknowledged
 }
 
 Priority SendFlow::getPriority() const
@@ -624,11 +627,19 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	if(exception_f)
 		exception_f(exceptionCode);
 
-	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	abandonSendQueue();
 
 	release();
 }
 
+void SendFlow::abandonSendQueue()
+{
+	std::vector<std::shared_ptr<IssuerWriteReceipt> > receipts; // callbacks might change the queue
+	m_send_queue.valuesDo([&receipts] (std::shared_ptr<SendFrag> &frag) { receipts.push_back(frag->m_receipt); return true; });
+	for(auto it = receipts.begin(); it != receipts.end(); it++)
+		(*it)->abandon();
+}
+
 void SendFlow::setPersistTimer()
 {
 	if(m_persistTimer)
-- 
2.43.0


From e2c1f1630fd60b054ce2e7f5e02f28197f1241a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 12/41] fix: SendFlow::setPriority used a null session if data
 was queued before it opened

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 8f2835f..7478434 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -330,7 +330,7 @@ void SendFlow::doWritable()
 
 void SendFlow::scheduleForTransmission()
 {
-	if(isMaybeReadyForTransmission())
+	if(m_session and (Session::S_OPEN == m_session->m_state) and isMaybeReadyForTransmission())
 		m_session->scheduleFlowForTransmission(share_ref(this), m_priority);
 }
 
-- 
2.43.0


From 926d27831ca36630c1fb7ed6c9108cf7aa5ff83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 13/41] fix: glare with two sessions opening to one peer
 aborted neither, and replaced the open session a second later

---
 src/RTMFP.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9a54dae..7e5f807 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -351,13 +351,19 @@ std::shared_ptr<Session> RTMFP::makeSession(std::shared_ptr<SessionCryptoKey> ke
 
 std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr)
 {
+	std::shared_ptr<Session> rv;
 	for(long name = m_openingSessions.first(); name > m_openingSessions.SENTINEL; name = m_openingSessions.next(name))
 	{
 		auto &each = m_openingSessions.at(name);
 		if(each->isOpeningToAddress(addr))
-			return each;
+		{
+			if(Session::S_KEYING_SENT == each->m_state)
+				return each; // this is the one that matters for glare
+			if(not rv)
+				rv = each;
+		}
 	}
-	return std::shared_ptr<Session> (nullptr);
+	return rv;
 }
 
 std::shared_ptr<Session> RTMFP::findOpeningSessionByEPD(const Bytes &epd, const Session *exclude)
-- 
2.43.0


From e101ea5a053c9ab8f78bd7e2f3470f8d91ea92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:26 +0000
Subject: [PATCH 14/41] fix: receiver was never told to skip abandoned
 fragments trimmed while everything after them was in flight

---
 src/SendFlow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 7478434..15e611c 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -349,6 +349,8 @@ void SendFlow::trimSendQueue(Time now)
 	{
 		if(m_send_queue.size() < 2)
 			break;
+		if(m_send_queue.lastValue()->m_ever_sent)
+			break; // nothing that's sure to be sent later would tell the receiver to skip this one
 		auto &first = m_send_queue.firstValue();
 		if(first->m_in_flight)
 			break;
-- 
2.43.0


From 7c69a194892a420643ae83f4d6a4da1215bafaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 15/41] fix: opening flows for other peers were moved to a
 session about to open, and sent their data to the wrong peer

---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 15e611c..b51fa66 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -293,6 +293,7 @@ void SendFlow::onSessionWillOpen(std::shared_ptr<Session> session)
 	if(  (m_openingSession)
 	 and (session != m_openingSession)
 	 and (Session::S_IHELLO_SENT == m_openingSession->m_state)
+	 and (session->m_cryptoCert->isSelectedByEPD(m_epd.data(), m_epd.size()))
 	)
 	{
 		std::shared_ptr<Session> previousSession = m_openingSession;
-- 
2.43.0


From 4c762e3ff0fe7fd6c13dc96d6ae2d1b1389df2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 16/41] fix: glare with an opening session to another peer at
 that address made an endpoint ignore keying requests

---
 include/rtmfp/rtmfp.hpp |  2 +-
 src/RTMFP.cpp           | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index ee5e7fc..9438840 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -120,7 +120,7 @@ protected:
 	CookieCheck checkCookie(const uint8_t *cookie, size_t cookieLen, const struct sockaddr *addr) const;
 	void sendCookieChange(uint32_t sessionID, const uint8_t *cookie, size_t cookieLen, int interfaceID, const struct sockaddr *addr);
 	std::shared_ptr<Session> makeSession(std::shared_ptr<SessionCryptoKey>, unsigned role);
-	std::shared_ptr<Session> findOpeningSessionByAddress(const Address &addr);
+	std::shared_ptr<Session> findGlareSession(const Address &addr, const std::shared_ptr<CryptoCert> &farCert);
 	std::shared_ptr<Session> findOpeningSessionByEPD(const Bytes &epd, const Session *exclude);
 	std::shared_ptr<Session> findOpeningSessionByTag(const Bytes &epd);
 	std::shared_ptr<Session> findOpenSessionByAddress(const Address &addr);
diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 7e5f807..8ca48ac 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -349,7 +349,7 @@ std::shared_ptr<Session> RTMFP::makeSession(std::shared_ptr<SessionCryptoKey> ke
 	return rv;
 }
 
-std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr)
+std::shared_ptr<Session> RTMFP::findGlareSession(const Address &addr, const std::shared_ptr<CryptoCert> &farCert)
 {
 	std::shared_ptr<Session> rv;
 	for(long name = m_openingSessions.first(); name > m_openingSessions.SENTINEL; name = m_openingSessions.next(name))
@@ -357,9 +357,13 @@ std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr)
 		auto &each = m_openingSessions.at(name);
 		if(each->isOpeningToAddress(addr))
 		{
+			// it's only glare if our opening session is (or could be) to the peer with this certificate.
 			if(Session::S_KEYING_SENT == each->m_state)
-				return each; // this is the one that matters for glare
-			if(not rv)
+			{
+				if(farCert->doesCertOverrideSession(each->m_cryptoCert))
+					return each; // this is the one that matters for glare
+			}
+			else if((not rv) and farCert->isSelectedByEPD(each->m_epd.data(), each->m_epd.size()))
 				rv = each;
 		}
 	}
@@ -667,17 +671,16 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 						overrideSession->abort(); // this session is (hopefully) stale
 					}
 
-					auto glareSession = myself->findOpeningSessionByAddress(state->m_addr);
+					auto glareSession = myself->findGlareSession(state->m_addr, state->m_cryptoCert);
 					bool abortGlareSession = false;
 					if(glareSession)
 					{
 						if(myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert))
 							return; // ignore this IIKeying.
-							// TODO: should we check that glareSession's epd is selected by IIKeying's cert too?
 
 						// they win. per RFC 7016 §3.5.1.3 abort our opening session if the IIKeying cert
 						// overrides the opening session cert, which we only know in S_KEYING_SENT.
-						if((Session::S_KEYING_SENT == glareSession->m_state) and state->m_cryptoCert->doesCertOverrideSession(glareSession->m_cryptoCert))
+						if(Session::S_KEYING_SENT == glareSession->m_state)
 							abortGlareSession = true; // we'll wait until after the new session opens so waiting flows can bind to it
 					}
 
-- 
2.43.0


From 873647de638d8cacc6439cd980559161b264662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 17/41] fix: glare went unnoticed if the session opened while a
 keying request was being verified, and was replaced

---
 src/RTMFP.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 8ca48ac..5b0e991 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -639,6 +639,10 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 	if(tryRIKeyingRetransmit(state->m_interfaceID, state->m_addr, state->m_isid, state->m_skic))
 		return;
 
+	// our opening session might be open (and so no longer look like glare) by the time the crypto is done
+	if(findGlareSession(addr, cryptoCert) and m_crypto->checkNearWinsGlare(cryptoCert))
+		return;
+
 	if(m_waitingPerformCount >= MAX_WAITING_PERFORM_COUNT)
 		return; // we're too busy for this right now
 
-- 
2.43.0


From 0ce6026dad55f484b39dbb4fbac3e6a1375fa26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 18/41] fix: connect received fragments only within a message

---
 src/RecvFlow.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..06b07e1 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -299,14 +299,16 @@ long RecvFlow::insertFragment(uintmax_t sequenceNumber, uint8_t flags, const uin
 	if((USERDATA_FRA_BEGIN != fra) and ((prevName = m_recv_buffer.prev(name)) > 0))
 	{
 		auto prevFragment = m_recv_buffer.at(prevName);
-		if(prevFragment->m_sequence_number == sequenceNumber - 1)
+		bool prevContinues = (USERDATA_FRA_BEGIN == prevFragment->m_fra) or (USERDATA_FRA_MIDDLE == prevFragment->m_fra);
+		if(prevContinues and (prevFragment->m_sequence_number == sequenceNumber - 1))
 			fragment->m_segmentStart = prevFragment->m_segmentStart;
 	}
 
 	if((USERDATA_FRA_END != fra) and ((nextName = m_recv_buffer.next(name)) > 0))
 	{
 		auto nextFragment = m_recv_buffer.at(nextName);
-		if(nextFragment->m_sequence_number == sequenceNumber + 1)
+		bool nextContinues = (USERDATA_FRA_MIDDLE == nextFragment->m_fra) or (USERDATA_FRA_END == nextFragment->m_fra);
+		if(nextContinues and (nextFragment->m_sequence_number == sequenceNumber + 1))
 			fragment->m_segmentEnd = nextFragment->m_segmentEnd;
 	}
 
-- 
2.43.0


From 2faedffa0f20de7d43e9a82ca31b30ace6c4b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 19/41] fix: a sending flow could be destroyed while being told
 its session closed

---
 src/SendFlow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index b51fa66..8744b10 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -307,6 +307,7 @@ void SendFlow::onSessionDidClose(std::shared_ptr<Session> session)
 {
 	if((m_session == session) or ((not m_session) and (m_openingSession == session)))
 	{
+		auto myself = share_ref(this); // closing might release the last reference
 		onExceptionReport(0);
 		m_send_queue.clear();
 	}
-- 
2.43.0


From cfb085de880fcfa2ac52c936d1848208c6b3ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 20/41] fix: a callback that closed its own flow was destroyed
 while running

---
 include/rtmfp/rtmfp.hpp | 16 ++++++++++++++++
 src/Flow.cpp            | 14 +++++++++++++-
 src/RecvFlow.cpp        | 15 ++++++++++-----
 src/SendFlow.cpp        | 13 ++++++++++---
 src/Session.cpp         |  6 ++----
 5 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index 9438840..b2a0482 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -223,10 +223,24 @@ protected:
 	Flow() = delete;
 
 	std::shared_ptr<SendFlow> basicOpenFlow(const Bytes &metadata, RecvFlow *assoc, Priority pri);
+	void farAddressDidChange();
+
+	// A callback can close its flow, but must not be destroyed while it is running.
+	virtual void clearCallbacks();
+	template <class T> void runCallback(const T &callback_f)
+	{
+		bool wasInCallback = m_inCallback;
+		m_inCallback = true;
+		callback_f();
+		m_inCallback = wasInCallback;
+		if((not m_inCallback) and not m_base_isOpen)
+			clearCallbacks();
+	}
 
 	RTMFP *m_rtmfp; // weak ref
 	std::shared_ptr<Session> m_session;
 	bool m_base_isOpen;
+	bool m_inCallback { false };
 };
 
 class SendFlow : public Flow {
@@ -283,6 +297,7 @@ protected:
 	SendFlow(RTMFP *rtmfp, const Bytes &epd, const Bytes &metadata, RecvFlow *assoc, Priority pri);
 	~SendFlow();
 
+	void clearCallbacks() override;
 	std::shared_ptr<WriteReceipt> basicWrite(const void *message, size_t len, Duration startWithin, Duration finishWithin);
 	void onSessionDidOpen(std::shared_ptr<SendFlow> myself, std::shared_ptr<Session> session);
 	void onSessionWillOpen(std::shared_ptr<Session> session);
@@ -375,6 +390,7 @@ protected:
 	RecvFlow(std::shared_ptr<Session> session, uintmax_t flowID, const uint8_t *metadata, size_t metadataLen, std::shared_ptr<SendFlow> associatedFlow);
 	~RecvFlow();
 
+	void clearCallbacks() override;
 	void abort();
 	void closeAndNotify(bool error);
 	void onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, const uint8_t *data, size_t len);
diff --git a/src/Flow.cpp b/src/Flow.cpp
index 5c4462b..7f8d584 100644
--- a/src/Flow.cpp
+++ b/src/Flow.cpp
@@ -32,7 +32,8 @@ bool Flow::isOpen() const
 void Flow::close()
 {
 	m_base_isOpen = false;
-	onFarAddressDidChange = nullptr;
+	if(not m_inCallback) // otherwise when the callback returns
+		clearCallbacks();
 }
 
 void Flow::closeSession()
@@ -198,6 +199,17 @@ Duration Flow::getSessionCongestionDelay() const
 
 // ---
 
+void Flow::clearCallbacks()
+{
+	onFarAddressDidChange = nullptr;
+}
+
+void Flow::farAddressDidChange()
+{
+	if(m_base_isOpen and onFarAddressDidChange)
+		runCallback([this] { onFarAddressDidChange(); });
+}
+
 std::shared_ptr<SendFlow> Flow::basicOpenFlow(const Bytes &metadata, RecvFlow *assoc, Priority pri)
 {
 	std::shared_ptr<SendFlow> rv;
diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 06b07e1..1929822 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -80,9 +80,7 @@ void RecvFlow::close()
 
 	m_recv_buffer.clear();
 
-	onMessage = nullptr;
 	onComplete = nullptr;
-	onCumulativeAckDidMerge = nullptr;
 
 	Flow::close();
 
@@ -176,6 +174,13 @@ std::shared_ptr<SendFlow> RecvFlow::openReturnFlow(const Bytes &metadata, Priori
 
 // ---
 
+void RecvFlow::clearCallbacks()
+{
+	onMessage = nullptr;
+	onCumulativeAckDidMerge = nullptr;
+	Flow::clearCallbacks();
+}
+
 void RecvFlow::abort()
 {
 	closeAndNotify(true);
@@ -264,7 +269,7 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 		 and (preCSN < getCumulativeAckSequenceNumber())
 		 and onCumulativeAckDidMerge
 		)
-			onCumulativeAckDidMerge();
+			runCallback([this] { onCumulativeAckDidMerge(); });
 	}
 
 	if(RF_OPEN != m_state)
@@ -339,7 +344,7 @@ void RecvFlow::deliverMessage(long start)
 	if(USERDATA_FRA_WHOLE == fragment->m_fra)
 	{
 		if(onMessage)
-			onMessage(fragment->m_data.data(), fragment->m_data.size(), sequenceNumber, 1);
+			runCallback([&] { onMessage(fragment->m_data.data(), fragment->m_data.size(), sequenceNumber, 1); });
 		m_recv_buffer.remove(start);
 		return;
 	}
@@ -375,7 +380,7 @@ void RecvFlow::deliverMessage(long start)
 	}
 
 	if(onMessage)
-		onMessage(buf.data(), len, sequenceNumber, fragmentCount);
+		runCallback([&] { onMessage(buf.data(), len, sequenceNumber, fragmentCount); });
 }
 
 void RecvFlow::tryDelivery(long hint)
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 8744b10..20feae9 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -168,7 +168,6 @@ void SendFlow::close()
 {
 	auto myself = share_ref(this);
 
-	onWritable = nullptr;
 	onException = nullptr;
 	onRecvFlow = nullptr;
 
@@ -217,6 +216,12 @@ void SendFlow::setPriority(Priority pri)
 
 // ---
 
+void SendFlow::clearCallbacks()
+{
+	onWritable = nullptr;
+	Flow::clearCallbacks();
+}
+
 std::shared_ptr<WriteReceipt> SendFlow::basicWrite(const void *message, size_t len, Duration startWithin, Duration finishWithin)
 {
 	Time now = m_rtmfp->getCurrentTime();
@@ -326,8 +331,10 @@ void SendFlow::queueWritableNotify()
 void SendFlow::doWritable()
 {
 	m_writablePending = false;
-	while(m_shouldNotifyWhenWritable and isWritable())
-		m_shouldNotifyWhenWritable = onWritable ? onWritable() : false;
+	runCallback([this] {
+		while(m_shouldNotifyWhenWritable and isWritable())
+			m_shouldNotifyWhenWritable = onWritable ? onWritable() : false;
+	});
 }
 
 void SendFlow::scheduleForTransmission()
diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..3cf9700 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1462,16 +1462,14 @@ void Session::onMobilityCheckReply(const uint8_t *chunk, const uint8_t *limit, u
 	rescheduleTransmission();
 
 	m_sendFlows.safeValuesDo([] (std::shared_ptr<SendFlow> flow) {
-		if(flow->onFarAddressDidChange)
-			flow->onFarAddressDidChange();
+		flow->farAddressDidChange();
 		return true;
 	});
 
 	auto recvFlowsCopy = m_recvFlows;
 	for(auto it = recvFlowsCopy.begin(); it != recvFlowsCopy.end(); it++)
 	{
-		if(it->second->onFarAddressDidChange)
-			it->second->onFarAddressDidChange();
+		it->second->farAddressDidChange();
 	}
 }
 
-- 
2.43.0


From 0a7472c2f12d856d35ecbe2f6d75d7d6ecc48f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 21/41] fix: a flow opened in a callback of a closing session
 was bound to that session

---
 src/RTMFP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 5b0e991..d235d08 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<SendFlow> RTMFP::openFlow(const Bytes &epd, const Bytes &metadat
 
 	rv = share_ref(new SendFlow(this, epd, metadata, nullptr, pri), false);
 	auto session = findOpenSessionByEPD(epd);
-	if(session)
+	if(session and (Session::S_OPEN == session->m_state)) // its flows might be being told it's closing
 	{
 		rv->onSessionDidOpen(rv, session);
 		return rv;
-- 
2.43.0


From a8ffe52a0d768a1f8281ef7d53f2423332f97ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:41 +0000
Subject: [PATCH 22/41] fix: a receipt callback that wrote or closed left the
 send queue iteration dangling

---
 src/SendFlow.cpp | 18 +++++++++++-------
 src/Session.cpp  | 11 +++++++++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 20feae9..e6d21b2 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -360,7 +360,7 @@ void SendFlow::trimSendQueue(Time now)
 			break;
 		if(m_send_queue.lastValue()->m_ever_sent)
 			break; // nothing that's sure to be sent later would tell the receiver to skip this one
-		auto &first = m_send_queue.firstValue();
+		auto first = m_send_queue.firstValue(); // receipt callbacks might change the queue
 		if(first->m_in_flight)
 			break;
 		first->m_receipt->abandonIfNeeded(now);
@@ -390,7 +390,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue();
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -412,6 +412,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 
 	Time now = m_rtmfp->getCurrentTime();
 	trimSendQueue(now);
+	if(not m_session)
+		return false; // a receipt callback might have closed the session
 	uintmax_t fsn = findForwardSequenceNumber(now);
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
@@ -442,7 +444,7 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name);
 		if(frag->m_in_flight)
 			continue;
 
@@ -451,6 +453,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if(not m_session)
+			return false; // a receipt callback might have closed the session
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
@@ -531,7 +535,7 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 	{
 		long next = m_send_queue.next(name);
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name);
 
 		if(frag->m_sequence_number < ackFrom)
 		{
@@ -550,11 +554,11 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
-		frag->m_receipt->useCountDown();
-
 		m_send_queue.remove(name);
 
-		name = next;
+		frag->m_receipt->useCountDown();
+
+		name = m_session ? next : -1; // a receipt callback might have closed the session
 	}
 }
 
diff --git a/src/Session.cpp b/src/Session.cpp
index 3cf9700..1a84541 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1505,7 +1505,13 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 			List<std::shared_ptr<SendFlow> > &flows = m_readyFlows[priority];
 			while(not flows.empty())
 			{
-				if(flows.firstValue()->assembleData(&packet, priority))
+				auto flow = flows.firstValue();
+				bool didAssemble = flow->assembleData(&packet, priority);
+
+				if(S_OPEN != m_state)
+					return false; // a receipt callback might have closed the session
+
+				if(didAssemble)
 				{
 					flows.moveNameToTail(flows.first());
 					m_next_tsn++;
@@ -2057,7 +2063,8 @@ void Session::onAckChunk(uint8_t mode, uint8_t chunkType, const uint8_t *chunk,
 		else
 			bufferBytesAvailable = bufferBlocksAvailable * 1024;
 
-		m_sendFlows.at((long)flowID)->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
+		auto flow = m_sendFlows.at((long)flowID); // it might be closed by a receipt callback
+		flow->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
 		m_any_acks = true;
 		m_keepalive_outstanding = false;
 		m_retransmit_deadline_epoch = INFINITY;
-- 
2.43.0


From 4e80b6c4e4e40cc7892bbdc34c1bec4bff8bc8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:03 +0000
Subject: [PATCH 23/41] fix: a write scheduled by a callback at a priority
 already passed over was never sent

---
 src/Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interface.cpp b/src/Interface.cpp
index 4e7864a..6f2bc9a 100644
--- a/src/Interface.cpp
+++ b/src/Interface.cpp
@@ -32,6 +32,10 @@ bool Interface::onWritable()
 		}
 	}
 
+	for(int pri = PRI_HIGHEST; pri >= PRI_LOWEST; pri--)
+		if(m_sessions[pri].first())
+			return true; // scheduled during the pass above at a priority already passed over
+
 	m_writeScheduled = false;
 	return false;
 }
-- 
2.43.0


From 88ec5dbb17c50a1e77324faa951389fad60e813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 24/41] fix: a flow closed in the receipt callback of its last
 message never told the receiver

---
 src/SendFlow.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index e6d21b2..a5614f9 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -448,14 +448,13 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_in_flight)
 			continue;
 
-		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
-
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
 		if(not m_session)
 			return false; // a receipt callback might have closed the session
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
+		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0; // a receipt callback might have closed the flow
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
 		// the ABN flag set and no data), so the receiver can potentially save an RTT
-- 
2.43.0


From d6ee9a398aa2f736862ffc89bf46640714212a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:11 +0000
Subject: [PATCH 25/41] fix: keepalives stopped for good if a probe was
 answered while blocked data was outstanding

---
 src/Session.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Session.cpp b/src/Session.cpp
index 1a84541..8a14226 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1060,6 +1060,8 @@ void Session::onTimeoutAlarm()
 
 		if(m_keepalive_outstanding)
 			sendKeepalivePing();
+		else if(not m_keepalive_timer)
+			setKeepaliveAlarm(); // retransmission might be blocked, so there might not be another timeout
 	}
 }
 
-- 
2.43.0


From 2d3f51b0740ccaeb2777b830631bb76f6115818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 26/41] fix: FlashCryptoKey ignores a repeated or unacceptable
 responder keying component

Combining a second time after success recomputed the keys and nonces from
the erased shared secret, and a component that failed part way left its
negotiation flags behind for the genuine one.
---
 src/FlashCryptoAdapter.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..e510beb 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -732,23 +732,31 @@ bool FlashCryptoKey::generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert
 
 bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *responderComponent, size_t len)
 {
+	if(m_complete)
+		return false; // already combined; don't disturb the agreed keys and nonces
+
 	const uint8_t *componentLimit = responderComponent + len;
 
+	// this component might be bogus, so don't change what we negotiate until it's accepted
+	bool sseqSendAlways = m_sseqSendAlways;
+	bool sseqRecvRequired = m_sseqRecvRequired;
+	bool hmacSendAlways = m_hmacSendAlways;
+	bool hmacRecvRequired = m_hmacRecvRequired;
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-	if(not negotiateFlags(sseqFlags, m_sseqSendAlways, m_sseqRecvRequired))
+	if(not negotiateFlags(sseqFlags, sseqSendAlways, sseqRecvRequired))
 		return false;
 
 	uintmax_t hmacRxLen = 0; // an illegal value if receive is required
 	uint8_t hmacFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_HMAC_NEGOTIATION, &hmacRxLen);
-	if(not negotiateFlags(hmacFlags, m_hmacSendAlways, m_hmacRecvRequired))
+	if(not negotiateFlags(hmacFlags, hmacSendAlways, hmacRecvRequired))
 		return false;
-	if(m_hmacRecvRequired)
+	if(hmacRecvRequired)
 	{
 		if((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH))
 			return false;
-		m_rxHMACLength = hmacRxLen;
 	}
 
 	if(m_publicKeyNeeded)
@@ -769,6 +777,12 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	}
 	// else we already computed the DH shared secret from a public key in their certificate
 
+	m_sseqSendAlways = sseqSendAlways;
+	m_sseqRecvRequired = sseqRecvRequired;
+	m_hmacSendAlways = hmacSendAlways;
+	m_hmacRecvRequired = hmacRecvRequired;
+	m_rxHMACLength = hmacRxLen;
+
 	// this should always succeeed unless something terrible is happening
 	if(not computeKeysAndNonces(m_sknc.data(), m_sknc.size(), responderComponent, len))
 		return false;
-- 
2.43.0


From e6e28e143773e9142a4372a074f46c5cb60ed70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 27/41] fix: EPollRunLoop reports hangups and errors as
 readiness, like SelectRunLoop

End of file on a pipe with no data raises only EPOLLHUP, and an error only
EPOLLERR: no action was called and the loop spun.
---
 src/EPollRunLoop.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/EPollRunLoop.cpp b/src/EPollRunLoop.cpp
index 083bfb6..08a7340 100644
--- a/src/EPollRunLoop.cpp
+++ b/src/EPollRunLoop.cpp
@@ -152,9 +152,10 @@ void EPollRunLoop::run(Duration runInterval, Duration minSleep)
 			for(int x = 0; x < rv; x++)
 			{
 				Descriptor *descriptor = (Descriptor *)events[x].data.ptr;
-				if(events[x].events & EPOLLIN)
+				// hangups and errors are always reported, and make a descriptor ready like for select()
+				if(events[x].events & (EPOLLIN | EPOLLHUP | EPOLLERR))
 					activatedReads.push(descriptor->m_items[READABLE]);
-				if(events[x].events & EPOLLOUT)
+				if(events[x].events & (EPOLLOUT | EPOLLERR))
 					activatedWrites.push(descriptor->m_items[WRITABLE]);
 				if(events[x].events & EPOLLERR)
 					activatedExceptions.push(descriptor->m_items[EXCEPTION]);
-- 
2.43.0


From 10fcd58969f214f92e85b60705e20ca7011e471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 28/41] fix: closing a Performer no longer leaves a waiting
 perform() blocked forever

close() discarded pending items without telling threads waiting for them, and
raced with perform() in other threads over the run loop, pipe and queue.
---
 src/Performer.cpp | 51 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/Performer.cpp b/src/Performer.cpp
index b0e7f7e..162613f 100644
--- a/src/Performer.cpp
+++ b/src/Performer.cpp
@@ -32,6 +32,11 @@ struct Performer::Item {
 	{
 		if(m_task)
 			m_task();
+		complete();
+	}
+
+	void complete()
+	{
 		if(m_cond)
 		{
 			std::unique_lock<std::mutex> locked(*m_mutex);
@@ -68,26 +73,34 @@ Performer::~Performer()
 
 void Performer::close()
 {
-	if(not m_closed)
 	{
+		std::unique_lock<std::mutex> locked(m_mutex); // no perform() is using the run loop or the pipe now or will from now on
+		if(m_closed)
+			return;
 		m_closed = true;
+	}
 
-		if(m_runLoop)
-			m_runLoop->unregisterDescriptor(m_pipe[READ_PIPE_IDX]);
-		m_runLoop = nullptr;
-		::close(m_pipe[READ_PIPE_IDX]);
-		::close(m_pipe[WRITE_PIPE_IDX]);
+	if(m_runLoop)
+		m_runLoop->unregisterDescriptor(m_pipe[READ_PIPE_IDX]);
+	m_runLoop = nullptr;
+	::close(m_pipe[READ_PIPE_IDX]);
+	::close(m_pipe[WRITE_PIPE_IDX]);
 
-		fireItems();
-	}
+	fireItems();
 }
 
 void Performer::perform(const Task &task, bool wait)
 {
-	if(m_closed)
-		return;
+	bool isLoopThread = false;
+	if(wait)
+	{
+		std::unique_lock<std::mutex> locked(m_mutex);
+		if(m_closed)
+			return;
+		isLoopThread = m_runLoop->isRunningInThisThread();
+	}
 
-	if(wait and m_runLoop->isRunningInThisThread())
+	if(isLoopThread)
 	{
 		fireItems();
 		if(task)
@@ -98,14 +111,16 @@ void Performer::perform(const Task &task, bool wait)
 	std::shared_ptr<Item> item = std::make_shared<Item>(task, wait);
 	{
 		std::unique_lock<std::mutex> locked(m_mutex);
+		if(m_closed)
+			return;
 		m_items.push(item);
-	}
 
-	if(not m_signaled)
-	{
-		uint8_t buf[1] {};
-		m_signaled = true;
-		(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		if(not m_signaled)
+		{
+			uint8_t buf[1] {};
+			m_signaled = true;
+			(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		}
 	}
 
 	if(wait)
@@ -140,6 +155,8 @@ void Performer::fireItems()
 
 		if(not m_closed)
 			each->fire();
+		else
+			each->complete(); // discarded, but someone might be waiting
 	}
 }
 
-- 
2.43.0


From 8a63e6f8e7bbc8916930b1c30ef9ae2529a19cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 29/41] fix: a response with a NaN transaction ID answered
 another transaction

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..6aaaddb 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -300,7 +300,7 @@ bool TCConnection::basicTransact(const Handler &onResult, const std::string &com
 void TCConnection::onTransactionResponse(bool success, double transactionID, const Args &args)
 {
 	auto it = m_transactions.find(transactionID);
-	if(it != m_transactions.end())
+	if((it != m_transactions.end()) and (it->first == transactionID)) // NaN is unordered and would find the first transaction
 	{
 		Handler handler;
 		swap(handler, it->second);
-- 
2.43.0


From 18f386cd40f5bc3135c13c83692b4fe78aca4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 30/41] fix: createStream answered a stream that could never
 open when the command was not queued

---
 src/TCConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 6aaaddb..d6bc8b6 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -90,7 +90,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 
 	auto netStream = share_ref(new TCStream(share_ref(this)), false);
 
-	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
+	bool queued = basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
 		 and (result->doubleValue() > 0)
@@ -110,7 +110,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 		}
 	}, "createStream", { AMF0::Null() });
 
-	return netStream;
+	return queued ? netStream : nullptr;
 }
 
 std::shared_ptr<AMF0> TCConnection::firstArg(const Args &args)
-- 
2.43.0


From 65906766f6a82213f0087a8f2a1fe47eb359508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:00 +0000
Subject: [PATCH 31/41] fix: a TC callback that closed its connection or
 deleted its stream was destroyed while running

---
 src/TCConnection.cpp | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index d6bc8b6..19a192d 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -205,28 +205,39 @@ void TCConnection::onControlCommand(const std::string &command, double transacti
 		onTransactionResponse(command == "_result", transactionID, args);
 	else if(command == "onStatus")
 		onControlStatusMessage(safeFirstArg(args));
-	else if(onCommand)
-		onCommand(command, args);
+	else
+	{
+		auto onCommand_f = onCommand; // in case it calls close()
+		if(onCommand_f)
+			onCommand_f(command, args);
+	}
 }
 
 void TCConnection::onControlStatusMessage(std::shared_ptr<AMF0> info)
 {
-	if(onStatus)
-		onStatus(info);
+	auto onStatus_f = onStatus; // in case it calls close()
+	if(onStatus_f)
+		onStatus_f(info);
 }
 
 void TCConnection::onStreamCommand(uint32_t streamID, const std::string &command, const Args &args)
 {
 	auto it = m_netStreams.find(streamID);
 	if(it != m_netStreams.end())
-		it->second->onCommandMessage(command, args);
+	{
+		auto stream = it->second; // in case it's deleted from a callback
+		stream->onCommandMessage(command, args);
+	}
 }
 
 void TCConnection::onStreamMessage(uint32_t streamID, uint8_t messageType, uint32_t timestamp, const uint8_t *payload, size_t len)
 {
 	auto it = m_netStreams.find(streamID);
 	if(it != m_netStreams.end())
-		it->second->onStreamMessage(messageType, timestamp, payload, len);
+	{
+		auto stream = it->second; // in case it's deleted from a callback
+		stream->onStreamMessage(messageType, timestamp, payload, len);
+	}
 }
 
 void TCConnection::onUserControlMessage(const uint8_t *payload, size_t len)
@@ -495,23 +506,24 @@ void TCStream::onCommandMessage(const std::string &command, const Args &args)
 {
 	if(command == "onStatus")
 	{
-		if(onStatus)
-			onStatus(TCConnection::safeFirstArg(args));
+		auto onStatus_f = onStatus; // in case it calls deleteStream()
+		if(onStatus_f)
+			onStatus_f(TCConnection::safeFirstArg(args));
 	}
 }
 
 void TCStream::onStreamMessage(uint8_t messageType, uint32_t timestamp, const uint8_t *payload, size_t len)
 {
+	std::function<void(uint32_t timestamp, const uint8_t *bytes, size_t len)> onMedia_f; // in case it calls deleteStream()
+
 	switch(messageType)
 	{
 	case TCMSG_AUDIO:
-		if(onAudio)
-			onAudio(timestamp, payload, len);
+		onMedia_f = onAudio;
 		break;
 
 	case TCMSG_VIDEO:
-		if(onVideo)
-			onVideo(timestamp, payload, len);
+		onMedia_f = onVideo;
 		break;
 
 	case TCMSG_DATA_EX:
@@ -522,6 +534,9 @@ void TCStream::onStreamMessage(uint8_t messageType, uint32_t timestamp, const ui
 	default:
 		break;
 	}
+
+	if(onMedia_f)
+		onMedia_f(timestamp, payload, len);
 }
 
 void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint8_t *payload, size_t len)
@@ -545,8 +560,9 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 				printf("  %s\n", (*it)->repr().c_str());
 		}
 
-		if(onData)
-			onData(timestamp, command->stringValue(), args);
+		auto onData_f = onData; // in case it calls deleteStream()
+		if(onData_f)
+			onData_f(timestamp, command->stringValue(), args);
 	}
 }
 
@@ -609,8 +625,9 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		if(m_userOpen)
 		{
 			m_sessionOptFlow = m_controlSend->openFlow({});
-			if(onTransportOpen)
-				onTransportOpen();
+			auto onTransportOpen_f = onTransportOpen; // in case it calls close()
+			if(onTransportOpen_f)
+				onTransportOpen_f();
 		}
 		return false;
 	};
-- 
2.43.0


From d14c8dd850a2472301e7f12bd86cb889a009d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:31 +0000
Subject: [PATCH 32/41] fix: TCStream::send ignored the timestamp

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 19a192d..d0603fa 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -431,7 +431,7 @@ std::shared_ptr<WriteReceipt> TCStream::send(uint32_t timestamp, const std::stri
 	Bytes msg;
 	AMF0String(command).encode(msg);
 	AMF0::encode(args, msg);
-	return m_owner->write(m_streamID, TCMSG_DATA, 0, msg, INFINITY, INFINITY);
+	return m_owner->write(m_streamID, TCMSG_DATA, timestamp, msg, INFINITY, INFINITY);
 }
 
 std::shared_ptr<WriteReceipt> TCStream::sendAudio(uint32_t timestamp, const void *bytes, size_t len, Duration startWithin, Duration finishWithin)
-- 
2.43.0


From 9573b47ba96a15e6f93f77ef34961f51db3d6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:23 +0000
Subject: [PATCH 33/41] fix: a created stream ID between 0 and 1 became stream
 0, which aborted on close

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index d0603fa..41128c5 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -93,7 +93,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	bool queued = basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1.0)
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0


From f9c7e3bb086c964714905b21e54e6fc0504f5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:17 +0000
Subject: [PATCH 34/41] fix: an empty DATA_EX message was read past its end

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 41128c5..e659956 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -544,7 +544,7 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
-	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
+	if((TCMSG_DATA_EX == messageType) and ((0 == len) or (0 != *cursor++)))
 		return; // only format 0 is defined
 
 	auto command = AMF0::decode(&cursor, limit);
-- 
2.43.0


From 94cb2ffd9cd815b3c451c69781d000bc100f223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:11 +0000
Subject: [PATCH 35/41] fix: the server's keepalive period was applied to peer
 sessions

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index e659956..0e6da75 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -845,7 +845,7 @@ void RTMFPTCConnection::onSetKeepaliveUserCommand(const uint8_t *payload, size_t
 	uint32_t peerPeriodMsec = (payload[6] << 24) + (payload[7] << 16) + (payload[8] << 8) + payload[9];
 
 	serverPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
-	peerPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
+	peerPeriodMsec = std::max(peerPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
 
 	m_controlRecv->setSessionKeepalivePeriod(serverPeriodMsec / 1000.0);
 	m_rtmfp->setDefaultSessionKeepalivePeriod(peerPeriodMsec / 1000.0);
-- 
2.43.0


From 5ac8624234f94ba13fc296951e5f55d4e77db0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 36/41] fix: a flow closed by the release of its own callbacks
 freed them twice

---
 include/rtmfp/rtmfp.hpp | 6 ++++++
 src/Flow.cpp            | 2 +-
 src/RecvFlow.cpp        | 6 +++---
 src/SendFlow.cpp        | 6 +++---
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index b2a0482..3ee6e63 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -237,6 +237,12 @@ protected:
 			clearCallbacks();
 	}
 
+	template <class T> static void clearCallback(T &callback)
+	{
+		T tmp; // what callback captured is released after it's clear, which might close this flow again
+		std::swap(tmp, callback);
+	}
+
 	RTMFP *m_rtmfp; // weak ref
 	std::shared_ptr<Session> m_session;
 	bool m_base_isOpen;
diff --git a/src/Flow.cpp b/src/Flow.cpp
index 7f8d584..ad0c600 100644
--- a/src/Flow.cpp
+++ b/src/Flow.cpp
@@ -201,7 +201,7 @@ Duration Flow::getSessionCongestionDelay() const
 
 void Flow::clearCallbacks()
 {
-	onFarAddressDidChange = nullptr;
+	clearCallback(onFarAddressDidChange);
 }
 
 void Flow::farAddressDidChange()
diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 1929822..4aa8da4 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -80,7 +80,7 @@ void RecvFlow::close()
 
 	m_recv_buffer.clear();
 
-	onComplete = nullptr;
+	clearCallback(onComplete);
 
 	Flow::close();
 
@@ -176,8 +176,8 @@ std::shared_ptr<SendFlow> RecvFlow::openReturnFlow(const Bytes &metadata, Priori
 
 void RecvFlow::clearCallbacks()
 {
-	onMessage = nullptr;
-	onCumulativeAckDidMerge = nullptr;
+	clearCallback(onMessage);
+	clearCallback(onCumulativeAckDidMerge);
 	Flow::clearCallbacks();
 }
 
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index a5614f9..4295249 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -168,8 +168,8 @@ void SendFlow::close()
 {
 	auto myself = share_ref(this);
 
-	onException = nullptr;
-	onRecvFlow = nullptr;
+	clearCallback(onException);
+	clearCallback(onRecvFlow);
 
 	Flow::close();
 
@@ -218,7 +218,7 @@ void SendFlow::setPriority(Priority pri)
 
 void SendFlow::clearCallbacks()
 {
-	onWritable = nullptr;
+	clearCallback(onWritable);
 	Flow::clearCallbacks();
 }
 
-- 
2.43.0


From 5319a2f21c3abec6dc0d49fddcece6638263b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:06 +0000
Subject: [PATCH 37/41] fix: a TC connection whose last reference was dropped
 was used by its flows after free

---
 src/TCConnection.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 0e6da75..1f554c0 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -632,8 +632,8 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		return false;
 	};
 	m_controlSend->notifyWhenWritable();
-	m_controlSend->onException = [this] (uintmax_t reason) { basicClose(true); };
-	m_controlSend->onRecvFlow = [this] (std::shared_ptr<RecvFlow> flow) { acceptFlow(flow); };
+	m_controlSend->onException = [this, myself] (uintmax_t reason) { basicClose(true); };
+	m_controlSend->onRecvFlow = [this, myself] (std::shared_ptr<RecvFlow> flow) { acceptFlow(flow); };
 
 	return true;
 }
@@ -696,6 +696,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 {
 	uint32_t streamID = 0;
 	ReceiveOrder rxOrder = RO_SEQUENCE;
+	auto myself = share_ref(this);
 
 	if(not TCMetadata::parse(flow->getMetadata(), &streamID, &rxOrder)) // only TC flows for now
 		return;
@@ -710,7 +711,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 			return;
 		}
 		m_controlRecv = flow;
-		m_controlRecv->onComplete = [this] (bool error) { basicClose(error); };
+		m_controlRecv->onComplete = [this, myself] (bool error) { basicClose(error); };
 		setOnMessage(m_controlRecv, 0, nullptr);
 
 		flow->accept();
@@ -727,7 +728,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 	if(RO_NETWORK == rxOrder)
 		reorderBuffer = reorderBufferFactory(reorderWindowPeriod);
 
-	flow->onComplete = [this, flow, reorderBuffer, streamID] (bool error) {
+	flow->onComplete = [this, myself, flow, reorderBuffer, streamID] (bool error) {
 		if(reorderBuffer)
 			reorderBuffer->flush();
 		m_netStreamTransports[streamID].m_recvFlows.erase(flow);
@@ -740,15 +741,17 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 
 void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t streamID, std::shared_ptr<ReorderBuffer> reorderBuffer)
 {
+	auto myself = share_ref(this); // until the flow is closed
+
 	if(reorderBuffer)
 	{
-		reorderBuffer->onMessage = [this, streamID] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount, bool isLate) {
+		reorderBuffer->onMessage = [this, myself, streamID] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount, bool isLate) {
 			if((not isLate) or shouldAlwaysDeliver(bytes, len))
 				deliverMessage(streamID, bytes, len);
 		};
 	}
 
-	flow->onMessage = [this, streamID, flow, reorderBuffer] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount) {
+	flow->onMessage = [this, myself, streamID, flow, reorderBuffer] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount) {
 		uint32_t syncID = 0;
 		size_t count = 0;
 		if(FlowSyncManager::parse(bytes, len, syncID, count))
@@ -793,6 +796,8 @@ bool RTMFPTCConnection::shouldAlwaysDeliver(const uint8_t *bytes, size_t len)
 
 void RTMFPTCConnection::basicClose(bool isError)
 {
+	auto myself = share_ref(this); // callbacks can release the last reference
+
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
-- 
2.43.0


From 1d4a15c0d7d17ef14303d632507096b82ad30fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:13 +0000
Subject: [PATCH 38/41] fix: closing a TC connection again from a callback
 while closing dropped its flows before its streams were deleted

---
 src/TCConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 1f554c0..fbff63c 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -798,6 +798,9 @@ void RTMFPTCConnection::basicClose(bool isError)
 {
 	auto myself = share_ref(this); // callbacks can release the last reference
 
+	if(not m_userOpen)
+		return; // including from a callback while closing
+
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
-- 
2.43.0


From 0c36f4b5861f6763fff6e480075e8fd7644b4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:16 +0000
Subject: [PATCH 39/41] fix: RedirectorClient::getKeepalivePeriod was declared
 but not defined

---
 src/RedirectorClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 66ee433..1ccc6ef 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -71,6 +71,11 @@ void RedirectorClient::setKeepalivePeriod(Duration t)
 		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
 }
 
+Duration RedirectorClient::getKeepalivePeriod() const
+{
+	return m_keepalivePeriod;
+}
+
 void RedirectorClient::setActive(bool active)
 {
 	bool update = active != m_active;
-- 
2.43.0


From e043716e0e4e3e3dc6eca62548f79ed34bfa8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:05 +0000
Subject: [PATCH 40/41] fix: a RedirectorClient callback that closed or
 released the client was destroyed while running

---
 src/RedirectorClient.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 1ccc6ef..daecd91 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -256,8 +256,9 @@ void RedirectorClient::closeFlows()
 void RedirectorClient::setStatus(Status status)
 {
 	m_status = status;
-	if(onStatus)
-		onStatus(m_status);
+	auto onStatus_f = onStatus; // in case it calls close()
+	if(onStatus_f)
+		onStatus_f(m_status);
 }
 
 void RedirectorClient::doConnect()
@@ -353,6 +354,8 @@ void RedirectorClient::sendLoadFactor()
 
 void RedirectorClient::onConnected()
 {
+	auto myself = share_ref(this); // onStatus can release the last reference
+
 	setStatus(STATUS_CONNECTED);
 	if(isConnected()) // still, could have changed during callback
 	{
@@ -368,6 +371,8 @@ void RedirectorClient::onConnected()
 
 void RedirectorClient::onException(uintmax_t reason)
 {
+	auto myself = share_ref(this); // onStatus can release the last reference
+
 	closeFlows();
 
 	setStatus(EXCEPTION_BAD_AUTH == reason ? STATUS_DISCONNECTED_BAD_AUTH : STATUS_DISCONNECTED);
@@ -403,13 +408,21 @@ void RedirectorClient::onMessage(const uint8_t *bytes, size_t len)
 		{
 		case CMD_REFLEXIVE_ADDR_REPORT:
 			m_reflexiveAddressValid = m_reflexiveAddress.setFromEncoding(cursor, limit);
-			if(m_reflexiveAddressValid and onReflexiveAddress)
-				onReflexiveAddress(m_reflexiveAddress);
+			if(m_reflexiveAddressValid)
+			{
+				auto onReflexiveAddress_f = onReflexiveAddress; // in case it calls close()
+				auto addr = m_reflexiveAddress;
+				if(onReflexiveAddress_f)
+					onReflexiveAddress_f(addr);
+			}
 			break;
 
 		case CMD_USER_DATA:
-			if(onUserData)
-				onUserData(cursor, limit - cursor);
+			{
+				auto onUserData_f = onUserData; // in case it calls close()
+				if(onUserData_f)
+					onUserData_f(cursor, limit - cursor);
+			}
 			break;
 
 		default:
-- 
2.43.0


From cdc66d56b565204de99c27bb0dde375846a2b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:34 +0000
Subject: [PATCH 41/41] fix: commands sent by a RedirectorClient from onStatus
 preceded its authentication, which the redirector refuses

---
 src/RedirectorClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index daecd91..2c7a16a 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -356,13 +356,14 @@ void RedirectorClient::onConnected()
 {
 	auto myself = share_ref(this); // onStatus can release the last reference
 
+	sendAuth(); // must be first, onStatus can send other commands
+
 	setStatus(STATUS_CONNECTED);
 	if(isConnected()) // still, could have changed during callback
 	{
 		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
 		m_send->setSessionRetransmitLimit(m_retransmitLimit);
 		m_send->setSessionFIHelloMode(m_responseMode);
-		sendAuth();
 		sendSettingsIfActive();
 		sendDrainingIfInactive();
 		sendLoadFactor();
-- 
2.43.0

