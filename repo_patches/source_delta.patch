From 0c91a134795db06bf937c2d3bbe74f51c79571c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 01/46] fix: RingBuf::resize left a capacity below the request
 for powers of two

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..b82967b 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -34,7 +34,7 @@ void RingBuf::resize(size_t need_size)
 
 	//auto inc size
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size <= need_size) new_size *= 2; //one byte is never used
 
 	//copy old data
 	size_t old_size = size();
-- 
2.43.0


From febfefa3cbae02c26b6c23898e7d979da49bd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 02/46] fix: RingBuf::search returned m_end instead of 0 for a
 match on the oldest byte

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index b82967b..72c96ab 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 1f17d0aa84aa659c49ece06c5462f78b2c5d3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 03/46] fix: RingBuf::peek/checksum offset+count could wrap
 around and read out of bounds

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 72c96ab..d225cf5 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From 3b3aa756488544934cc145867bb8e0432911b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 04/46] fix: RingBuf::moveto onto itself used freed memory and
 never ended

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index d225cf5..ff002a2 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -100,6 +100,8 @@ size_t RingBuf::memcpy_out(void *dst, size_t count)
 //-------------------------------------------------------------------------------------
 size_t RingBuf::moveto(RingBuf& dst, size_t count)
 {
+	if (&dst == this) return 0; //nothing to move
+
 	size_t bytes_used = size();
 	if (count > bytes_used)
 		count = bytes_used;
-- 
2.43.0


From cc4908f142d6bd2040f4f9ecf6ecd12ae274429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 05/46] fix: LockFreeQueue::push claimed a slot of a full queue
 when the item count lagged

---
 source/cyCore/core/cyc_lf_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..4e1140f 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -59,21 +59,23 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	uint32_t currentReadIndex;
 	uint32_t currentWriteIndex;
 
-	do
+	for (;;)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
 		if (_countToIndex(currentWriteIndex + 1) ==
 			_countToIndex(currentReadIndex))
 		{
-			if (m_count > (Q_SIZE >> 1))
+			if (m_count >= (Q_SIZE >> 1))
 				// the queue is full
 				return false;
 			else
 				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
 				continue;
 		}
-	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
+		// 'continue' must never reach the claim, that would overwrite an unread slot of a full queue
+		if (atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1))) break;
+	}
 
 	// We know now that this index is reserved for us. Use it to save the data
 	m_queue[_countToIndex(currentWriteIndex)] = data;
-- 
2.43.0


From f0409d9d736949cebe0f47a6ca8c4cafcc8bfbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 06/46] fix: atomic_compare_exchange could fail spuriously and
 lose a wake-up

---
 source/cyCore/core/cyc_atomic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_atomic.h b/source/cyCore/core/cyc_atomic.h
index 8288578..363f70d 100644
--- a/source/cyCore/core/cyc_atomic.h
+++ b/source/cyCore/core/cyc_atomic.h
@@ -18,7 +18,8 @@ typedef std::atomic<bool>		atomic_bool_t;
 template<typename T>
 inline bool atomic_compare_exchange(std::atomic<T>& obj, T expected, T desired) 
 {
-	return obj.compare_exchange_weak(expected, desired);
+	// not the weak form: callers try only once and may not miss a matching value
+	return obj.compare_exchange_strong(expected, desired);
 }
 
 template<typename T>
-- 
2.43.0


From 61838435a8277b484c09b373aa4beb3f6e8b70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:37 +0000
Subject: [PATCH 07/46] fix: event and timer callbacks were run in place and
 destroyed while running when they deleted their event or grew the channel
 buffer

---
 source/cyEvent/event/cye_looper.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..6ef8378 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -287,7 +287,9 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[readList[i]]);
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-			c->on_read(c->id, c->fd, kRead, c->param);
+			//the callback may delete this event or grow the channel buffer, keep it alive
+			event_callback on_read = c->on_read;
+			on_read(c->id, c->fd, kRead, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -299,7 +301,9 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-			c->on_write(c->id, c->fd, kWrite, c->param);
+			//the callback may delete this event or grow the channel buffer, keep it alive
+			event_callback on_write = c->on_write;
+			on_write(c->id, c->fd, kWrite, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -334,7 +338,8 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-		c->on_read(c->id, c->fd, kRead, c->param);
+		event_callback on_read = c->on_read;
+		on_read(c->id, c->fd, kRead, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -344,7 +349,8 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		event_callback on_write = c->on_write;
+		on_write(c->id, c->fd, kWrite, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -425,7 +431,9 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 #endif
 
 	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+		//the callback may delete this timer, keep the function object alive
+		timer_callback on_timer = timer->on_timer;
+		on_timer(id, timer->param);
 	}
 }
 
-- 
2.43.0


From 6f3f551e4404cad9f232efb089a88f6ee98f7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:37 +0000
Subject: [PATCH 08/46] fix: WorkThread re-armed its wake-up after draining the
 queue and could strand a message

---
 source/cyEvent/event/cye_work_thread.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..ed722b4 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -80,25 +80,26 @@ void WorkThread::_on_message(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
+	//consume the wakeup bytes
 	for (;;) {
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
+	}
 
-		for (;;) {
-			Packet* packet = nullptr;
-			if (!m_message_queue.pop(packet)) break;
+	//set empty flag before the last look at the queue, a sender that pushes after that will wake us up again
+	m_is_queue_empty = true;
 
-			//call listener
-			if (m_on_message) {
-				m_on_message(packet);
-			}
+	for (;;) {
+		Packet* packet = nullptr;
+		if (!m_message_queue.pop(packet)) break;
 
-			Packet::free_packet(packet);
+		//call listener
+		if (m_on_message) {
+			m_on_message(packet);
 		}
-	}
 
-	//set empty flag
-	m_is_queue_empty = true;
+		Packet::free_packet(packet);
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 1cd797e8fe5e62cca82c0d142d4552be16cf0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:37 +0000
Subject: [PATCH 09/46] fix: WorkThread::send_message leaked the packet when
 the queue was full

---
 source/cyEvent/event/cye_work_thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index ed722b4..c852b34 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -108,7 +108,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 	Packet* packet = Packet::alloc_packet();
 	packet->build_from_memory(MESSAGE_HEAD_SIZE, id, size_part1, msg_part1, size_part2, msg_part2);
 
-	m_message_queue.push(packet);
+	if (!m_message_queue.push(packet)) Packet::free_packet(packet);
 
 	_wakeup();
 }
@@ -117,7 +117,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 void WorkThread::send_message(const Packet* message)
 {
 	Packet* packet = Packet::alloc_packet(message);
-	m_message_queue.push(packet);
+	if (!m_message_queue.push(packet)) Packet::free_packet(packet);
 	
 	_wakeup();
 }
@@ -127,7 +127,7 @@ void WorkThread::send_message(const Packet** message, int32_t counts)
 {
 	for (int32_t i = 0; i < counts; i++){
 		Packet* packet = Packet::alloc_packet(message[i]);
-		m_message_queue.push(packet);
+		if (!m_message_queue.push(packet)) Packet::free_packet(packet);
 	}
 
 	_wakeup();
-- 
2.43.0


From bbda57dbd82c4d81e08fd2cb3f51f3a154f333ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:37 +0000
Subject: [PATCH 10/46] fix: register_timer_event lost its event slot when
 timerfd_create failed

---
 source/cyEvent/event/cye_looper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 6ef8378..b808567 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -113,6 +113,8 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error
         CY_LOG(L_FATAL, "call timerfd_create Failed");
         delete timer;
+        channel.next = m_free_head;
+        m_free_head = id;
         return INVALID_EVENT_ID;
 	}
 
-- 
2.43.0


From ca34719e40eeba93fbd4668ba02d56753e30f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:37 +0000
Subject: [PATCH 11/46] fix: push_stop_request could write to the inner pipe
 after loop() had destroyed it

---
 source/cyEvent/event/cye_looper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b808567..5e71279 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -266,7 +266,10 @@ void Looper::loop(void)
 
 	//register inner pipe first
 	Pipe inner_pipe;
-	m_inner_pipe = &inner_pipe;
+	{
+		sys_api::auto_mutex lock(m_lock);
+		m_inner_pipe = &inner_pipe;
+	}
 	Looper::event_id_t inner_event_id = register_event(m_inner_pipe->get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
 
 	channel_list readList;
@@ -315,6 +318,8 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	sys_api::auto_mutex lock(m_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -362,6 +367,9 @@ void Looper::step(void)
 void Looper::push_stop_request(void)
 {
 	m_quit_cmd = 1;
+
+	//the inner pipe lives on the stack of loop(), don't let it go away meanwhile
+	sys_api::auto_mutex lock(m_lock);
 	_touch_inner_pipe();
 }
 
-- 
2.43.0


From 95aff9e18ac26140cf5c1ae41036cc9aeb0de760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 12/46] fix: a read that would block is not a connection error

A stale read event (for example for an event slot that was reused in the
same dispatch round) made read_socket fail with EAGAIN and the healthy
connection was closed.
---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..1986345 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -225,7 +225,7 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
-	else
+	else if (!socket_api::is_lasterror_WOULDBLOCK())
 	{
 		//error!
 		_on_socket_error();
-- 
2.43.0


From 16c432dc48e8dcafe160861d6d0df32c9ac9ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 13/46] fix: do not push a failed write's result into the write
 statistics

The -1 of a failed write was added to the byte sum as a huge unsigned value.
---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 1986345..0c721df 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -249,7 +249,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From 42f48425e5c25de9277eb1d590f008b7928698a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 14/46] fix: socket_api::write must not raise SIGPIPE

Writing to a connection whose peer has closed terminated the whole process.
---
 source/cyCore/core/cyc_socket_api.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..7239576 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -199,8 +199,14 @@ ssize_t write(socket_t s, const char* buf, size_t len)
 {
 #ifdef CY_SYS_WINDOWS
 	ssize_t _len = (ssize_t)::send(s, buf, (int32_t)len, MSG_DONTROUTE);
+#else
+#ifdef MSG_NOSIGNAL
+	//a peer that is gone must not raise SIGPIPE
+	ssize_t _len = (ssize_t)::send(s, buf, len, MSG_NOSIGNAL);
+	if (_len < 0 && errno == ENOTSOCK) _len = (ssize_t)::write(s, buf, len);
 #else
 	ssize_t _len = (ssize_t)::write(s, buf, len);
+#endif
 #endif
 	return _len;
 }
-- 
2.43.0


From c447edf0635f7c7b0deea149f63bcb1e5bb4ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 15/46] fix: RingBuf::write_socket must not raise SIGPIPE

Flushing buffered bytes to a peer that has closed terminated the whole process.
---
 source/cyCore/core/cyc_ring_buf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index ff002a2..6c660f4 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -341,7 +341,17 @@ ssize_t RingBuf::write_socket(socket_t fd)
 	}
 
 	//call sys function
+#ifdef MSG_NOSIGNAL
+	//a peer that is gone must not raise SIGPIPE
+	struct msghdr msg;
+	memset(&msg, 0, sizeof(msg));
+	msg.msg_iov = vec;
+	msg.msg_iovlen = (size_t)vec_counts;
+	ssize_t write_counts = ::sendmsg(fd, &msg, MSG_NOSIGNAL);
+	if (write_counts < 0 && errno == ENOTSOCK) write_counts = ::writev(fd, vec, vec_counts);
+#else
 	ssize_t write_counts = ::writev(fd, vec, vec_counts);
+#endif
 	if (write_counts <= 0) return write_counts;	//error
 
 	//adjust point
-- 
2.43.0


From cbdfb7b9db0ecc31e0a6cb1e5abd7c276f9424a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 16/46] fix: a send from another thread must not race with
 shutdown and close

The state was checked before the lock was taken: a close in between left the
sender with a destroyed lock and a deleted event, and a shutdown in between
dropped bytes that send had accepted. The state now leaves kConnected under
the lock, and the lock lives as long as the connection.
---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 0c721df..482a401 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -74,7 +74,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -94,6 +97,9 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 	else
 	{
+		//write to output buf, the state only leaves kConnected while the lock is held
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -101,9 +107,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -193,7 +196,10 @@ void TcpConnection::shutdown(void)
 	assert(m_state == kConnected || m_state==kDisconnecting);
 
 	//set the state to disconnecting...
-	m_state = kDisconnecting;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+		m_state = kDisconnecting;
+	}
 
 	//something still working? wait 
 	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;
@@ -283,7 +289,10 @@ void TcpConnection::_on_socket_close(void)
 	TcpConnectionPtr thisPtr = shared_from_this();
 
 	//disable all event
-	m_state = kDisconnected;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+		m_state = kDisconnected;
+	}
 
 	//delete looper event
 	m_looper->delete_event(m_event_id);
@@ -301,10 +310,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 4002a48bdf68bdc51bf85a0d0ac71ce70aa738a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 17/46] fix: a rejected TcpServer::stop must not mark the
 server as shutting down

A stop from a work thread was refused but every later stop then did nothing,
and join waited for ever.
---
 source/cyNetwork/network/cyn_tcp_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..4629924 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -106,7 +106,7 @@ void TcpServer::stop(void)
 	//not running?
 	if (m_running == 0) return;
 	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
+	if (m_shutdown_ing.load() > 0)return;
 
 	//this function can't run in work thread
 	for (auto work : m_work_thread_pool){
@@ -115,6 +115,7 @@ void TcpServer::stop(void)
 			return;
 		}
 	}
+	if (m_shutdown_ing.exchange(1) > 0)return;
 
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
-- 
2.43.0


From 16b2ad2da22c553a2aaad00ebf46ac9d014c78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 18/46] fix: shut the work threads down behind the last
 accepted connection

A socket accepted while stop() ran could reach its work thread after the
shutdown command: it leaked, or was destroyed while connected.
---
 source/cyNetwork/network/cyn_tcp_server.cpp                | 7 +------
 .../network/internal/cyn_tcp_server_master_thread.cpp      | 6 ++++++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 4629924..d411325 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -117,14 +117,9 @@ void TcpServer::stop(void)
 	}
 	if (m_shutdown_ing.exchange(1) > 0)return;
 
-	//shutdown the the master thread
+	//shutdown the the master thread, it will shutdown all work thread(s) after the last accepted connection
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
-
-	//shutdown all connection
-	for (auto work : m_work_thread_pool){
-		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
-	}
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..45bdcc5 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -4,6 +4,7 @@ Copyright(C) thecodeway.com
 
 #include <cy_network.h>
 #include "cyn_tcp_server_master_thread.h"
+#include "cyn_tcp_server_work_thread.h"
 
 namespace cyclone
 {
@@ -171,6 +172,11 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//no new connection any more, shutdown all connection
+		for (auto work : m_server->m_work_thread_pool) {
+			work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
+		}
+
 		//stop looper
 		looper->push_stop_request();
 	}
-- 
2.43.0


From b51db5b3d78ad6816908974d1aa9483111f7d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 19/46] fix: a work thread could miss that the server is
 shutting down

The close command carried the shutdown flag as it was when the connection
closed. When stop() came between that and the push, the thread handled the
shutdown first, removed its last connection with the stale flag and never quit.
---
 source/cyNetwork/network/cyn_tcp_server.cpp                   | 1 -
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp | 4 +++-
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.h   | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index d411325..3c0b655 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -163,7 +163,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..74037cd 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -141,7 +142,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +151,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..d6c0c5b 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -51,6 +50,7 @@ private:
 	TcpServer*		m_server;
 	const int32_t	m_index;
 	WorkThread*		m_work_thread;
+	bool			m_shutdown_ing;
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
-- 
2.43.0


From 90b482a21b418014eceeb77dc49da3a86d17115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 20/46] fix: a stop-listen command behind a shutdown used a
 cleared table

The index was only checked by the sender, the entry it named had been closed
and removed: its event was deleted and its descriptor closed again.
---
 .../network/internal/cyn_tcp_server_master_thread.cpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 45bdcc5..83467d1 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -185,6 +185,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		StopListenCmd stopListenCmd;
 		memcpy(&stopListenCmd, message->get_packet_content(), sizeof(stopListenCmd));
 
+		//all listen socket(s) may have been closed by shutdown already
+		if (stopListenCmd.index >= m_acceptor_sockets.size()) return;
+
 		Looper* looper = m_master_thread.get_looper();
 		auto& listen_socket = m_acceptor_sockets[stopListenCmd.index];
 		auto& sfd = std::get<0>(listen_socket);
-- 
2.43.0


From e70b3503c22ba6b0ce380a9f808113838bf2eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 21/46] fix: the work thread index became negative after 2^31
 connections

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 3c0b655..afe5898 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -126,7 +126,7 @@ void TcpServer::stop(void)
 void TcpServer::_on_accept_socket(socket_t fd)
 {
 	//send it to one of work thread		
-	int32_t index = (m_next_workthread_id++) % m_workthread_counts;
+	int32_t index = (int32_t)((uint32_t)(m_next_workthread_id++) % (uint32_t)m_workthread_counts);
 	TcpServerWorkThread* work = m_work_thread_pool[(size_t)index];
 
 	//send new connection to work thread(cmd, socket_t)		
-- 
2.43.0


From c1c89d924b840e8109d1cec3ffb288c35a3014f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 22/46] fix: TcpClient::connect left its socket and event
 behind when it failed at once

The client stayed in the connecting state and the retry asserted.
---
 source/cyNetwork/network/cyn_tcp_client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..58a3238 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -60,6 +60,10 @@ bool TcpClient::connect(const Address& addr)
 
 	//create socket
 	m_socket = socket_api::create_socket();
+	if (m_socket == INVALID_SOCKET) {
+		CY_LOG(L_ERROR, "create socket error");
+		return false;
+	}
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(m_socket, true);
 	socket_api::set_close_onexec(m_socket, true);
@@ -79,6 +83,10 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+		//nothing will happen on this socket any more
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From 65be9e2915b975941b3076886b0375b81d5579f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 23/46] fix: disconnect and connect must cancel a pending
 connect retry

A retry timer stayed armed after disconnect and connected again, and a
disconnect from the failure callback made the client abort the attempt twice.
---
 source/cyNetwork/network/cyn_tcp_client.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 58a3238..37cffd9 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -56,6 +56,9 @@ bool TcpClient::connect(const Address& addr)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_socket == INVALID_SOCKET);
 
+	//this is the attempt a pending retry would make
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
+
 	sys_api::auto_mutex lock(m_connection_lock);
 
 	//create socket
@@ -115,6 +118,8 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
+		//disconnected by the callback already?
+		if (get_connection_state() != TcpConnection::kConnecting) return;
 		_abort_connect(retry_sleep_ms);
 	}
 	else {
@@ -182,6 +187,8 @@ void TcpClient::disconnect(void)
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
+		//cancel the retry
+		RELEASE_EVENT(m_looper, m_retry_timer_id);
 		break;
 
 	case TcpConnection::kConnecting:
-- 
2.43.0


From 25554683e3a6a6e08b3a1907d83e937627eec622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 24/46] fix: a TcpClient destroyed while connecting leaked its
 socket

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 37cffd9..6648fc6 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -48,6 +48,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 7b8aa4274c6bba75ed5e8e1804402bcdbda3742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 25/46] fix: TcpClient published its connection without the
 lock its readers hold

get_connection_state and send read the shared pointer from other threads.
---
 source/cyNetwork/network/cyn_tcp_client.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 6648fc6..f5dad2c 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -134,7 +134,11 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		RELEASE_EVENT(m_looper, m_socket_event_id);
 
 		//established the connection
-		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		TcpConnectionPtr connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		{
+			sys_api::auto_mutex lock(m_connection_lock);
+			m_connection = connection;
+		}
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
 		//bind callback functions
@@ -173,8 +177,11 @@ void TcpClient::_abort_connect(uint32_t retry_sleep_ms)
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	//close current socket
-	socket_api::close_socket(m_socket);
-	m_socket = INVALID_SOCKET;
+	{
+		sys_api::auto_mutex lock(m_connection_lock);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 
 	if (retry_sleep_ms>0) {
 		//retry connection? create retry the timer
-- 
2.43.0


From 325ae1e0c73a7f68a88e35d81a301175a00ed37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 26/46] fix: an address was built from uninitialised memory
 when its socket had none

---
 source/cyNetwork/network/cyn_address.cpp                        | 1 +
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..ef9e08f 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,7 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	memset(&m_address, 0, sizeof m_address);
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 83467d1..ed5544f 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -111,7 +111,7 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	if (index >= m_acceptor_sockets.size()) return address;
 
 	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	if (!socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr)) return address;
 
 	return Address(addr);
 }
-- 
2.43.0


From 6c84ab8a4ff71e07eeeed28cf03c82ba5555792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 27/46] fix: an accepted socket leaked when the work thread's
 message queue was full

The command that carried the descriptor was dropped without telling the sender.
---
 source/cyEvent/event/cye_work_thread.cpp      | 21 +++++++++++++------
 source/cyEvent/event/cye_work_thread.h        |  8 +++----
 source/cyNetwork/network/cyn_tcp_server.cpp   |  6 +++++-
 .../internal/cyn_tcp_server_work_thread.cpp   |  4 ++--
 .../internal/cyn_tcp_server_work_thread.h     |  2 +-
 5 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index c852b34..9deacae 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -103,34 +103,43 @@ void WorkThread::_on_message(void)
 }
 
 //-------------------------------------------------------------------------------------
-void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_part1, uint16_t size_part2, const char* msg_part2)
+bool WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_part1, uint16_t size_part2, const char* msg_part2)
 {
 	Packet* packet = Packet::alloc_packet();
 	packet->build_from_memory(MESSAGE_HEAD_SIZE, id, size_part1, msg_part1, size_part2, msg_part2);
 
-	if (!m_message_queue.push(packet)) Packet::free_packet(packet);
+	bool pushed = m_message_queue.push(packet);
+	if (!pushed) Packet::free_packet(packet);
 
 	_wakeup();
+	return pushed;
 }
 
 //-------------------------------------------------------------------------------------
-void WorkThread::send_message(const Packet* message)
+bool WorkThread::send_message(const Packet* message)
 {
 	Packet* packet = Packet::alloc_packet(message);
-	if (!m_message_queue.push(packet)) Packet::free_packet(packet);
+	bool pushed = m_message_queue.push(packet);
+	if (!pushed) Packet::free_packet(packet);
 	
 	_wakeup();
+	return pushed;
 }
 
 //-------------------------------------------------------------------------------------
-void WorkThread::send_message(const Packet** message, int32_t counts)
+bool WorkThread::send_message(const Packet** message, int32_t counts)
 {
+	bool all_pushed = true;
 	for (int32_t i = 0; i < counts; i++){
 		Packet* packet = Packet::alloc_packet(message[i]);
-		if (!m_message_queue.push(packet)) Packet::free_packet(packet);
+		if (!m_message_queue.push(packet)) {
+			Packet::free_packet(packet);
+			all_pushed = false;
+		}
 	}
 
 	_wakeup();
+	return all_pushed;
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index ede4e38..9b446ea 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -27,10 +27,10 @@ public:
 	void set_on_start(StartCallback func) { m_on_start = func; }
 	void set_on_message(MessageCallback func) { m_on_message = func; }
 
-	//// send message to this work thread (thread safe)
-	void send_message(uint16_t id, uint16_t size_part1, const char* msg_part1, uint16_t size_part2 = 0, const char* msg_part2 = nullptr);
-	void send_message(const Packet* message);
-	void send_message(const Packet** message, int32_t counts);
+	//// send message to this work thread, return false if the message queue is full (thread safe)
+	bool send_message(uint16_t id, uint16_t size_part1, const char* msg_part1, uint16_t size_part2 = 0, const char* msg_part2 = nullptr);
+	bool send_message(const Packet* message);
+	bool send_message(const Packet** message, int32_t counts);
 
 	//// get work thread looper (thread safe)
 	Looper* get_looper(void) const { return m_looper; }
diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index afe5898..c62f43d 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -132,7 +132,11 @@ void TcpServer::_on_accept_socket(socket_t fd)
 	//send new connection to work thread(cmd, socket_t)		
 	TcpServerWorkThread::NewConnectionCmd newConnectionCmd;
 	newConnectionCmd.sfd = fd;
-	work->send_thread_message(TcpServerWorkThread::NewConnectionCmd::ID, sizeof(newConnectionCmd), (const char*)&newConnectionCmd);
+	if (!work->send_thread_message(TcpServerWorkThread::NewConnectionCmd::ID, sizeof(newConnectionCmd), (const char*)&newConnectionCmd)) {
+		CY_LOG(L_ERROR, "work thread %d is busy, refuse the socket", index);
+		socket_api::close_socket(fd);
+		return;
+	}
 
 	CY_LOG(L_DEBUG, "accept a socket, send to work thread %d ", index);
 }
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 74037cd..7b09782 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -31,11 +31,11 @@ TcpServerWorkThread::~TcpServerWorkThread()
 }
 
 //-------------------------------------------------------------------------------------
-void TcpServerWorkThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
+bool TcpServerWorkThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
 {
 	assert(m_work_thread);
 
-	m_work_thread->send_message(id, size, message);
+	return m_work_thread->send_message(id, size, message);
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index d6c0c5b..43866de 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -31,7 +31,7 @@ public:
 
 public: //call by TcpServer Only
 	//// send message to this work thread (thread safe)
-	void send_thread_message(uint16_t id, uint16_t size, const char* message);
+	bool send_thread_message(uint16_t id, uint16_t size, const char* message);
 	void send_thread_message(const Packet* message);
 	void send_thread_message(const Packet** message, int32_t counts);
 
-- 
2.43.0


From 5ed96cec3067cd763699a8a029c376fff621ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 28/46] fix: check_connect and bind_socket leaked the socket
 when set_nonblock failed

---
 source/cyCore/core/cyc_socket_api.cpp                        | 5 ++++-
 .../network/internal/cyn_tcp_server_master_thread.cpp        | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 7239576..5af9468 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -478,7 +478,10 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	if (s == INVALID_SOCKET) return false;
 
 	// set to non block mode
-	if (!set_nonblock(s, true)) return false;
+	if (!set_nonblock(s, true)) {
+		close_socket(s);
+		return false;
+	}
 
 	// begin connect...
 	if (!connect(s, addr)) {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index ed5544f..285c76b 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -61,6 +61,7 @@ bool TcpServerMasterThread::bind_socket(const Address& bind_addr, bool enable_re
 	if (!socket_api::set_nonblock(sfd, true)) {
 		//the process should be stop		
 		CY_LOG(L_ERROR, "set socket to non block mode error");
+		socket_api::close_socket(sfd);
 		return false;
 	}
 
-- 
2.43.0


From 4519087b39e13109c6287d88adf3f75665d2e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 29/46] fix: check_connect wrote outside its fd_set for
 descriptors above FD_SETSIZE

---
 source/cyCore/core/cyc_socket_api.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 5af9468..0fe8d60 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -490,6 +490,15 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 		return false;
 	}
 
+#ifndef CY_SYS_WINDOWS
+	// the descriptor must fit in a fd_set
+	if (s >= FD_SETSIZE) {
+		CY_LOG(L_ERROR, "socket_api::check_connect, too many descriptors, s=%d", s);
+		close_socket(s);
+		return false;
+	}
+#endif
+
 	// wait connect result
 	fd_set set_write, set_err;
 
-- 
2.43.0


From 16dc102a199e0fd323a6d7900db9bfabd09a4acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 30/46] fix: setsockopt's error message consumed arguments that
 were not passed

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 0fe8d60..596a389 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -267,7 +267,7 @@ bool setsockopt(socket_t s, int level, int optname, const void *optval, size_t o
 {
 	if (0 != ::setsockopt(s, level, optname, (const char*)optval, (socklen_t)optlen))
 	{
-		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", get_lasterror());
+		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", level, optname, get_lasterror());
 		return false;
 	}
 	return true;
-- 
2.43.0


From f027f7963c91836ca8857d23142e3de51ef954e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 31/46] fix: a pipe that could not be created used and closed
 random descriptors

---
 source/cyEvent/event/cye_pipe.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/cye_pipe.cpp b/source/cyEvent/event/cye_pipe.cpp
index 9f9ffe0..064070e 100644
--- a/source/cyEvent/event/cye_pipe.cpp
+++ b/source/cyEvent/event/cye_pipe.cpp
@@ -96,6 +96,7 @@ Pipe::Pipe()
 #endif
 	{
 		CY_LOG(L_FATAL, "create pipe failed!");
+		m_pipe_fd[0] = m_pipe_fd[1] = INVALID_SOCKET;
 	}
 }
 
@@ -105,8 +106,8 @@ Pipe::~Pipe()
 #ifdef CY_SYS_WINDOWS
 	destroy_socket_pipe(m_pipe_fd);
 #else
-	::close(m_pipe_fd[0]);
-	::close(m_pipe_fd[1]);
+	if (m_pipe_fd[0] != INVALID_SOCKET) ::close(m_pipe_fd[0]);
+	if (m_pipe_fd[1] != INVALID_SOCKET) ::close(m_pipe_fd[1]);
 #endif
 }
 
-- 
2.43.0


From 6b0c560506a71a95b806ce5d764d6285d5c8cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 32/46] fix: process_get_module_name left long names
 unterminated

---
 source/cyCore/core/cyc_system_api.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..f183615 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -51,7 +51,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
 		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
+		if (readlink("/proc/self/exe", process_path_name, sizeof(process_path_name) - 1)<0) {
 			strncpy(process_path_name, "unknown", 256);
 		}
 	#endif
@@ -60,7 +60,9 @@ void process_get_module_name(char* module_name, size_t max_size)
 	if (process_name != 0) process_name++;
 	else process_name = "unknown";
 
-	strncpy(module_name, process_name, max_size);
+	if (max_size == 0) return;
+	strncpy(module_name, process_name, max_size - 1);
+	module_name[max_size - 1] = 0;
 #endif
 
 }
-- 
2.43.0


From d751b352b6a4a8ea6a8c8ce561274b5937e069f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 33/46] fix: the log file name used an uninitialised or
 unterminated host name

---
 source/cyCore/core/cyc_logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..d08e328 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,8 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
-		::gethostname(host_name, 32);
+		char host_name[32] = { 0 };
+		::gethostname(host_name, 31);
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
-- 
2.43.0


From a1bf7bb0670aac13fc4676fa19389f9424f2bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 34/46] fix: adler32 forgot the running checksum when an empty
 block was added

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..8c2d8b1 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,8 +69,12 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
+
+	/* nothing to add */
+	if (len == 0)
+		return adler;
 	
 	/* split Adler-32 into component sums */
     sum2 = (adler >> 16) & 0xffff;
-- 
2.43.0


From b2da961f827972e95d1c6cee35a7acd10962dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 35/46] fix: case-insensitive option matching compared a
 character with itself

An upper case letter in the option table matched any letter on the command line.
---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 2678a02..4d47c2f 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -983,7 +983,7 @@ CSimpleOptTempl<SOCHAR>::IsEqual(
     // if this matches then we are doing case-insensitive matching
     if (m_nFlags & a_nArgType) {
 		if (a_cLeft >= 'A' && a_cLeft <= 'Z') a_cLeft = (SOCHAR)tolower(a_cLeft);
-		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cLeft);
+		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cRight);
     }
     return a_cLeft == a_cRight;
 }
-- 
2.43.0


From 50261c366c1a8cb018642abdd680ae6301335c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 36/46] fix: CSimpleOpt::Init kept using its shuffle buffer
 after freeing it

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 4d47c2f..78c4f62 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -575,6 +575,7 @@ CSimpleOptTempl<SOCHAR>::Init(
 #else
     if (m_rgShuffleBuf) {
         free(m_rgShuffleBuf);
+        m_rgShuffleBuf = NULL;
     }
     if (m_argc > SO_STATICBUF) {
         m_rgShuffleBuf = (SOCHAR**) malloc(sizeof(SOCHAR*) * static_cast<unsigned int>(m_argc));
-- 
2.43.0


From 94162618b1e560395c8147c2087964f6c6c68e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 37/46] fix: a client released by its own connect callback was
 used after it was freed

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index f5dad2c..22d39c1 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -116,6 +116,9 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 {
 	assert(m_connection == nullptr);
 
+	//the callbacks may release the last reference to this client
+	TcpClientPtr thisPtr = shared_from_this();
+
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
 		//logic callback
 		uint32_t retry_sleep_ms = 0;
@@ -220,6 +223,9 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	assert(id == m_retry_timer_id);
 	assert(m_connection == nullptr);
 
+	//the callback may release the last reference to this client
+	TcpClientPtr thisPtr = shared_from_this();
+
 	//remove the timer
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
-- 
2.43.0


From 02b7c5fac18605c3b619dc5b2b0d42c01a1930f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 38/46] fix: a connection released by its send-complete
 callback was used after it was freed

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 482a401..350943a 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -269,9 +269,10 @@ void TcpConnection::_on_socket_write(void)
 		m_looper->disable_write(m_event_id);
 	}
 
-	//write complete
+	//write complete, the callback may release the last reference to this connection
+	TcpConnectionPtr thisPtr = shared_from_this();
 	if (m_on_send_complete) {
-		m_on_send_complete(this->shared_from_this());
+		m_on_send_complete(thisPtr);
 	}
 
 	//disconnecting? this is the last message send to client, we can shut it down again
-- 
2.43.0


From 16eaee30433ee26427d024b231e051660638fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 39/46] fix: a server that was bound but never started aborted
 in its destructor

---
 .../network/internal/cyn_tcp_server_master_thread.cpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 285c76b..7a8d33e 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -18,7 +18,13 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
-	assert(m_acceptor_sockets.empty());
+	//the server was never started
+	for (auto& listen_socket : m_acceptor_sockets) {
+		if (std::get<0>(listen_socket) != INVALID_SOCKET) {
+			socket_api::close_socket(std::get<0>(listen_socket));
+		}
+	}
+	m_acceptor_sockets.clear();
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From ac7c600dc7e0f501ed06aa8897e839f890a8d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 40/46] fix: two senders could interleave their bytes inside
 one message

The loop thread looked at the buffer, wrote and appended the rest under three
separate lock holds: bytes another thread appended in between ended up in the
middle of a partially written message.
---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 350943a..514e517 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -139,8 +139,11 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
+	//nobody else can put its bytes between the two parts of this message
+	sys_api::mutex_lock(m_write_buf_lock);
+
 	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
+	if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 	{
 		nwrote = socket_api::write(m_socket, buf, len);
 		if (nwrote >= 0)
@@ -171,6 +174,12 @@ void TcpConnection::_send(const char* buf, size_t len)
 		}
 	}
 
+	if (!faultError && remaining > 0) {
+		//write to write buffer
+		m_write_buf.memcpy_into(buf + nwrote, remaining);
+	}
+	sys_api::mutex_unlock(m_write_buf_lock);
+
 	//shutdown if socket work with fault
 	if (faultError) {
 		m_looper->disable_all(m_event_id);
@@ -179,12 +188,6 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
-	}
-
 	//enable write event, wait socket ready
 	m_looper->enable_write(m_event_id);
 }
-- 
2.43.0


From 406a66fbcf4967fcaa00583c42e6f9d9a1fd7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 41/46] fix: a retry timer was set while the failure callback's
 own connect was running

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 22d39c1..7c8066a 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -235,8 +235,8 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 		if (m_listener.on_connected) {
 			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 
-			//retry connection?
-			if (retry_sleep_ms>0) {
+			//retry connection?(the callback may have connected again already)
+			if (retry_sleep_ms>0 && get_connection_state() == TcpConnection::kDisconnected) {
 				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
 			}
-- 
2.43.0


From 5f88423b5b687c8f238af3b964121eaec8f9d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:43 +0000
Subject: [PATCH 42/46] fix: a server started again after join could never be
 stopped

m_shutdown_ing stayed set, so the second stop() returned at once and join() hung.
---
 source/cyNetwork/network/cyn_tcp_server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index c62f43d..d8997f4 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -155,6 +155,7 @@ void TcpServer::join(void)
 		delete work;
 	}
 	m_work_thread_pool.clear();
+	m_shutdown_ing = 0;
 	m_running = 0;
 
 	CY_LOG(L_DEBUG, "accept thread stop!");
-- 
2.43.0


From 0abecfda13036f8353d5e5479447b4fc76667e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:21 +0000
Subject: [PATCH 43/46] fix: a size_t was printed with %d in the file transfer
 client

---
 samples/filetransfer/ft_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 1d9d539..889a8e0 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -475,7 +475,7 @@ int main(int argc, char* argv[])
 	}
 
 	size_t downloadTime = (size_t)(client.m_endDownloadTime - client.m_beginDownloadTime)/(1000ll*1000ll);
-	CY_LOG(L_INFO, "Download complete, time=%d(sec), speed=%s/s", downloadTime, string_util::size_to_string(client.m_fileSize/downloadTime).c_str());
+	CY_LOG(L_INFO, "Download complete, time=%zd(sec), speed=%s/s", downloadTime, string_util::size_to_string(client.m_fileSize/downloadTime).c_str());
 
 	//combine file
 	if (!client.combineFile()) {
-- 
2.43.0


From 07adfbdb5613cbdff83b5c9df5d93a2e47dd09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 44/46] fix: a small or fast download divided by zero in the
 file transfer client

---
 samples/filetransfer/ft_client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 889a8e0..27d623f 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -254,7 +254,7 @@ public:
 				ctx->status = TS_Error;
 			}
 			else {
-				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime - ctx->beginTime);
+				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime > ctx->beginTime ? ctx->endTime - ctx->beginTime : 1);
 				CY_LOG(L_INFO, "Download thread[%d] success, offset=%zd, fragment_size=%s, crc=0x%08x, speed=%s/s, readBufMaxSize=%s", 
 					ctx->index, ctx->fileOffset, string_util::size_to_string((float)ctx->fragmentSize).c_str(), ctx->fragmentCRC, string_util::size_to_string(speed).c_str(),
 					string_util::size_to_string(conn->get_readebuf_max_size()).c_str()
@@ -335,6 +335,7 @@ public:
 		if (m_fileSize < MIN_FRAMEMENT_SIZE*(size_t)m_threadTounts) {
 			//small file
 			fragmentCounts = (int32_t)(m_fileSize / MIN_FRAMEMENT_SIZE);
+			if (fragmentCounts < 1) fragmentCounts = 1;
 		}
 		else {
 			fragmentCounts = m_threadTounts;
@@ -379,7 +380,7 @@ public:
 			CY_LOG(L_INFO, "Download speed: %s/s, Size:%s Percent:[%.2f%%]", 
 				string_util::size_to_string(downloadSpeed.first / ((size_t)m_downloadSpeed.get_time_period()/ (size_t)1000)).c_str(),
 				string_util::size_to_string(totalDownloadSize).c_str(),
-				(float)(totalDownloadSize*100 / m_fileSize));
+				m_fileSize == 0 ? 100.f : (float)(totalDownloadSize*100 / m_fileSize));
 
 			sys_api::thread_sleep(1000);
 		}
@@ -475,6 +476,7 @@ int main(int argc, char* argv[])
 	}
 
 	size_t downloadTime = (size_t)(client.m_endDownloadTime - client.m_beginDownloadTime)/(1000ll*1000ll);
+	if (downloadTime < 1) downloadTime = 1;
 	CY_LOG(L_INFO, "Download complete, time=%zd(sec), speed=%s/s", downloadTime, string_util::size_to_string(client.m_fileSize/downloadTime).c_str());
 
 	//combine file
-- 
2.43.0


From b957ba66a406f7e0079c91cc1459271439e8c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:26 +0000
Subject: [PATCH 45/46] fix: pushing an element of a growing ring queue onto
 itself read freed memory

---
 source/cyUtility/utility/cyu_ring_queue.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_ring_queue.h b/source/cyUtility/utility/cyu_ring_queue.h
index d0baa1b..dfa4a10 100644
--- a/source/cyUtility/utility/cyu_ring_queue.h
+++ b/source/cyUtility/utility/cyu_ring_queue.h
@@ -37,9 +37,13 @@ public:
 
 	void push(const T& value) {
 		if (get_free_size() == 0) {
+			T temp(value); //value may be an element of this queue
 			_auto_size((size_t)1);
+			m_vector[m_write] = temp;
+		}
+		else {
+			m_vector[m_write] = value;
 		}
-		m_vector[m_write] = value;
 		m_write = _next(m_write);
 	}
 
-- 
2.43.0


From fba000f244883c2728e40a28be5161432a5d5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 46/46] fix: the sample count of a locking period value was
 read without its lock

---
 source/cyUtility/utility/cyu_statistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..069af0d 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -92,6 +92,7 @@ public:
 
 	size_t total_counts(void) const
 	{
+		AutoLock lock(m_lock);
 		return m_valueQueue.size();
 	}
 
-- 
2.43.0

