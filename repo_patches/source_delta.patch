From 05988f350a660c05a3aa73d5b82533cbef7f195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 01/24] fix: BufferedTCPSocket connect/accept drop data and
 state of the previous connection

---
 include/crab/http/connection.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index ce6bf99..5d0762a 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -24,9 +24,19 @@ public:
 	void close(bool with_event = false);
 	bool is_open() const { return sock.is_open(); }
 
-	bool connect(const Address &address) { return sock.connect(address); }
-	bool connect_tls(const Address &address, const std::string &host) { return sock.connect_tls(address, host); }
-	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) { sock.accept(acceptor, accepted_addr); }
+	// connect and accept drop everything (unsent data, shutdown request) left from previous connection
+	bool connect(const Address &address) {
+		close();
+		return sock.connect(address);
+	}
+	bool connect_tls(const Address &address, const std::string &host) {
+		close();
+		return sock.connect_tls(address, host);
+	}
+	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) {
+		close();
+		sock.accept(acceptor, accepted_addr);
+	}
 
 	size_t read_some(uint8_t *val, size_t count) override;
 	using IStream::read_some;  // Version for other char types
-- 
2.43.0


From 413888d00c5ec773b03a4b8284fb69c9e6e96f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 02/24] fix: BufferedTCPSocket::write_shutdown flushes buffered
 data and sends FIN as soon as socket is writable

---
 include/crab/http/connection.hpp |  1 +
 include/crab/http/connection.hxx | 17 +++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index 5d0762a..d97d0d4 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -74,6 +74,7 @@ protected:
 	std::deque<StringStream> data_to_write;
 	size_t total_data_to_write = 0;
 	bool write_shutdown_asked  = false;
+	bool write_shutdown_sent   = false;
 
 	void write();
 	void sock_handler();
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..592a20d 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -33,6 +33,7 @@ CRAB_INLINE void BufferedTCPSocket::close(bool with_event) {
 	data_to_write.clear();
 	total_data_to_write  = 0;
 	write_shutdown_asked = false;
+	write_shutdown_sent  = false;
 	sock.close(with_event);
 }
 
@@ -92,23 +93,23 @@ CRAB_INLINE void BufferedTCPSocket::write_shutdown() {
 	if (!sock.is_open() || write_shutdown_asked)
 		return;
 	write_shutdown_asked = true;
-	if (data_to_write.empty()) {
-		sock.write_shutdown();
-		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
-	}
+	write();  // data buffered with BUFFER_ONLY must be sent before FIN
 }
 
 CRAB_INLINE void BufferedTCPSocket::write() {
-	bool was_empty = data_to_write.empty();
 	while (!data_to_write.empty()) {
 		total_data_to_write -= data_to_write.front().write_to(sock);
 		if (!data_to_write.front().empty())
 			break;
 		data_to_write.pop_front();
 	}
-	if (write_shutdown_asked && data_to_write.empty() && !was_empty) {
-		sock.write_shutdown();
-		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
+	if (write_shutdown_asked && data_to_write.empty()) {
+		if (!shutdown_timer.is_set())
+			shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
+		if (!write_shutdown_sent && sock.can_write()) {  // cannot while socket is connecting or full, will retry on next event
+			write_shutdown_sent = true;
+			sock.write_shutdown();
+		}
 	}
 }
 
-- 
2.43.0


From 949dc4d2b18f3df0a063d2312c191e41e62a1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 03/24] fix: read_datagram reads on after asynchronous error,
 so that readers are not stuck with datagrams in socket buffer

---
 include/crab/network_posix.hxx | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index 0e3aa01..c90e938 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -128,6 +128,8 @@ CRAB_INLINE bool write_datagram(const FileDescriptor &fd,
 	return true;
 }
 
+enum { MAX_DATAGRAM_READ_ATTEMPTS = 16 };  // Arbitrary, errors are either reported once or persist
+
 CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
     Callable &rw_handler,
     uint8_t *data,
@@ -143,12 +145,20 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 	// (while correct behaviour is reading, truncating to 0, returning EMSGSIZE).
 	// We protect clients semantic by reading into our own small buffer
 	uint8_t workaround_buffer[1];  // Uninitialized
-	ssize_t result = recvfrom(fd.get_value(),
-	    count ? data : workaround_buffer,
-	    count ? count : sizeof(workaround_buffer),
-	    details::CRAB_MSG_NOSIGNAL,
-	    in_addr.impl_get_sockaddr(),
-	    &in_len);
+	ssize_t result = -1;
+	for (int attempt = 0; attempt != MAX_DATAGRAM_READ_ATTEMPTS; ++attempt) {
+		in_len = sizeof(sockaddr_storage);
+		result = recvfrom(fd.get_value(),
+		    count ? data : workaround_buffer,
+		    count ? count : sizeof(workaround_buffer),
+		    details::CRAB_MSG_NOSIGNAL,
+		    in_addr.impl_get_sockaddr(),
+		    &in_len);
+		// Pending asynchronous error (ICMP report, etc.) is returned once, datagrams in socket buffer are not affected.
+		// We must read on, because nothing will wake us up for datagrams already in the buffer.
+		if (result >= 0 || errno == EAGAIN || errno == EWOULDBLOCK || errno == EMSGSIZE)
+			break;
+	}
 	if (result > static_cast<ssize_t>(count))  // Can only happen when reading into workaround_buffer
 		result = static_cast<ssize_t>(count);
 	RunLoop::current()->stats.push_record("R(recvfrom)", fd.get_value(), int(result));
@@ -163,7 +173,7 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 		if (errno != EMSGSIZE) {
 			// Sometimes (for example during adding/removing network adapters), errors could be returned on Linux
 			// We will ignore all errors here, in hope they will disappear soon
-			// TODO - if we get here, we will not be woke up by epoll any more, so
+			// TODO - if we get here (error persists), we will not be woke up by epoll any more, so
 			// we need to classify all errors here, like in TCPAcceptor
 			return {};
 		}
-- 
2.43.0


From eba00d719aae5c0cfa7d979837dd0047fe743e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 04/24] fix: DNSResolver handler gets its own copy of names and
 waits until worker leaves the resolver

---
 include/crab/network.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 8047475..1c8726a 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -363,8 +363,14 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
     : ab(std::bind(&DNSResolver::on_handler, this)), dns_handler(std::move(handler)) {}
 
 CRAB_INLINE void DNSResolver::on_handler() {
-	resolving = false;
-	dns_handler(names);
+	std::vector<Address> result;  // Our own copy, because handler can call resolve(), destroy this object, etc.
+	{
+		// Worker could still be in the middle of ab.call(), must wait before handler gets a chance to destroy this object
+		std::unique_lock<std::mutex> lock(details::DNSWorker::get_instance().dns_mutex);
+		resolving = false;
+		result.swap(names);
+	}
+	dns_handler(result);
 }
 
 CRAB_INLINE void DNSResolver::resolve(const std::string &host_name, uint16_t port, bool ipv4, bool ipv6) {
-- 
2.43.0


From 84f9c3f29bc7fc8b1bbc40077e895dbe9f98b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 05/24] fix: Signal::set_handler no more removes code draining
 signalfd, so signals after it are not lost

---
 include/crab/network.hpp       | 7 +++++++
 include/crab/network_posix.hxx | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hpp b/include/crab/network.hpp
index d2b39ea..76f3f09 100644
--- a/include/crab/network.hpp
+++ b/include/crab/network.hpp
@@ -123,12 +123,19 @@ private:
 class Signal {
 public:
 	explicit Signal(Handler &&cb, std::vector<int> signals = std::vector<int>{});
+#if CRAB_IMPL_EPOLL
+	void set_handler(Handler &&cb) { signal_handler = std::move(cb); }
+#else
 	void set_handler(Handler &&cb) { a_handler.handler = std::move(cb); }
+#endif
 	~Signal();
 
 	static bool running_under_debugger();
 	// Sometimes signals interfere with debugger. Use this fun to conditionally create Signal
 private:
+#if CRAB_IMPL_EPOLL
+	Handler signal_handler;  // a_handler drains fd, then calls signal_handler
+#endif
 	Callable a_handler;
 #if CRAB_IMPL_KEVENT || CRAB_IMPL_EPOLL
 	std::vector<int> signals;
diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index c90e938..7d0ed73 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -318,7 +318,8 @@ CRAB_INLINE void RunLoop::wakeup() {
 }
 
 CRAB_INLINE Signal::Signal(Handler &&cb, std::vector<int> ss)
-    : a_handler([&, cb]() {  // cb = std::move(cb) is C++14, we will keep C++11 compatibility for some time
+    : signal_handler(std::move(cb))
+    , a_handler([this]() {
 	    signalfd_siginfo info{};
 	    while (true) {
 		    // Several signals can be merged, we read all of them
@@ -327,7 +328,7 @@ CRAB_INLINE Signal::Signal(Handler &&cb, std::vector<int> ss)
 			    break;
 		    // Condition (bytes >= sizeof(info) && info.ssi_pid == 0) is true if called from terminal
 	    }
-	    cb();
+	    signal_handler();
     })
     , signals(std::move(ss)) {
 	if (signals.empty()) {
-- 
2.43.0


From c7d96e4978f0c933731c1226414ba1142a2545bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 06/24] fix: IMemoryStream::write_to loses bytes when output
 accepts less than offered

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From 5248e36e6aaf9874ecfaba91f37e0f0e3bb89147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 07/24] fix: CombinedIStream::write_to does not count bytes of
 its first part

---
 include/crab/streams.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..3bd069f 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -295,13 +295,14 @@ public:
 	}
 	using IStream::read_some;
 	size_t write_to(OStream &out, size_t max_count) override {
+		size_t count = 0;
 		if (!a->empty()) {
-			size_t count = a->write_to(out, max_count);
+			count = a->write_to(out, max_count);
 			max_count -= count;
 			if (!a->empty())
 				return count;
 		}
-		return b->write_to(out, max_count);
+		return count + b->write_to(out, max_count);
 	}
 	using IFiniteStream::write_to;
 };
-- 
2.43.0


From 8efe80cc4fc467351cc530c58b38154d75c391af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 08/24] fix: Client::write(std::string &&) counts body position
 of moved string

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..29f1414 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const size_t count = ss.size();  // ss is moved from below
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From 4e8835da0fe23316148d8293e3b11d9d2b2f83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 09/24] fix: HTTP header values with tabs inside or at the end
 are not rejected

---
 include/crab/http/request_parser.hxx  | 2 +-
 include/crab/http/response_parser.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..d2b8945 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -221,7 +221,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 			return HEADER_LF;
 		if (input == '\n')
 			return HEADER_LINE_START;
-		if (is_ctl(input))
+		if (is_ctl(input) && !is_sp(input))  // tabs are allowed https://tools.ietf.org/html/rfc7230#section-3.2
 			throw std::runtime_error{"Invalid character (control) in header value"};
 		if (header_cms_list && input == ',') {
 			process_ready_header();
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..b08c202 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -176,7 +176,7 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		}
 		if (input == '\n')
 			return HEADER_LINE_START;
-		if (is_ctl(input))
+		if (is_ctl(input) && !is_sp(input))  // tabs are allowed https://tools.ietf.org/html/rfc7230#section-3.2
 			throw std::runtime_error{"Invalid character (control) in header value"};
 		if (header_cms_list && input == ',') {
 			process_ready_header();
-- 
2.43.0


From d21dcf1ef23266bb6fd55c8e038c8463607982e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 10/24] fix: ServerConnection continues with data already
 received after response or web message is finished outside of its handler

---
 include/crab/http/connection.hpp |  6 +++++
 include/crab/http/connection.hxx | 46 ++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index d97d0d4..add6742 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -229,12 +229,18 @@ protected:
 
 	void sock_handler();
 	void on_wm_ping_timer();
+	void on_read_timer();
 	bool advance_state();
+	void finish_response();
 
 	Handler rwd_handler;
 
 	BufferedTCPSocket sock;
 
+	// When response (web message) is finished outside rwd_handler, peer could already send everything it is going to,
+	// so there will be no socket event. We wake rwd_handler up, it will continue with data already received
+	Timer read_timer;
+
 	State state                   = REQUEST_HEADER;
 	bool writing_web_message_body = false;  // Web Sockets are sockets, you can write in the middle of reading
 	Address peer_address;
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 592a20d..c7d7d05 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -427,7 +427,8 @@ CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     : read_buffer(8192)
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
     , rwd_handler(std::move(rwd_handler))
-    , sock([this]() { sock_handler(); }) {}
+    , sock([this]() { sock_handler(); })
+    , read_timer([this]() { on_read_timer(); }) {}
 
 CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 	close();
@@ -439,6 +440,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	read_timer.cancel();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
@@ -446,6 +448,10 @@ CRAB_INLINE void ServerConnection::close() {
 }
 
 CRAB_INLINE bool ServerConnection::read_next(Request &req) {
+	if (state == REQUEST_HEADER || state == REQUEST_BODY) {
+		read_timer.cancel();
+		advance_state();
+	}
 	if (state != REQUEST_READY)
 		return false;
 	req.body   = http_body_parser.body.clear();
@@ -465,6 +471,10 @@ CRAB_INLINE bool ServerConnection::read_next(Request &req) {
 }
 
 CRAB_INLINE bool ServerConnection::read_next(WebMessage &message) {
+	if (!writing_web_message_body && (state == WEB_MESSAGE_HEADER || state == WEB_MESSAGE_BODY)) {
+		read_timer.cancel();
+		advance_state();
+	}
 	if (state != WEB_MESSAGE_READY || writing_web_message_body)
 		return false;  // We can start streaming message at any state, but must not allow reading until finished
 	message = std::move(*web_message);
@@ -495,6 +505,7 @@ CRAB_INLINE void ServerConnection::web_socket_upgrade() {
 	wm_body_parser   = WebMessageBodyParser{};
 	state            = WEB_MESSAGE_HEADER;
 	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);  // Always server-side
+	read_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::write(Response &&resp) {
@@ -586,14 +597,8 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 		invariant(count <= *remaining_body_content_length, "Overshoot content-length");
 		*remaining_body_content_length -= count;
 		sock.write(val, count, bo);
-		if (*remaining_body_content_length == 0) {
-			if (!request_parser.req.keep_alive) {  // We sent it in our response header
-				read_buffer.clear();
-				sock.write_shutdown();
-			}
-			request_parser = RequestParser{};
-			state          = REQUEST_HEADER;
-		}
+		if (*remaining_body_content_length == 0)
+			finish_response();
 		return;
 	}
 	if (count == 0)
@@ -622,14 +627,8 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 		invariant(ss.size() <= *remaining_body_content_length, "Overshoot content-length");
 		*remaining_body_content_length -= ss.size();
 		sock.write(std::move(ss), bo);
-		if (*remaining_body_content_length == 0) {
-			if (!request_parser.req.keep_alive) {  // We sent it in our response header
-				read_buffer.clear();
-				sock.write_shutdown();
-			}
-			request_parser = RequestParser{};
-			state          = REQUEST_HEADER;
-		}
+		if (*remaining_body_content_length == 0)
+			finish_response();
 		return;
 	}
 	if (ss.empty())
@@ -650,17 +649,30 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		if (bo == BufferOptions::WRITE)
 			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
 		writing_web_message_body = false;
+		read_timer.once(0);
 		return;
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
 	invariant(!remaining_body_content_length, "write_last_chunk is for chunked encoding only");
 	sock.write(std::string{"0\r\n\r\n"}, bo);
+	finish_response();
+}
+
+CRAB_INLINE void ServerConnection::finish_response() {
 	if (!request_parser.req.keep_alive) {  // We sent it in our response header
 		read_buffer.clear();
 		sock.write_shutdown();
 	}
 	request_parser = RequestParser{};
 	state          = REQUEST_HEADER;
+	read_timer.once(0);
+}
+
+CRAB_INLINE void ServerConnection::on_read_timer() {
+	if (!sock.is_open() || is_writing_body())
+		return;
+	if (state == REQUEST_READY || state == WEB_MESSAGE_READY || advance_state())
+		rwd_handler();
 }
 
 CRAB_INLINE void ServerConnection::sock_handler() {
-- 
2.43.0


From e36d757ed2860360487918a39d2231eb0ea5b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:59 +0000
Subject: [PATCH 11/24] fix: 401 response to ErrorAuthorization has content
 length and is not written twice, exceptions do not leave run loop

---
 include/crab/http/server.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 29f1414..ec9f5dd 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -165,10 +165,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 		if (r_handler)
 			r_handler(who, std::move(request));
 	} catch (const ErrorAuthorization &ex) {
-		Response response;
-		response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
-		response.header.status = 401;
-		who->write(std::move(response));
+		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
+			Response response;
+			response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
+			response.header.status = 401;
+			response.set_body(std::string{});
+			who->write(std::move(response));
+		}
 		return;
 	} catch (const std::exception &ex) {
 		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
-- 
2.43.0


From 906b0cd2a2de24a54d4fadabdff51ae80c27386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 12/24] fix: rol() by 0 bits does not shift by full width,
 which is undefined behaviour

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..e588773 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));  // shift by full width is UB
 }
 
 namespace details {
-- 
2.43.0


From b8264a1ba2c2c39fbd7c9d135f0af02bac18084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 13/24] fix: web message continuation frames (opcode 0) are not
 rejected

---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..2a8d295 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // Continuation
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From ca69de92511f5af7505d9b4e7e1ff9c11dd4e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 14/24] fix: web message handler throwing from CLOSE is not
 called with second CLOSE on disconnect

---
 include/crab/http/server.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index ec9f5dd..1697a0b 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -187,11 +187,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 
 CRAB_INLINE void Server::on_client_handle_message(Client *who, WebMessage &&message) {
 	try {
-		auto opcode = message.opcode;
-		if (who->ws_handler)
+		if (message.opcode == WebMessageOpcode::CLOSE) {
+			auto handler    = std::move(who->ws_handler);
+			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect, even if handler throws
+			if (handler)
+				handler(std::move(message));
+		} else if (who->ws_handler)
 			who->ws_handler(std::move(message));
-		if (opcode == WebMessageOpcode::CLOSE)
-			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 	} catch (const std::exception &ex) {
 		std::cout << "HTTP socket request leads to throw/catch, what=" << ex.what() << std::endl;
 		who->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR});
-- 
2.43.0


From d70c48eacf55d06f9ef64f1be2e2283606e862a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 15/24] fix: ClientConnection and ServerConnection close() drop
 web message fragments of previous session

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index c7d7d05..4ae1861 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -172,6 +172,7 @@ CRAB_INLINE void ClientConnection::close() {
 	read_buffer.clear();
 	dns.cancel();
 	waiting_request.reset();
+	web_message.reset();
 	sock.close();
 	peer_address = Address();
 	protocol.clear();
@@ -441,6 +442,7 @@ CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
 	read_timer.cancel();
+	web_message.reset();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
-- 
2.43.0


From b3791de7289deb83237f047cef38f7708c941233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:43 +0000
Subject: [PATCH 16/24] fix: requests and messages received together with end
 of stream are answered before socket is closed

---
 include/crab/http/connection.hxx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 4ae1861..2b74821 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -319,8 +319,12 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 		return false;
 	try {
 		while (true) {
-			if (read_buffer.empty() && read_buffer.read_from(sock) == 0)
-				return false;
+			if (read_buffer.empty()) {
+				// Single read, because reading up to the end of stream closes socket before messages already read are answered
+				read_buffer.did_write(sock.read_some(read_buffer.write_ptr(), read_buffer.write_count()));
+				if (read_buffer.empty())
+					return false;
+			}
 			switch (state) {
 			case RESPONSE_HEADER:
 				response_parser.parse(read_buffer);
@@ -707,8 +711,12 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 		return false;
 	try {
 		while (true) {
-			if (read_buffer.empty() && read_buffer.read_from(sock) == 0)
-				return false;
+			if (read_buffer.empty()) {
+				// Single read, because reading up to the end of stream closes socket before messages already read are answered
+				read_buffer.did_write(sock.read_some(read_buffer.write_ptr(), read_buffer.write_count()));
+				if (read_buffer.empty())
+					return false;
+			}
 			switch (state) {
 			case REQUEST_HEADER:
 				request_parser.parse(read_buffer);
-- 
2.43.0


From 1366e0222454430dcd54b66fde9bb49002552c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:06 +0000
Subject: [PATCH 17/24] fix: ClientRequestSimple does not send next request
 over connection which server is about to close

---
 include/crab/http/client_request.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/client_request.hxx b/include/crab/http/client_request.hxx
index 094235f..da0b6c8 100644
--- a/include/crab/http/client_request.hxx
+++ b/include/crab/http/client_request.hxx
@@ -81,7 +81,10 @@ CRAB_INLINE void ClientRequestSimple::on_connection() {
 	if (!requesting)
 		return;  // Should not be possible
 	requesting = false;
-	timeout_timer.once(keep_connection_timeout_sec);
+	if (response.header.keep_alive)
+		timeout_timer.once(keep_connection_timeout_sec);
+	else  // server is about to close connection, next request needs a new one
+		connection.close();
 	r_handler(std::move(response));
 }
 
-- 
2.43.0


From 64edaec2c27198ba619018b3accab6d0465fc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 18/24] fix: data received by ClientConnection before request
 is sent is not taken for response to this request

---
 include/crab/http/connection.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 2b74821..064a4e7 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -417,7 +417,12 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				}
 				state = WEB_MESSAGE_READY;
 				return true;
-			default:  // waiting write, closing, etc
+			case WAITING_WRITE_REQUEST:
+				// Must not be taken for response to the next request
+				read_buffer.clear();
+				sock.close(true);
+				return false;
+			default:  // closing, etc
 				return false;
 			}
 		}
-- 
2.43.0


From 12ccb459580da6cd78e325684e2e8fff44b8b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 19/24] fix: RequestParser does not accept request with empty
 method after LF

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index d2b8945..1bb9a7e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From 7343b2659d3bee2379e1f2108665ee9d7b8eea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 20/24] fix: HTTP version 2.0 and later is rejected as
 unsupported

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 1bb9a7e..6406e07 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index b08c202..29dfe10 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From 0a9d377ca71569cbaadd28a278bce98c0b0409fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 21/24] fix: trailer line can end with LF, like header line

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 6406e07..da702cc 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -451,6 +451,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From 8fb137071c137914d166372c14c4e135e75db168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 22/24] fix: chunked transfer encoding is accepted after other
 encodings, not before them

---
 include/crab/http/request_parser.hxx  | 6 ++++--
 include/crab/http/response_parser.hxx | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index da702cc..2043fb7 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -264,14 +264,16 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
+			if (req.transfer_encoding_chunked)
+				throw std::runtime_error{"chunk encoding must be applied once"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 29dfe10..7e98dfe 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -219,14 +219,16 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
+			if (req.transfer_encoding_chunked)
+				throw std::runtime_error{"chunk encoding must be applied once"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From 406a5e0957015665449fd2b4c6022c01ba7f31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 23/24] fix: reason of web socket close frame is not truncated
 in the middle of UTF-8 character

---
 include/crab/http/connection.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 064a4e7..7a4e36c 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -16,10 +16,16 @@ CRAB_INLINE std::string web_message_create_close_body(const std::string &reason,
 		return result;
 	if (close_code < 1000)  // Spec is silent on what to do in this case
 		close_code = 1000;
-	result.reserve(2 + reason.size());
+	size_t count = reason.size();
+	if (count > 123) {  // Body of control frame is at most 125 bytes
+		count = 123;
+		while (count > 0 && (static_cast<unsigned char>(reason[count]) & 0xC0) == 0x80)
+			count--;  // Must remain valid UTF-8, so not truncating in the middle of code point
+	}
+	result.reserve(2 + count);
 	result.push_back(static_cast<char>(close_code >> 8));
 	result.push_back(static_cast<char>(close_code & 0xFF));
-	result += reason;
+	result.append(reason, 0, count);
 	return result;
 }
 
-- 
2.43.0


From 384e9953a71303feaba6e83d21f864946ddaa32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:54 +0000
Subject: [PATCH 24/24] fix: exception of web socket handler called on
 disconnect does not leave run loop

---
 include/crab/http/server.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 1697a0b..b85dfc1 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -151,7 +151,7 @@ CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it)
 	if (who->rwd_handler)
 		who->rwd_handler();
 	if (who->ws_handler)
-		who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
+		on_client_handle_message(who, WebMessage{WebMessageOpcode::CLOSE, {},
 		    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
 	clients.erase(it);
 	accept_all();  // In case we were over limit
-- 
2.43.0

