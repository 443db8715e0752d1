From 26bebf6cdc8ed67dbea9723a8503a81008b5e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:47 +0000
Subject: [PATCH 01/44] fix: read unix socket messages completely

protocol::readData accepted a short read as a complete field, so a message of
which the pieces arrived separately was truncated and the stream misframed. A
signal interrupting the read dropped the connection.
---
 scalopus_transport/src/protocol.cpp | 37 ++++++++++-------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..96dd2c7 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -34,6 +34,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <array>
+#include <cerrno>
 #include <cstring>
 #include <iostream>
 
@@ -49,42 +50,28 @@ bool readData(int fd, size_t length, Data& incoming)
   incoming.resize(0);
   incoming.reserve(chunk_size);
   size_t received{ 0 };
-  while (true)
+  // The socket may hand out the data in arbitrary pieces, so read until all data is obtained.
+  while (received != length)
   {
     ssize_t chunk_received = ::read(fd, buf.data(), std::min(length - received, chunk_size));
     if (chunk_received == -1)
     {
+      if (errno == EINTR)
+      {
+        continue;  // Interrupted by a signal before anything was read, try again.
+      }
       return false;  // this should not happen as it indicates a broken transmission or broken file descriptor.
     }
+    if (chunk_received == 0)
+    {
+      // end of file.
+      return false;
+    }
 
     // Add the data to incoming.
     incoming.resize(received + static_cast<size_t>(chunk_received));
     std::memcpy(&incoming[received], buf.data(), static_cast<size_t>(chunk_received));
     received += static_cast<size_t>(chunk_received);
-
-    // If we have received all data, continue.
-    if (received == length)
-    {
-      break;
-    }
-
-    if (chunk_received == chunk_size)
-    {
-      // read the next chunk.
-      continue;
-    }
-
-    if (chunk_received == -1)
-    {
-      // an error occured.
-      return false;
-    }
-    else if (chunk_received == 0)
-    {
-      // end of file.
-      return false;
-    }
-    break;
   }
   return true;
 }
-- 
2.43.0


From 1e940ae7a0d67de8ce0552db109fb1c3d89ccb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:13 +0000
Subject: [PATCH 02/44] fix: write unix socket messages completely

A signal can interrupt send after part of the data was accepted; the remainder
was never written, which shifted all following messages on the connection.
---
 scalopus_transport/src/protocol.cpp | 36 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 96dd2c7..e10a000 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -139,6 +139,28 @@ bool receive(int fd, Msg& incoming)
   return false;
 }
 
+/**
+ * @brief Write all of the data to the socket, also if it is accepted in pieces or a signal interrupts the call.
+ */
+static bool sendData(int fd, const void* data, size_t length)
+{
+  size_t sent{ 0 };
+  while (sent != length)
+  {
+    const ssize_t chunk_sent = ::send(fd, static_cast<const char*>(data) + sent, length - sent, MSG_NOSIGNAL);
+    if (chunk_sent == -1)
+    {
+      if (errno == EINTR)
+      {
+        continue;  // Interrupted by a signal before anything was written, try again.
+      }
+      return false;
+    }
+    sent += static_cast<size_t>(chunk_sent);
+  }
+  return true;
+}
+
 bool send(int fd, const Msg& outgoing)
 {
   if (fd == 0)
@@ -149,35 +171,31 @@ bool send(int fd, const Msg& outgoing)
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
   // Send request id.
-  if (::send(fd, &outgoing.request_id, sizeof(outgoing.request_id), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(outgoing.request_id)))
+  if (!sendData(fd, &outgoing.request_id, sizeof(outgoing.request_id)))
   {
     return false;
   }
 
   // Send endpoint length
-  if (::send(fd, &length_endpoint_name, sizeof(length_endpoint_name), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(length_endpoint_name)))
+  if (!sendData(fd, &length_endpoint_name, sizeof(length_endpoint_name)))
   {
     return false;
   }
 
   // Send endpoint name.
-  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(length_endpoint_name))
+  if (!sendData(fd, outgoing.endpoint.data(), length_endpoint_name))
   {
     return false;
   }
 
   // Send data length
-  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
+  if (!sendData(fd, &length_data, sizeof(length_data)))
   {
     return false;
   }
 
   // Send data
-  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(outgoing.data.size()))
+  if (!sendData(fd, outgoing.data.data(), outgoing.data.size()))
   {
     return false;
   }
-- 
2.43.0


From 934e55aadb433d88969e907f313ba3645b951ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:13 +0000
Subject: [PATCH 03/44] fix: refuse unix socket messages that do not fit the
 length fields

An endpoint name over 65535 bytes was cut to its size modulo 65536 and the
request was delivered to the endpoint of that shorter name, if any.
---
 scalopus_transport/src/protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index e10a000..9f33a0d 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -37,6 +37,7 @@
 #include <cerrno>
 #include <cstring>
 #include <iostream>
+#include <limits>
 
 namespace scalopus
 {
@@ -167,6 +168,11 @@ bool send(int fd, const Msg& outgoing)
   {
     return false;
   }
+  if (outgoing.endpoint.size() > std::numeric_limits<uint16_t>::max() ||
+      outgoing.data.size() > std::numeric_limits<uint32_t>::max())
+  {
+    return false;  // Doesn't fit in the length fields.
+  }
   uint16_t length_endpoint_name = static_cast<uint16_t>(outgoing.endpoint.size());
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
-- 
2.43.0


From 214201355a9526445d0ad8e7c56ebddf6ff7f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 04/44] fix: register a request before sending it

The promise was stored after the request was sent. A response that arrived in
between did not find its request: it was handed to the client side endpoint as
unsolicited data and the future never became ready.
---
 scalopus_transport/src/transport_unix.cpp | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..9a28317 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -146,18 +146,28 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  // Store the promise in the map before sending, the response may arrive before send returns.
+  {
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    sent = protocol::send(client_fd_, outgoing_msg);
+  }
+
+  if (!sent)
+  {
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto request_it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (request_it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      request_it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(request_it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From 0801f7a01951b73ae2936440199d813cc8eae8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 05/44] fix: fail the outstanding requests when the connection
 is lost

Futures of requests in flight when the server went away never became ready,
and the partially received message was still processed. Also make the members
that are shared between the worker and callers atomic.
---
 scalopus_transport/src/transport_unix.cpp | 14 +++++++++++++-
 scalopus_transport/src/transport_unix.h   |  5 +++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 9a28317..7227ef2 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -275,7 +275,19 @@ void TransportUnix::work()
       {
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
-        client_fd_ = 0;
+        {
+          // From here on, sending fails.
+          std::lock_guard<std::mutex> wlock(write_lock_);
+          client_fd_ = 0;
+        }
+        // The outstanding requests will never be answered.
+        std::lock_guard<std::mutex> lock(request_lock_);
+        for (auto& request : ongoing_requests_)
+        {
+          request.second.first.set_exception(std::make_exception_ptr(communication_error("Connection was lost.")));
+        }
+        ongoing_requests_.clear();
+        break;
       }
 
       // lock the requests map.
diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 04fd730..0314fbb 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -31,6 +31,7 @@
 #define SCALOPUS_TRANSPORT_TRANSPORT_UNIX_INTERNAL_H
 
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <set>
@@ -86,10 +87,10 @@ private:
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
   int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  std::atomic_int client_fd_{ 0 };  //!< File descriptor from connecting to a server, zero if connection was lost.
   std::size_t client_pid_{ 0 };
 
-  bool running_{ false };  //!< Boolean to quit the worker thread.
+  std::atomic_bool running_{ false };  //!< Boolean to quit the worker thread.
 
   std::set<int> connections_;  //!< Open connections, also holds server_fd_ and client_fd_.
 
-- 
2.43.0


From 4f3d5475c0a07da6b1cb7bca3d8b01264a750796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 06/44] fix: survive failing to serve or connect a unix
 transport

The destructor joined the worker thread that is only started on success, such
that connecting to a server that is gone or serving twice terminated the
process instead of returning nullptr. The socket leaked as well.
---
 scalopus_transport/src/transport_unix.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 7227ef2..a3d8b2f 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -56,6 +56,7 @@ bool TransportUnix::serve()
     logger_("[TransportUnix] Could not create socket.");
     return false;
   }
+  connections_.insert(server_fd_);  // ensures it gets closed when we are destroyed.
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -88,8 +89,6 @@ bool TransportUnix::serve()
     //  logger_("[TransportUnix] Succesfully bound: " + ss.str());
   }
 
-  connections_.insert(server_fd_);
-
   // If we get here, we are golden, we got a working unix domain socket and can start our worker thread.
   running_ = true;
   thread_ = std::thread([this]() { work(); });
@@ -106,6 +105,7 @@ bool TransportUnix::connect(std::size_t pid)
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
     return false;
   }
+  connections_.insert(client_fd_);  // ensures it gets closed when we are destroyed.
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -127,7 +127,6 @@ bool TransportUnix::connect(std::size_t pid)
   {
     //  logger_("[TransportUnix] Succesfully connected: " + ss.str());
   }
-  connections_.insert(client_fd_);
 
   running_ = true;
   thread_ = std::thread([&]() { work(); });
@@ -215,7 +214,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())  // it only runs if serve or connect was successful.
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
-- 
2.43.0


From 400f00260c2307c3301aad17f71f84203aed031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 07/44] fix: look up the endpoint of a request under the
 endpoint lock

The worker thread searched the map of endpoints while addEndpoint could be
modifying it from another thread.
---
 scalopus_transport/src/transport_unix.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index a3d8b2f..9afc318 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -418,12 +418,11 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
-    Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    return endpoint->handle(*this, request.data, response.data);
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From cea74578d05fdc361eb8593c4d0b948fad386d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 08/44] fix: do not let a malformed request terminate the
 server

The built-in endpoints throw on requests they cannot decode, which left the
worker thread and terminated the process that is being traced. The trace
mapping endpoint accessed the first byte of an empty request.
---
 .../src/endpoint_trace_mapping.cpp             |  2 +-
 scalopus_transport/src/transport_unix.cpp      | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..4b266f9 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && request.front() == 'm')
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 9afc318..57bc871 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -421,8 +421,22 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   const auto endpoint = getEndpoint(request.endpoint);
   if (endpoint != nullptr)
   {
-    // Let the endpoint handle the data and if necessary respond.
-    return endpoint->handle(*this, request.data, response.data);
+    // Let the endpoint handle the data and if necessary respond. What it does with data from a client should never
+    // bring down this process.
+    try
+    {
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (const std::exception& e)
+    {
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed handling a request: " + e.what());
+      return false;
+    }
+    catch (...)
+    {
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed handling a request.");
+      return false;
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 018956f36d09910838fd709743b1b1fa30ca5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 09/44] fix: only hand broadcasts to the unsolicited handler

The response to a request that was dropped in the mean time was handed to the
client side endpoint as if it were broadcast data. The handler was also called
with the request and endpoint locks held, such that using the transport from
it deadlocked.
---
 scalopus_transport/src/transport_unix.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 57bc871..1a81180 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -293,7 +293,7 @@ void TransportUnix::work()
       }
 
       // lock the requests map.
-      std::lock_guard<std::mutex> lock(request_lock_);
+      std::unique_lock<std::mutex> lock(request_lock_);
       // Try to find a promise for the message we just received.
       auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });
       if (request_it != ongoing_requests_.end())
@@ -305,18 +305,18 @@ void TransportUnix::work()
         }
         ongoing_requests_.erase(request_it);  // remove the request promise from the map.
       }
-      else
+      else if (incoming.request_id == 0)
       {
-        // no active request for this outstanding. Hand it off to the endpoint with this name.
-        std::lock_guard<std::mutex> elock(endpoint_mutex_);
-        const auto it = endpoints_.find(incoming.endpoint);
-        if (it != endpoints_.end())
+        // A broadcast (always id 0), not the late response to a dropped request. Hand it off to the endpoint with this
+        // name, without holding any locks such that the endpoint can use the transport.
+        lock.unlock();
+        const auto endpoint = getEndpoint(incoming.endpoint);
+        if (endpoint != nullptr)
         {
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
-          Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          if (endpoint->unsolicited(*this, incoming.data, response.data))
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
-- 
2.43.0


From 9860a898da2bf5c81b05e768ef8e46c0a6e81e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 10/44] fix: ignore the descriptor sets if select failed

If a signal interrupts select the sets are unmodified, so every connection was
considered readable and the worker blocked in accept or read.
---
 scalopus_transport/src/transport_unix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 1a81180..fb621ce 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -254,6 +254,9 @@ void TransportUnix::work()
     if (select_result == -1)
     {
       logger_("[TransportUnix]: Failure occured on select.");
+      // Most likely interrupted by a signal, the sets don't hold valid information.
+      FD_ZERO(&read_fds);
+      FD_ZERO(&except_fds);
     }
 
     // Handle server stuff, accept new connection:
-- 
2.43.0


From c33dedcf6aebc97ba2325206e6c871265e7a0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 11/44] fix: keep serving existing clients if accept fails

If the process is out of file descriptors accept fails for as long as a client
waits to be accepted, and the worker never got to the connected clients.
---
 scalopus_transport/src/transport_unix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index fb621ce..26b2f04 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -267,9 +267,11 @@ void TransportUnix::work()
       if (client == -1)
       {
         logger_("[TransportUnix] Could not accept client.");
-        continue;
       }
-      connections_.insert(client);
+      else
+      {
+        connections_.insert(client);
+      }
     }
 
     // handle client readable:
-- 
2.43.0


From fd6a06817d2037ad40481e8b94c7005209b41e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 12/44] fix: send broadcasts in the order they were issued

Broadcasts that were queued between two rounds of the transport's worker were
sent in reverse order.
---
 scalopus_interface/src/transport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..e843bc3 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.erase(broadcast_messages_.begin());  // First in, first out.
   return tmp;
 }
 
-- 
2.43.0


From 9c2192cf71241b24c63fef960272ece00e40b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 13/44] fix: do not dereference a missing loopback endpoint

A request for an endpoint that doesn't exist on the server crashed right after
its future was failed.
---
 scalopus_transport/src/transport_loopback.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..3cb5118 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -104,6 +104,7 @@ void TransportLoopback::work()
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
         Data resp;
-- 
2.43.0


From cd0b4fd7d2690f69131665cb44ef39ec93b8dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 14/44] fix: guard the loopback transport's state against its
 worker thread

Connecting a client modified the list of clients while the server's worker
iterated over it, and the worker of a client could run before the server it
talks to was assigned.
---
 scalopus_transport/src/transport_loopback.cpp | 20 ++++++++++++-------
 scalopus_transport/src/transport_loopback.h   |  4 +++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 3cb5118..ce31441 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -32,8 +32,13 @@
 
 namespace scalopus
 {
-TransportLoopback::TransportLoopback()
+TransportLoopback::TransportLoopback() : TransportLoopback{ nullptr }
 {
+}
+
+TransportLoopback::TransportLoopback(Ptr server) : server_{ server }
+{
+  // The server must be known before the worker starts.
   running_ = true;
   thread_ = std::thread([&]() { work(); });
 }
@@ -44,13 +49,9 @@ TransportLoopback::~TransportLoopback()
   thread_.join();
 }
 
-TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
-{
-  server_ = server;
-}
-
 void TransportLoopback::addClient(Transport::WeakPtr client)
 {
+  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
   clients_.push_back(client);
 }
 
@@ -124,7 +125,12 @@ void TransportLoopback::work()
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
         const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        std::vector<Transport::WeakPtr> clients;
+        {
+          std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
+          clients = clients_;
+        }
+        for (auto weak_client : clients)
         {
           auto client = weak_client.lock();
           if (client != nullptr)
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..80ea75f 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <scalopus_transport/transport_loopback.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <memory>
@@ -80,6 +81,7 @@ private:
 
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
+  mutable std::mutex clients_lock_;          //!< Lock to guard the list of clients.
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
 
   /**
@@ -87,7 +89,7 @@ private:
    */
   void work();
 
-  bool running_{ true };  //!< Bool to stop the worker loop.
+  std::atomic_bool running_{ true };  //!< Bool to stop the worker loop.
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 7b7e68e8aab50a8658c39233ccfae5e68b4aad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 15/44] fix: handle a server that can not be connected to in
 the endpoint manager

The transport factories return nullptr on failure, for example if the server
went away after it was discovered, and the manager dereferenced that.
---
 scalopus_general/src/endpoint_manager_poll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..849ceea 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -84,7 +84,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
   auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  if ((transport == nullptr) || !transport->isConnected())
   {
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
-- 
2.43.0


From e566e9160832ef4622d3111ae1c8eccc6309b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 16/44] fix: survive a server that vanishes while the endpoint
 manager questions it

The failing introspection request threw out of manage(), which terminated the
process when polling, and a connection without endpoints was kept.
---
 scalopus_general/src/endpoint_manager_poll.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 849ceea..dfb34d3 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -89,13 +89,24 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
   }
-  transports_[destination->hash_code()] = transport;
-  transport_endpoints_[transport] = {};
 
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
-  const auto supported = introspect_client->supported();
+  std::vector<std::string> supported;
+  try
+  {
+    supported = introspect_client->supported();
+  }
+  catch (const std::exception& e)
+  {
+    // We lost the connection or got something invalid, it will be attempted again if the server is still there.
+    log("[scalopus] Failed to retrieve the endpoints of " + std::string(*destination) + ": " + e.what());
+    return;
+  }
+  transports_[destination->hash_code()] = transport;
+  transport_endpoints_[transport] = {};
+
   for (const auto& supported_endpoint : supported)
   {
     const auto it = endpoint_factories_.find(supported_endpoint);
-- 
2.43.0


From 852222637380efaf6aacdf505dd9d874ee9258dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 17/44] fix: leave processes that do not answer out of the
 process information

The process id was uninitialised if the process didn't answer in time, and the
provider reported a process by that id. A process that is gone aborted the
update for all other processes.
---
 .../scalopus_general/endpoint_process_info.h       |  2 +-
 scalopus_general/src/general_provider.cpp          | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..67c138a 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -50,7 +50,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id, zero if unknown because there was no answer.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..38c4a81 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -61,8 +61,18 @@ void GeneralProvider::updateMapping()
     auto endpoint_general = EndpointManager::findEndpoint<scalopus::EndpointProcessInfo>(transport_endpoints.second);
     if (endpoint_general != nullptr)
     {
-      const auto process_mapping = endpoint_general->processInfo();
-      mapping_[process_mapping.pid] = process_mapping;
+      try
+      {
+        const auto process_mapping = endpoint_general->processInfo();
+        if (process_mapping.pid != 0)  // zero if the process did not answer in time.
+        {
+          mapping_[process_mapping.pid] = process_mapping;
+        }
+      }
+      catch (const std::exception&)
+      {
+        // Most likely this process is gone, that should not affect the information of the other processes.
+      }
     }
   }
 }
-- 
2.43.0


From 1cd454d13b4c399d31f835c26789891c550913b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 18/44] fix: let a vanished process not abort the mapping
 update

One process that could not be queried made updateMapping throw, such that the
names of all processes were lost and a trace session's thread terminated.
---
 scalopus_tracing/src/scope_tracing_provider.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2bee79b..bb912af 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -63,11 +63,18 @@ void ScopeTracingProvider::updateMapping()
 
     if (endpoint_scope_tracing != nullptr)
     {
-      // We found the correct endpoint, retrieve its mappings.
-      const auto process_mapping = endpoint_scope_tracing->mapping();
+      try
+      {
+        // We found the correct endpoint, retrieve its mappings.
+        const auto process_mapping = endpoint_scope_tracing->mapping();
 
-      // Insert the mappings into the accumulated map.
-      mapping.insert(process_mapping.begin(), process_mapping.end());
+        // Insert the mappings into the accumulated map.
+        mapping.insert(process_mapping.begin(), process_mapping.end());
+      }
+      catch (const std::exception&)
+      {
+        // Most likely this process is gone, that should not affect the mappings of the other processes.
+      }
     }
   }
 
-- 
2.43.0


From 0b52a4b8432ac01593320cdbcefdf6ded7e6b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 19/44] fix: guard the process name against concurrent requests

setProcessName modified the string while the transport's worker could be
reading it to answer a request.
---
 .../include/scalopus_general/endpoint_process_info.h        | 4 +++-
 scalopus_general/src/endpoint_process_info.cpp              | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 67c138a..aeaa89a 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport.h>
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace scalopus
@@ -80,7 +81,8 @@ public:
   bool handle(Transport& server, const Data& request, Data& response);
 
 private:
-  ProcessInfo info_;  //!< The process info.
+  ProcessInfo info_;       //!< The process info.
+  std::mutex name_mutex_;  //!< The name may be set while the transport's thread is handling a request.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..dcb5ad0 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -54,6 +54,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<std::mutex> lock(name_mutex_);
   info_.name = process_name;
 }
 
@@ -66,7 +67,10 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   {
     json jdata = json::object();
     jdata["pid"] = info_.pid;
-    jdata["name"] = info_.name;
+    {
+      std::lock_guard<std::mutex> lock(name_mutex_);
+      jdata["name"] = info_.name;
+    }
     jdata["threads"] = scalopus::ThreadNameTracker::getInstance().getMap();
     response = json::to_bson(jdata);
     return true;
-- 
2.43.0


From ae11eb75073ca2fb146da242e00fefda2a23af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 20/44] fix: name the series of TRACE_COUNT count

The macro registers its counter with an empty series name, which resulted in a
series without name instead of the documented 'count'.
---
 scalopus_tracing/src/scope_tracing_provider.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index bb912af..c596e3f 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -107,15 +107,18 @@ std::pair<std::string, std::string> ScopeTracingProvider::splitCounterSeriesName
 {
   std::pair<std::string, std::string> res;
   auto index = trace_string.find("/");
-  if ((index != std::string::npos) && (index + 1 <= trace_string.size()))
+  if (index != std::string::npos)
   {
     res.first = trace_string.substr(0, index);
-    res.second = std::string{ std::next(trace_string.begin(), static_cast<long>(index + 1)), trace_string.end() };
+    res.second = trace_string.substr(index + 1);
   }
   else
   {
     res.first = trace_string;
-    res.second = "count";
+  }
+  if (res.second.empty())
+  {
+    res.second = "count";  // default series, TRACE_COUNT provides an empty series name.
   }
   return res;
 }
-- 
2.43.0


From 4d60f6b13ea4b9260421630f4d2f1a1511ad7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:30 +0000
Subject: [PATCH 21/44] fix: parse every babeltrace line without throwing

Numbers out of range and empty braces threw, which terminated the process from
the parser thread. A line that does not start with the timestamp was cut wrong
and the time of a line that couldn't be parsed was uninitialised.
---
 .../scalopus_tracing/ctfevent.h               |  2 +-
 scalopus_tracing/src/lttng/ctfevent.cpp       | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..962653b 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -49,17 +49,17 @@ CTFEvent::CTFEvent(std::string line)
 
   // Extract the timestamp, its between []
   size_t start_pos = line.find("[");
-  size_t end_pos = line.find("]");
+  size_t end_pos = line.find("]", start_pos == std::string::npos ? 0 : start_pos);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
   }
-  std::string timestamp_str = line.substr(start_pos + 1, end_pos - 1);
+  std::string timestamp_str = line.substr(start_pos + 1, end_pos - start_pos - 1);
   try
   {
     timestamp_ = std::stod(timestamp_str);
   }
-  catch (const std::invalid_argument&)
+  catch (const std::logic_error&)  // not a number, or out of range.
   {
     return;
   }
@@ -94,6 +94,11 @@ CTFEvent::CTFEvent(std::string line)
   tracepoint_domain_ = trace_point.substr(0, split_point);
   tracepoint_name_ = trace_point.substr(split_point + 1, trace_point.size() - split_point);
 
+  // Returns what is between curly braces, without the space after the opening and before the closing one.
+  auto betweenBraces = [&line](size_t open, size_t close) -> std::string {
+    return (close - open < 3) ? std::string{} : line.substr(open + 2, close - open - 1 - 2);
+  };
+
   // Obtain the stream context between the curly braces.
   start_pos = end_pos;
   start_pos = line.find("{", start_pos);
@@ -102,7 +107,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string stream_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string stream_context = betweenBraces(start_pos, end_pos);
 
   // Obtain the event context between the curly braces.
   start_pos = end_pos;
@@ -112,7 +117,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string event_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string event_context = betweenBraces(start_pos, end_pos);
 
   // Obtain the trace data between the curly braces.
   start_pos = end_pos;
@@ -122,7 +127,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string trace_data = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string trace_data = betweenBraces(start_pos, end_pos);
 
   // Make a lambda that can convert the syntax between the curly braces (comma separated values) into a map of integers.
   auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {
@@ -163,7 +168,7 @@ CTFEvent::CTFEvent(std::string line)
         // if value is a string, this will fail, we need to catch that.
         res[key] = std::stoull(value);
       }
-      catch (const std::invalid_argument&)
+      catch (const std::logic_error&)  // not a number, or out of range.
       {
       }
     }
-- 
2.43.0


From 428352673bd9e25683edb428d7529e00021b9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:30 +0000
Subject: [PATCH 22/44] fix: ensure a babeltrace callback does not run after it
 was disabled

disable() modified the callback while the parser thread could be executing it,
the source that disabled it then used or destroyed the events it writes to.
---
 .../include_consumer/scalopus_tracing/babeltrace_parser.h   | 6 ++++++
 scalopus_tracing/src/lttng/babeltrace_parser.cpp            | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..fcd058f 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -55,11 +55,17 @@ public:
     bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
 
+    /**
+     * @brief Disable this callback. It does not run, nor will it run again, once this returns.
+     */
     void disable()
     {
+      std::lock_guard<std::recursive_mutex> lock(mutex);
       active = false;
       callback = nullptr;
     }
+
+    std::recursive_mutex mutex;  //! Held while the callback is executed.
   };
 
   using Ptr = std::shared_ptr<BabeltraceParser>;
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..5b2fd75 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -99,12 +99,14 @@ void BabeltraceParser::process(FILE* stdout)
           auto event = parse(line);
           for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
           {
+            std::unique_lock<std::recursive_mutex> callback_lock((*it)->mutex);
             if ((*it)->active == false)
             {
               // session went inactive, remove it.
               std::stringstream ss;
               ss << "[BabeltraceParser] callback inactive: " << it->get();
               logger_(ss.str());
+              callback_lock.unlock();
               it = sessions_recording_.erase(it);
               continue;
             }
-- 
2.43.0


From a9d92658ca136da1bd887fd678638bcf8f6e7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:55 +0000
Subject: [PATCH 23/44] fix: process all babeltrace lines that arrived

fgets took all available lines into its buffer but only returned one; the
others had to wait until babeltrace printed more. Lines over 1023 characters
were parsed in pieces and halting blocked on an incomplete line.
---
 .../scalopus_tracing/babeltrace_parser.h      |  5 ++
 .../src/lttng/babeltrace_parser.cpp           | 80 +++++++++++--------
 2 files changed, 53 insertions(+), 32 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index fcd058f..974ba35 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -105,6 +105,11 @@ public:
   static CTFEvent parse(std::string line);
 
 private:
+  /**
+   * @brief Parse a line and pass the event to all recording sessions.
+   */
+  void processLine(const std::string& line);
+
   std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 5b2fd75..8a3ff2f 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,9 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <unistd.h>
+#include <array>
+#include <cerrno>
 #include <iostream>
 #include <sstream>
 
@@ -50,6 +53,35 @@ void BabeltraceParser::setLogger(LoggingFunction logger)
   logger_ = logger;
 }
 
+void BabeltraceParser::processLine(const std::string& line)
+{
+  // lock, if recording sessions, parse and pass to all recording sessions.
+  std::lock_guard<std::mutex> lock(mutex_);
+  if (!sessions_recording_.empty())
+  {
+    auto event = parse(line);
+    for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
+    {
+      std::unique_lock<std::recursive_mutex> callback_lock((*it)->mutex);
+      if ((*it)->active == false)
+      {
+        // session went inactive, remove it.
+        std::stringstream ss;
+        ss << "[BabeltraceParser] callback inactive: " << it->get();
+        logger_(ss.str());
+        callback_lock.unlock();
+        it = sessions_recording_.erase(it);
+        continue;
+      }
+      if ((*it)->callback)
+      {
+        (*it)->callback(event);
+      }
+      it++;
+    }
+  }
+}
+
 void BabeltraceParser::process(FILE* stdout)
 {
   if (stdout == nullptr)
@@ -60,7 +92,8 @@ void BabeltraceParser::process(FILE* stdout)
 
   // start the processing.
   processing_.store(true);
-  std::array<char, 1024> tmp;
+  std::array<char, 4096> tmp;
+  std::string pending;
   int fd = fileno(stdout);
   fd_set read_fds;
   fd_set write_fds;
@@ -84,42 +117,25 @@ void BabeltraceParser::process(FILE* stdout)
     }
     if (FD_ISSET(fd, &read_fds))
     {
-      // read line
-      std::string line;
-      if (std::fgets(tmp.data(), tmp.size(), stdout))
+      // Read what is available, the part of a line that's still incomplete is kept until the remainder arrives.
+      const ssize_t count = ::read(fd, tmp.data(), tmp.size());
+      if (count > 0)
       {
-        line = std::string(tmp.data());
+        pending.append(tmp.data(), static_cast<std::size_t>(count));
       }
-      if (!line.empty())
+      size_t start = 0;
+      for (size_t end = pending.find('\n'); end != std::string::npos; end = pending.find('\n', start))
       {
-        // lock, if recording sessions, parse and pass to all recording sessions.
-        std::lock_guard<std::mutex> lock(mutex_);
-        if (!sessions_recording_.empty())
-        {
-          auto event = parse(line);
-          for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
-          {
-            std::unique_lock<std::recursive_mutex> callback_lock((*it)->mutex);
-            if ((*it)->active == false)
-            {
-              // session went inactive, remove it.
-              std::stringstream ss;
-              ss << "[BabeltraceParser] callback inactive: " << it->get();
-              logger_(ss.str());
-              callback_lock.unlock();
-              it = sessions_recording_.erase(it);
-              continue;
-            }
-            if ((*it)->callback)
-            {
-              (*it)->callback(event);
-            }
-            it++;
-          }
-        }
+        processLine(pending.substr(start, end + 1 - start));
+        start = end + 1;
       }
-      if (std::feof(stdout))
+      pending.erase(0, start);
+      if ((count == 0) || ((count == -1) && (errno != EINTR) && (errno != EAGAIN)))
       {
+        if (!pending.empty())
+        {
+          processLine(pending);
+        }
         logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
         processing_.store(false);
       }
-- 
2.43.0


From 0179c2b264909a833396f70d26e50e5987012ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 24/44] fix: do not hang when halting the babeltrace tool right
 after init

If the parser's worker started after halt() it kept processing, so joining it
blocked until babeltrace ended by itself.
---
 scalopus_tracing/src/lttng/babeltrace_tool.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 8c2c49d..476afe3 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -84,19 +84,21 @@ void BabeltraceTool::halt()
 {
   // first stop the parser
   parser_->halt();
+
+  // Stop the process, should the worker only just start then the end of its output ensures it doesn't keep processing.
+  if (process_)
+  {
+    ::kill(process_->getPid(), SIGINT);
+  }
   if (parser_worker_.joinable())
   {
     parser_worker_.join();
   }
 
-  // then halt the babeltrace process.
+  // then clean up the babeltrace process.
   if (process_)
   {
     process_->close();
-
-    // Nuke the process, just to be sure we clean up correctly.
-    ::kill(process_->getPid(), SIGINT);
-
     process_ = nullptr;
   }
 }
-- 
2.43.0


From 586ac2858ce08f31fa5abca0fbb1d63a06808563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 25/44] fix: exit the child if the subprocess can not be
 executed

The child returned from the constructor and continued as a copy of the parent
process if for example babeltrace is not installed.
---
 .../include_consumer/scalopus_tracing/subprocess.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 589a660..637609b 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -141,7 +141,7 @@ private:
             dup2(err_pipe[WRITE], STDERR_FILENO) == -1 )
         {
             std::perror("subprocess: dup2() failed");
-            return;
+            _exit(127);
         }
 
         ::close(in_pipe[READ]);
@@ -158,7 +158,7 @@ private:
         if (execvp(cargs[0], &cargs[0]) == -1)
         {
             std::perror("subprocess: execvp() failed");
-            return;
+            _exit(127);
         }
     }
 
-- 
2.43.0


From e3f73b185eb25d1f9f5058d3f028b406da084c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 26/44] fix: keep LTTng counters per process and in order of
 time

Counters by the same name in different processes shared their series, and the
values of the other series were those at arrival instead of at the time of the
event, as events from different threads arrive out of order.
---
 scalopus_tracing/src/lttng/lttng_source.cpp | 31 +++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..279a82e 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -81,7 +81,8 @@ std::vector<json> LttngSource::convertEvents()
   // Map for the counter states.
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
-  CounterMap counter_values;
+  using ProcessCounter = std::map<unsigned long long int, CounterMap>;
+  ProcessCounter counter_values;
 
   provider_->updateMapping();
   const auto mapping = provider_->getMapping();
@@ -143,9 +144,8 @@ std::vector<json> LttngSource::convertEvents()
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
         const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
-        // Update the current counters.
-        counter_values[counter_series.first][counter_series.second] = z;
-        entry["args"] = counter_values[counter_series.first];
+        // The values of the other series are added later on, when the events are in order.
+        entry["args"] = SeriesMap{ { counter_series.second, z } };
       }
       result.push_back(entry);
     }
@@ -157,8 +157,22 @@ std::vector<json> LttngSource::convertEvents()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Now that the events are in order, add the current value of the other series to each counter.
+  for (auto& entry : result)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        values[series_value.first] = series_value.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
-  CounterMap count_all_series;
+  ProcessCounter count_all_series;
   for (auto it = result.rbegin(); it < result.rend(); it++)
   {
     auto& entry = *it;
@@ -166,9 +180,10 @@ std::vector<json> LttngSource::convertEvents()
     {
       auto values = entry.at("args").get<SeriesMap>();
       const auto& name = entry.at("name").get<std::string>();
-      values.insert(count_all_series[name].begin(), count_all_series[name].end());  // add future keys to this entry
-      entry["args"] = values;           // update values to include the series used in the future.
-      count_all_series[name] = values;  // store most recent value in the map.
+      auto& all_series = count_all_series[entry.at("pid").get<unsigned long long int>()][name];
+      values.insert(all_series.begin(), all_series.end());  // add future keys to this entry
+      entry["args"] = values;  // update values to include the series used in the future.
+      all_series = values;     // store most recent value in the map.
     }
   }
 
-- 
2.43.0


From 4ef8b9ad5f699f7a7fc277a5a2a1bdc82454e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 27/44] fix: update native counters in order of time

The events are grouped by thread, the values of the other series of a counter
were those after all events of an earlier thread instead of at that time.
---
 .../src/native/native_trace_source.cpp        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e6cabb3..e62b5e7 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -154,9 +154,8 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["name"] = counter_series.first;
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
-            // Update the current counters.
-            counter_values[pid][counter_series.first][counter_series.second] = z;
-            entry["args"] = counter_values[pid][counter_series.first];
+            // The values of the other series are added later on, when the events are in order.
+            entry["args"] = SeriesMap{ { counter_series.second, z } };
           }
           else
           {
@@ -186,6 +185,20 @@ std::vector<json> NativeTraceSource::finishInterval()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Now that the events are in order, add the current value of the other series to each counter.
+  for (auto& entry : res)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        values[series_value.first] = series_value.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
   ProcessCounter counter_all_series;
   for (auto it = res.rbegin(); it < res.rend(); it++)
-- 
2.43.0


From f774335ae4b9fca3ff38fe320236c45936909b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 28/44] fix: skip LTTng events that can not be converted

An event without process or thread id, a counter without value or an unknown
event made the conversion throw, which lost the entire interval and terminated
the trace session.
---
 scalopus_tracing/src/lttng/lttng_source.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 279a82e..be864b6 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -98,6 +98,11 @@ std::vector<json> LttngSource::convertEvents()
       // exit of scope:
       // , {"name": "function name", "pid": 5976, "ts": 77118.0, "cat": "PERF", "tid": 140501248366336, "ph": "E"}
 
+      if ((event.eventContext().count("vpid") == 0) || (event.eventContext().count("pthread_id") == 0))
+      {
+        continue;  // Incomplete event, for example if the vpid or pthread_id context is not enabled in the session.
+      }
+
       json entry;
       entry["ts"] = ts * 1e6;  // Time is specified in microseconds in devtools tracing format.
       entry["cat"] = "PERF";
@@ -138,7 +143,7 @@ std::vector<json> LttngSource::convertEvents()
         entry["ph"] = "i";
         entry["s"] = "t";
       }
-      else if (event.name() == "count_event")
+      else if ((event.name() == "count_event") && (event.eventData().count("value") != 0))
       {
         entry["ph"] = "C";
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
@@ -147,6 +152,10 @@ std::vector<json> LttngSource::convertEvents()
         // The values of the other series are added later on, when the events are in order.
         entry["args"] = SeriesMap{ { counter_series.second, z } };
       }
+      else
+      {
+        continue;  // Not an event we know.
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From 782e6aa4f23db1bb13283abe6159ba65c0257c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 29/44] fix: do not dereference a native trace provider that is
 gone

---
 scalopus_tracing/src/native/native_trace_source.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e62b5e7..c76f1a5 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -75,10 +75,11 @@ std::vector<json> NativeTraceSource::finishInterval()
 
   // Update mappings.
   auto provider = provider_.lock();
-  if (provider != nullptr)
+  if (provider == nullptr)
   {
-    provider->updateMapping();
+    return res;  // provider is gone, there is nothing we can convert the data with.
   }
+  provider->updateMapping();
   const auto mapping = provider->getMapping();
 
   // Obtain the data chunks.
-- 
2.43.0


From 1b70425c50db27aa6892ca6fa34aa818d39b3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:25 +0000
Subject: [PATCH 30/44] fix: let undecodable native trace data not affect other
 data

All data that arrived after it was ignored. A counter event without value was
dereferenced.
---
 .../src/native/native_trace_source.cpp        | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index c76f1a5..1cc592c 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -96,9 +96,9 @@ std::vector<json> NativeTraceSource::finishInterval()
   ProcessCounter counter_values;
 
   // Now, we start converting the chunks of data we obtain into trace events.
-  try
+  for (const auto& dptr : data)
   {
-    for (const auto& dptr : data)
+    try
     {
       // First, we parse the bson we got and convert it to events.
       std::map<std::string, cbor::cbor_object> parsed;
@@ -153,7 +153,11 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["ph"] = "C";
             const auto counter_series = NativeTraceProvider::splitCounterSeriesName(trace_id_string);
             entry["name"] = counter_series.first;
-            std::int64_t z;
+            if (event.dynamic_data == nullptr)
+            {
+              throw std::runtime_error("Counter event without a value.");
+            }
+            std::int64_t z{ 0 };
             cbor::from_cbor(z, *event.dynamic_data);
             // The values of the other series are added later on, when the events are in order.
             entry["args"] = SeriesMap{ { counter_series.second, z } };
@@ -166,18 +170,18 @@ std::vector<json> NativeTraceSource::finishInterval()
         }
       }
     }
-  }
-  catch (const std::out_of_range& e)
-  {
-    provider->log(std::string("Encountered out of range during data processing: ") + e.what());
-  }
-  catch (const cbor::error& e)
-  {
-    provider->log(std::string("Encountered cbor error: ") + e.what());
-  }
-  catch (const std::runtime_error& e)
-  {
-    provider->log(std::string("Encountered runtime error: ") + e.what());
+    catch (const std::out_of_range& e)
+    {
+      provider->log(std::string("Encountered out of range during data processing: ") + e.what());
+    }
+    catch (const cbor::error& e)
+    {
+      provider->log(std::string("Encountered cbor error: ") + e.what());
+    }
+    catch (const std::runtime_error& e)
+    {
+      provider->log(std::string("Encountered runtime error: ") + e.what());
+    }
   }
 
   // Sort res by "ts" because sometimes the "E"nd events are out of order wrt the "B"egin, leading to unfinished scope
-- 
2.43.0


From df1f0267e854f441df459644ab6fd2ac75ac467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:25 +0000
Subject: [PATCH 31/44] fix: do not record native trace data outside of the
 interval

The provider determines which sources are recording before it hands them the
data, a source that stopped in between stored it and returned it with the next
interval it finished.
---
 scalopus_tracing/src/native/native_trace_source.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index 1cc592c..bb58753 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -46,15 +46,14 @@ NativeTraceSource::~NativeTraceSource()
 void NativeTraceSource::startInterval()
 {
   stopInterval();
-  {
-    std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
-    recorded_data_.clear();
-  }
+  std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
+  recorded_data_.clear();
   in_interval_.store(true);
 }
 
 void NativeTraceSource::stopInterval()
 {
+  std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
   in_interval_.store(false);
 }
 
@@ -227,6 +226,10 @@ std::vector<json> NativeTraceSource::finishInterval()
 void NativeTraceSource::addData(const DataPtr& incoming_data)
 {
   std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
+  if (!in_interval_.load())
+  {
+    return;  // The interval was stopped since it was decided to provide this source with the data.
+  }
   recorded_data_.emplace_back(incoming_data);
 }
 }  // namespace scalopus
-- 
2.43.0


From dac7082f840a417e9c286e194128cfacb481a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:09 +0000
Subject: [PATCH 32/44] fix: allow stopping a catapult recorder that is not
 running

Destroying a recorder that was never started or was stopped explicitly, or
stopping it twice, joined a thread that doesn't exist and terminated the
process without writing the dump file.
---
 scalopus_catapult/src/catapult_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index c780a46..4ca7857 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -54,7 +54,10 @@ void CatapultRecorder::loop()
 void CatapultRecorder::stop()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())  // it may not have been started, or be stopped already.
+  {
+    worker_.join();
+  }
 }
 
 void CatapultRecorder::startInterval()
-- 
2.43.0


From f8a67e368f91d834ddbaba8b8513998b6e9f2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:09 +0000
Subject: [PATCH 33/44] fix: survive trace events with text that is not valid
 utf-8

Serialising for example a thread name that is not utf-8 threw, which lost all
events and terminated the trace session's thread.
---
 scalopus_catapult/src/catapult_recorder.cpp | 2 +-
 scalopus_catapult/src/trace_session.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 4ca7857..c700f3e 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -133,7 +133,7 @@ std::string CatapultRecorder::collectEvents()
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);  // names may not be valid utf-8.
   }
   ss << "\n]\n";
   return ss.str();
diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..4d42856 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -179,7 +179,7 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);  // names may not be valid utf-8.
   }
   ss << "]}}";
   return ss.str();
-- 
2.43.0


From 9c9beb3ac8c49346d63923e3ffc389e2d3965011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:09 +0000
Subject: [PATCH 34/44] fix: let malformed messages and failing sources not end
 the trace session

An exception from parsing a message or from a source, for example because the
traced process went away, terminated the process. Without a logger set each
message did.
---
 scalopus_catapult/src/trace_session.cpp | 62 +++++++++++++++++--------
 scalopus_catapult/src/trace_session.h   | 13 +++++-
 2 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 4d42856..0f16ad9 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -76,14 +76,19 @@ void TraceSession::loop()
     // Handle any incoming messages from the websocket
     while (haveIncoming() && running_)
     {
-      processMessage(popIncoming());
+      try
+      {
+        processMessage(popIncoming());
+      }
+      catch (const std::exception& e)
+      {
+        // Malformed messages from the client should not affect us.
+        log("[session " + identifier() + "] failed to process message: " + e.what());
+      }
     }
 
     // Perform work with the sources
-    for (auto& source : sources_)
-    {
-      source->work();
-    }
+    forSources([](TraceEventSource& source) { source.work(); });
 
     // Finally, block a bit just to prevent spinning.
     // @TODO Think of a way to allow it to block here until there are messages or work needs to be done.
@@ -91,9 +96,33 @@ void TraceSession::loop()
   };
 }
 
+void TraceSession::forSources(const std::function<void(TraceEventSource& source)>& function)
+{
+  for (auto& source : sources_)
+  {
+    try
+    {
+      function(*source);
+    }
+    catch (const std::exception& e)
+    {
+      // A source that fails should not affect the others, nor the session.
+      log("[session " + identifier() + "] source failed: " + e.what());
+    }
+  }
+}
+
+void TraceSession::log(const std::string& msg) const
+{
+  if (logger_)
+  {
+    logger_(msg);
+  }
+}
+
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
-  logger_("[session " + identifier() + "] <- " + incoming_msg);
+  log("[session " + identifier() + "] <- " + incoming_msg);
   auto msg = json::parse(incoming_msg);
 
   if (msg["method"] == "Tracing.getCategories")
@@ -110,10 +139,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources_)
-    {
-      source->startInterval();
-    }
+    forSources([](TraceEventSource& source) { source.startInterval(); });
     outgoing(res.dump());
     return;
   }
@@ -121,20 +147,16 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources_)
-    {
-      source->stopInterval();
-    }
+    forSources([](TraceEventSource& source) { source.stopInterval(); });
 
     json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources_)
-    {
-      auto results = source->finishInterval();
+    forSources([&events](TraceEventSource& source) {
+      auto results = source.finishInterval();
       events.insert(events.end(), results.begin(), results.end());
-    }
+    });
     chunkedTransmit(events);
 
     res = { { "method", "Tracing.tracingComplete" }, { "params", std::vector<int>{} } };
@@ -145,7 +167,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
 
 void TraceSession::chunkedTransmit(const std::vector<json>& events)
 {
-  logger_("[session " + identifier() + "] -> events: " + std::to_string(events.size()));
+  log("[session " + identifier() + "] -> events: " + std::to_string(events.size()));
   // So, now we send the client data in chunks, needs to be in chunks because the webserver buffer is 16 mb.
   size_t event_count = events.size();
   const size_t chunks_needed = ((event_count / CHUNK_SIZE) + 1);
@@ -163,7 +185,7 @@ void TraceSession::chunkedTransmit(const std::vector<json>& events)
 
 void TraceSession::outgoing(const std::string& msg)
 {
-  logger_("[session " + identifier() + "] -> " + msg);
+  log("[session " + identifier() + "] -> " + msg);
   response_(msg);
 }
 
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..11b1572 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_CATAPULT_TRACE_SESSION_H
 
 #include <scalopus_interface/trace_event_source.h>
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -107,7 +108,17 @@ private:
   void outgoing(const std::string& msg);
 
   std::thread worker_;    //!< Worker thread for this session.
-  bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+  std::atomic_bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+
+  /**
+   * @brief Call the function for each source, an exception from a source is logged and does not affect the others.
+   */
+  void forSources(const std::function<void(TraceEventSource& source)>& function);
+
+  /**
+   * @brief Pass a message to the logger if there is one.
+   */
+  void log(const std::string& msg) const;
 
   /**
    * @brief The function executed by the worker thread.
-- 
2.43.0


From 49870f6b1cc677f8ea2d81d09a1bb828c1069e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:30 +0000
Subject: [PATCH 35/44] fix: guard the sources of a trace session against its
 worker thread

The worker runs from construction on and iterates over the sources while they
are being added.
---
 scalopus_catapult/src/trace_session.cpp | 2 ++
 scalopus_catapult/src/trace_session.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 0f16ad9..ef0b245 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -46,6 +46,7 @@ TraceSession::~TraceSession()
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
 {
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
   sources_.push_back(source);
 }
 
@@ -98,6 +99,7 @@ void TraceSession::loop()
 
 void TraceSession::forSources(const std::function<void(TraceEventSource& source)>& function)
 {
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
   for (auto& source : sources_)
   {
     try
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 11b1572..66d743e 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -82,6 +82,7 @@ public:
 private:
   ResponseFunction response_;  //!< The function to be used to send data to the client over the websocket.
 
+  std::mutex sources_mutex_;                    //!< Mutex for the list of sources.
   std::vector<TraceEventSource::Ptr> sources_;  //!< The active sources in this session.
 
   mutable std::mutex incoming_mutex_;    //!< Mutex for list of incoming messages that are pending processing.
-- 
2.43.0


From 455141edc345651ddf823d217b2d0b0fac0d469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:30 +0000
Subject: [PATCH 36/44] fix: disconnect a client that stalls in the middle of a
 message

The server's worker blocked until the remainder arrived, no other client was
served and the server could not be destroyed.
---
 scalopus_transport/src/transport_unix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 26b2f04..1db4a67 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -270,6 +270,9 @@ void TransportUnix::work()
       }
       else
       {
+        // Don't let a client that stops in the middle of a message block us, and thereby the other clients, forever.
+        struct timeval receive_timeout = { 1, 0 };
+        setsockopt(client, SOL_SOCKET, SO_RCVTIMEO, &receive_timeout, sizeof(receive_timeout));
         connections_.insert(client);
       }
     }
-- 
2.43.0


From 98dd0e71682ca0b45ea7db43e00338a8dffe8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:30 +0000
Subject: [PATCH 37/44] fix: do not overrun the descriptor sets of select

A process with over FD_SETSIZE open files wrote past the end of the sets.
---
 scalopus_transport/src/transport_unix.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 1db4a67..946759d 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -57,6 +57,11 @@ bool TransportUnix::serve()
     return false;
   }
   connections_.insert(server_fd_);  // ensures it gets closed when we are destroyed.
+  if (server_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Too many open files.");
+    return false;
+  }
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -106,6 +111,11 @@ bool TransportUnix::connect(std::size_t pid)
     return false;
   }
   connections_.insert(client_fd_);  // ensures it gets closed when we are destroyed.
+  if (client_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Too many open files.");
+    return false;
+  }
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -268,6 +278,11 @@ void TransportUnix::work()
       {
         logger_("[TransportUnix] Could not accept client.");
       }
+      else if (client >= FD_SETSIZE)
+      {
+        logger_("[TransportUnix] Could not accept client, too many open files.");
+        ::close(client);
+      }
       else
       {
         // Don't let a client that stops in the middle of a message block us, and thereby the other clients, forever.
-- 
2.43.0


From e0c1adef1af8cca39c1c549f0878d68e63e338ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 38/44] fix: list each unix transport server once and nothing
 else

A server was listed once more for each of its connections, and any socket with
a name that ends like that of a server was listed with an invalid process id.
---
 scalopus_transport/src/transport_unix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 946759d..3144426 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -212,8 +212,18 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
         // clients to the socket get this 0 inode address...
         continue;
       }
+      const auto pid_str = path.substr(0, path.size() - suffix.size());
+      if ((line[space_before_path + 1] != '@') || pid_str.empty() ||
+          (pid_str.find_first_not_of("0123456789") != std::string::npos))
+      {
+        continue;  // not the abstract socket of a scalopus server.
+      }
       char* tmp;
-      res.emplace_back(std::strtoul(path.substr(0, path.size() - suffix.size()).c_str(), &tmp, 10));
+      const auto pid = std::strtoul(pid_str.c_str(), &tmp, 10);
+      if (std::find(res.begin(), res.end(), pid) == res.end())  // each connection of the server is listed as well.
+      {
+        res.emplace_back(pid);
+      }
     }
   }
 
-- 
2.43.0


From fa114b5ea0ac444139c7242cc8fb86373c89573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 39/44] fix: shut a connection down before its descriptor is
 closed

After close the number may already belong to a descriptor another thread just
opened, which would then be shut down instead.
---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 3144426..d815650 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -242,8 +242,8 @@ TransportUnix::~TransportUnix()
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -388,16 +388,16 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From 99552609e4abce704d1c68e76bfa3109178c8993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:00 +0000
Subject: [PATCH 40/44] fix: ask a server again that did not answer which
 endpoints it has

A server that was busy for longer than the time the endpoint manager waits was
kept without any endpoints for as long as it lived.
---
 .../src/endpoint_manager_poll.cpp             | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index dfb34d3..3ae9f72 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -77,17 +77,27 @@ void EndpointManagerPoll::manage()
 
 void EndpointManagerPoll::connect(const Destination::Ptr destination)
 {
-  if (transports_.find(destination->hash_code()) != transports_.end())
+  Transport::Ptr transport;
+  const auto existing = transports_.find(destination->hash_code());
+  if (existing != transports_.end())
   {
-    return;  // already have a connection to this transport, ignore it.
+    transport = existing->second;
+    if (!transport_endpoints_[transport].empty())
+    {
+      return;  // already have a connection to this transport, ignore it.
+    }
+    // It did not answer in time when we asked for its endpoints, ask again.
   }
-  log("[scalopus] Creating transport to: " + std::string(*destination));
-  // Attempt to make a transport to this server.
-  auto transport = factory_->connect(destination);
-  if ((transport == nullptr) || !transport->isConnected())
+  else
   {
-    log("[scalopus] Client failed to connect to " + std::string(*destination));
-    return;
+    log("[scalopus] Creating transport to: " + std::string(*destination));
+    // Attempt to make a transport to this server.
+    transport = factory_->connect(destination);
+    if ((transport == nullptr) || !transport->isConnected())
+    {
+      log("[scalopus] Client failed to connect to " + std::string(*destination));
+      return;
+    }
   }
 
   // Investigate which endpoints are supported by this transport.
-- 
2.43.0


From 6c64b59f3a2452904e796b9ce28acde09736496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:02 +0000
Subject: [PATCH 41/44] fix: announce the name of a trace point before another
 thread can record its id

The flag was set before the name was inserted: another thread executing the
same trace point for the first time recorded an id that nobody could resolve
until the first one got to insert it.
---
 .../include/scalopus_tracing/internal/trace_macro.h        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
index 8d92cf3..3bdb5a3 100644
--- a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
+++ b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
@@ -34,6 +34,7 @@
 #include <scalopus_tracing/internal/count_tracepoint.h>
 #include <scalopus_tracing/internal/marker_tracepoint.h>
 #include <scalopus_tracing/internal/scope_tracepoint.h>
+#include <atomic>
 #include <scalopus_tracing/internal/compile_time_crc.hpp>
 
 // Create a unique ID based on the crc32 of the filename and the line number.
@@ -43,13 +44,13 @@
 #define SCALOPUS_TRACKED_TRACE_ID_STRING(s) (CRC32_STR(__FILE__) + CRC32_STR(s))
 
 // Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using a
-// static boolean.
+// static boolean. It is set when the mapping was inserted, another thread may execute the same tracepoint meanwhile.
 #define TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, have_done_setup_varname)                                         \
-  static bool have_done_setup_varname = false;                                                                         \
+  static std::atomic<bool> have_done_setup_varname{ false };                                                           \
   if (!have_done_setup_varname)                                                                                        \
   {                                                                                                                    \
-    have_done_setup_varname = true;                                                                                    \
     scalopus::StaticStringTracker::getInstance().insert(id, name);                                                     \
+    have_done_setup_varname = true;                                                                                    \
   }
 
 // Macro to create a tracked RAII tracepoint. The tracepoint itself will store only the ID, but the singleton trace
-- 
2.43.0


From 86b67a665042f22535056c5ed7cceb937d597ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 42/44] fix: only take decimal integers from a babeltrace line

The beginning of a field that is no integer (a floating point or hexadecimal
number) was taken for its value, and a text with ', ' or '}' in it was split,
which lost the fields after it.
---
 scalopus_tracing/src/lttng/ctfevent.cpp | 40 ++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index 962653b..123aac6 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -94,6 +94,27 @@ CTFEvent::CTFEvent(std::string line)
   tracepoint_domain_ = trace_point.substr(0, split_point);
   tracepoint_name_ = trace_point.substr(split_point + 1, trace_point.size() - split_point);
 
+  // Like text.find(what, pos), but does not find anything in quoted strings, these may contain any character.
+  auto findUnquoted = [](const std::string& text, const std::string& what, size_t pos) -> size_t {
+    bool quoted = false;
+    for (; pos < text.size(); pos++)
+    {
+      if (quoted && text[pos] == '\\')
+      {
+        pos++;  // the next character is escaped.
+      }
+      else if (text[pos] == '"')
+      {
+        quoted = !quoted;
+      }
+      else if (!quoted && text.compare(pos, what.size(), what) == 0)
+      {
+        return pos;
+      }
+    }
+    return std::string::npos;
+  };
+
   // Returns what is between curly braces, without the space after the opening and before the closing one.
   auto betweenBraces = [&line](size_t open, size_t close) -> std::string {
     return (close - open < 3) ? std::string{} : line.substr(open + 2, close - open - 1 - 2);
@@ -102,7 +123,7 @@ CTFEvent::CTFEvent(std::string line)
   // Obtain the stream context between the curly braces.
   start_pos = end_pos;
   start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
+  end_pos = (start_pos == std::string::npos) ? std::string::npos : findUnquoted(line, "}", start_pos + 1);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
@@ -112,7 +133,7 @@ CTFEvent::CTFEvent(std::string line)
   // Obtain the event context between the curly braces.
   start_pos = end_pos;
   start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
+  end_pos = (start_pos == std::string::npos) ? std::string::npos : findUnquoted(line, "}", start_pos + 1);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
@@ -122,7 +143,7 @@ CTFEvent::CTFEvent(std::string line)
   // Obtain the trace data between the curly braces.
   start_pos = end_pos;
   start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
+  end_pos = (start_pos == std::string::npos) ? std::string::npos : findUnquoted(line, "}", start_pos + 1);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
@@ -130,14 +151,14 @@ CTFEvent::CTFEvent(std::string line)
   std::string trace_data = betweenBraces(start_pos, end_pos);
 
   // Make a lambda that can convert the syntax between the curly braces (comma separated values) into a map of integers.
-  auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {
+  auto processContext = [&findUnquoted](std::string csv) -> std::map<std::string, unsigned long long int> {
     std::map<std::string, unsigned long long int> res;
 
     size_t start = 0;
     size_t end = 0;
     while (end != csv.size())
     {
-      size_t potential = csv.find(", ", start);  // delimiter between the key-value entries.
+      size_t potential = findUnquoted(csv, ", ", start);  // delimiter between the key-value entries.
       size_t end_shift = 0;
       if (potential == std::string::npos)
       {
@@ -165,8 +186,13 @@ CTFEvent::CTFEvent(std::string line)
       std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
       try
       {
-        // if value is a string, this will fail, we need to catch that.
-        res[key] = std::stoull(value);
+        // if value is a string, this will fail, we need to catch that. Anything else than an integer is not completely used.
+        size_t used = 0;
+        const auto number = std::stoull(value, &used);
+        if (used == value.size())
+        {
+          res[key] = number;
+        }
       }
       catch (const std::logic_error&)  // not a number, or out of range.
       {
-- 
2.43.0


From 0711d71a0700e9695a71ebfdd82fb9dd6b1420da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 43/44] fix: keep native trace events until there is a
 transport to send them over

---
 .../src/native/endpoint_native_trace_sender.cpp       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index fd5c148..0cb48f0 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -79,6 +79,12 @@ void EndpointNativeTraceSender::work()
   auto& collector = *collector_ptr;
   while (running_)
   {
+    if (transport_ == nullptr)
+    {
+      // Nothing can be sent yet, leave the events in the buffers until that's possible.
+      std::this_thread::sleep_for(std::chrono::milliseconds(10));
+      continue;
+    }
     // First, retrieve the orphaned buffers.
     auto tid_buffers = collector.retrieveAndClearOrphanedBuffers();
     // Then, append to that the active buffers.
@@ -102,10 +108,7 @@ void EndpointNativeTraceSender::work()
     }
     if (collected)
     {
-      if (transport_ != nullptr)
-      {
-        transport_->broadcast("native_trace_receiver", process_events(events));
-      }
+      transport_->broadcast("native_trace_receiver", process_events(events));
     }
     // @TODO; do some real rate limiting here.
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
-- 
2.43.0


From b5e4dc7933cedc720a8e1f488f52744434fabe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:17 +0000
Subject: [PATCH 44/44] fix: make the native sender's running flag atomic

---
 .../include/scalopus_tracing/endpoint_native_trace_sender.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index 3b70579..ce03003 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -31,6 +31,8 @@
 #define SCALOPUS_TRACING_ENDPOINT_NATIVE_TRACE_SENDER_H
 
 #include <scalopus_interface/transport.h>
+#include <atomic>
+#include <thread>
 
 namespace scalopus
 {
@@ -51,7 +53,7 @@ public:
 
 private:
   void work();
-  bool running_{ true };
+  std::atomic_bool running_{ true };
   std::thread worker_;
 };
 
-- 
2.43.0

