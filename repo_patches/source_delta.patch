From 8237a4a867296c2751f7418073ad46380c255f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 01/42] fix: reject values whose content is too short or does
 not fit

Value::Deserialize() overflowed on huge declared lengths and reported
a failed content deserialization as success.
---
 Value.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..36dd5a5 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -24,10 +24,15 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
 
     // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    uint32_t used = DeserializeInternal(data + 5, len);
+
+    // check if failed (only the undefined value may have no content at all)
+    if (used == 0 && (len != 0 || GetType() != ValueTypeUndefined)) return 0;
+
+    return used + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
-- 
2.43.0


From 03abccc4f3610fab3192d5c1f4cef854b92c2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 02/42] fix: reject datums too short for their name and value

A declared length smaller than the header and the name underflowed the
length passed to the value and read past the buffer.
---
 Datum.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..a476fff 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,9 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the header, the name and the value metadata don't fit
+    // into the total_length
+    if (total_length < 6 + name_length + 5u) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
-- 
2.43.0


From 29a433e11b0b9ff563b3e91c0d549cbae29d7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 03/42] fix: decode requests within their declared length only

The name could reach past the buffer, and bytes beyond the declared
length were decoded as arguments.
---
 Request.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index dcc27ec..c67cae6 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -103,7 +103,7 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    if (10u + des_name_length > des_total_length) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
@@ -115,9 +115,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
             delete new_datum;
             break;
-- 
2.43.0


From 0111c58bd3f7d2f424a120be3f284d7d1b0f1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 04/42] fix: check array bounds before reading the elements

A short array was read past its end, and a huge declared amount of
elements aborted the process in reserve().
---
 values/ValueArr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..11943bb 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,9 +11,15 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // check if too short for the elements amount
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes at least 5 bytes
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
@@ -22,7 +28,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
-- 
2.43.0


From d5a562737e37c7b85bfb6b7a5f0f2cafb456491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 05/42] fix: keep the length of string and raw values in step
 with their data

Copying a raw value lost its content, decoding into it leaked the old one,
and a failed string decode left a length without data.
---
 values/ValueStr.cpp       |  2 +-
 values/ValueUndefined.cpp | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..9e2a851 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -7,8 +7,8 @@ void DowowNetwork::ValueStr::DeleteBuffer() {
     if (str_data) {
         delete[] str_data;
         str_data = 0;
-        str_length = 0;
     }
+    str_length = 0;
 }
 
 DowowNetwork::ValueStr::ValueStr(std::string str) : Value(ValueTypeStr) {
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..3b90a5f 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,6 +8,11 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // delete the old data
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
@@ -35,9 +40,13 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
 }
 
 void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
+    // nothing to copy
+    if (original == this) return;
+
     if (undefined_data) free(undefined_data);
-    undefined_data =
-        malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
+    undefined_data_length =
+        static_cast<ValueUndefined*>(original)->undefined_data_length;
+    undefined_data = malloc(undefined_data_length);
     memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
 }
 
-- 
2.43.0


From b9de391dee391d4901dff1381bc62d181d1986d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 06/42] fix: delete the argument when it is set to a null value

Request::Set(name, 0) is documented to delete the argument, but left it
set to an undefined value.
---
 Request.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index c67cae6..d55ac1e 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -26,7 +26,14 @@ uint32_t DowowNetwork::Request::GetId() const {
 }
 
 void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
-    if (Get(name)) {
+    if (!value) {
+        // must delete the argument
+        arguments.remove_if([&name](Datum* dat) {
+            if (dat->GetName() != name) return false;
+            delete dat;
+            return true;
+        });
+    } else if (Get(name)) {
         // argument is already set
         auto temp_iter = 
             std::find_if(
-- 
2.43.0


From bdf378233279c3279f902ffcf77cb34dea0ca788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 07/42] fix: make Request::CopyFrom() produce an equal request

The old arguments of the target were kept, and arguments of a decoded
request that share a name were merged.
---
 Request.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index d55ac1e..20ed8bd 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -143,12 +143,23 @@ uint32_t DowowNetwork::Request::GetSize() const {
 }
 
 void DowowNetwork::Request::CopyFrom(const Request* original) {
+    // nothing to copy
+    if (original == this) return;
+
     SetName(original->GetName());
     SetId(original->GetId());
+
+    // delete old datums
+    for (auto i : arguments) delete i;
+    arguments.clear();
+
     const auto& original_args = original->GetArguments();
     // copy the arguments
     for (const auto& d: original_args) {
-        Set(d->GetName(), d->GetValue());
+        Datum* copy = new Datum();
+        copy->SetName(d->GetName());
+        copy->SetValue(d->GetValue());
+        arguments.push_back(copy);
     }
 }
 
-- 
2.43.0


From 1d16f45900f897f5cb703621902b456f574b25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 08/42] fix: allow setting an argument or an element to a part
 of itself

The old value was deleted before the new one was copied from it.
---
 Datum.cpp           | 11 +++++++++--
 values/ValueArr.cpp | 21 ++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index a476fff..f070e29 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,12 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // the same value again, nothing to do
+    if (value && value == this->value) return;
+
+    // the old value is deleted last, because the new one
+    // might be a part of it
+    Value* old_value = this->value;
 
     // set the new value
     if (value) {
@@ -49,6 +53,9 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    // delete the old value
+    delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 11943bb..6490b86 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -107,11 +107,14 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
-
     // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
+
+    // the old value is deleted last, because the new one
+    // might be a part of it
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -145,9 +148,13 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    // copy the elements before clearing, because one of the arrays
+    // might be a part of another
+    ValueArr copy;
+    for (auto i : original->array)
+        copy.Push(i);
+
+    array.swap(copy.array);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From 1fe9ab6acd13ab27a6d3f7c6795de161de70b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 09/42] fix: do not report a timeout when a wait is interrupted
 by a signal

---
 Utils.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..d02bf5d 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -1,6 +1,8 @@
 #include "Utils.hpp"
 
 #include <unistd.h>
+#include <limits.h>
+#include <errno.h>
 #include <sys/poll.h>
 #include <sys/timerfd.h>
 #include <time.h>
@@ -8,16 +10,33 @@
 // zero timespan
 const timespec zero_time { 0, 0 };
 
+// milliseconds of monotonic time
+static int64_t NowMs() {
+    timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    return now.tv_sec * INT64_C(1000) + now.tv_nsec / 1000000;
+}
+
+// poll() that waits for the rest of the time if it is interrupted by a signal
+static void PollOne(pollfd* p, int seconds) {
+    int64_t end = NowMs() + seconds * INT64_C(1000);
+    int64_t left = seconds * INT64_C(1000);
+    while (poll(p, 1, seconds < 0 ? -1 : left > INT_MAX ? INT_MAX : left) == -1 && errno == EINTR) {
+        left = end - NowMs();
+        if (left < 0) left = 0;
+    }
+}
+
 bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
     pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+    PollOne(&pollfds, seconds);
 
     return pollfds.revents & POLLOUT;
 }
 
 bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
     pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+    PollOne(&pollfds, seconds);
 
     return pollfds.revents & POLLIN;
 }
-- 
2.43.0


From 187a08a32c8e761ea3b6ef6011c0b29acf7d44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 10/42] fix: receive a split length prefix correctly

The second part of the length overwrote the first one.
---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From cd5f6f8c8168e61c9f96592e8cba5f284a4a1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 11/42] fix: close the connection on a length prefix below its
 own size

A declared length under 4 overflowed the receive buffer.
---
 Connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..5025be0 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -258,8 +258,10 @@ bool DowowNetwork::Connection::Receive() {
                 // get the buffer length
                 recv_buffer_length = le32toh(recv_buffer_length);
 
-                // check if too big
-                if (recv_buffer_length > recv_buffer_max_length) {
+                // check if too big, or too small to have anything
+                // after the length itself
+                if (recv_buffer_length > recv_buffer_max_length ||
+                    recv_buffer_length <= sizeof(recv_buffer_length)) {
                     // the connection is broken
                     return false;
                 }
-- 
2.43.0


From ebaec1c1913ad153df93fcc08d8f48f394c52e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 12/42] fix: let a graceful disconnection of an idle connection
 finish

The request that should make the thread stop was pushed after the
connection was marked as disconnecting, so it was refused.
---
 Connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 5025be0..4ce4bfc 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -682,14 +682,14 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
-        is_disconnecting = true;
         // graceful
         Request *dummy = new Request("_");
         // push a dummy request so that the
         // thread will call Send() and
         // eventually stop
         Push(dummy, false, 0, false);
+        // mark for disconnection
+        is_disconnecting = true;
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From 8bb383ccfa0aaa7fc6eca81172a2df3760c69e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 13/42] fix: do not hold the connection mutex while handlers
 are running

Push() and Disconnect() were blocked until the handler returned, and two
connections whose handlers push to each other deadlocked.
---
 Connection.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 4ce4bfc..5942bcd 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -70,9 +70,6 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
-        // lock connected/disconnecting mutex
-        MTLock(__mcd, c->mutex_cd);
-
         // ***************
         // 'to_stop' event
         // ***************
-- 
2.43.0


From 102cdd0925c11d3e7759a28246998b4a5c6456bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 14/42] fix: ignore interrupted polls in the connection thread

---
 Connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index 5942bcd..acfad51 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -65,11 +65,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // let's poll!
-        poll(
+        int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
+        // interrupted by a signal, the results are not set
+        if (poll_res == -1) continue;
+
         // ***************
         // 'to_stop' event
         // ***************
-- 
2.43.0


From 361e1077527ba559ced89c95206755952d333f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 15/42] fix: never block the connection thread in socket I/O

A send block larger than the free space in the socket buffer made the
thread wait for the peer in send(), and it could not be stopped.
---
 Connection.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index acfad51..0dd793e 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -5,6 +5,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <poll.h>
 #include <sys/socket.h>
 #include <sys/eventfd.h>
@@ -243,7 +244,11 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
-            0);
+            MSG_DONTWAIT);
+
+        // nothing to receive right now
+        if (recv_res == -1 && (errno == EAGAIN || errno == EINTR))
+            return true;
 
         // check results
         if (recv_res == -1 || recv_res == 0) {
@@ -291,7 +296,11 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             recv_buffer + recv_buffer_offset,
             bytes_left < recv_block_size ? bytes_left : recv_block_size,
-            0);
+            MSG_DONTWAIT);
+
+        // nothing to receive right now
+        if (recv_res == -1 && (errno == EAGAIN || errno == EINTR))
+            return true;
 
         // check results
         if (recv_res == -1 || recv_res == 0) {
@@ -360,12 +369,17 @@ bool DowowNetwork::Connection::Send() {
             send_buffer_length - send_buffer_offset;
 
         // write to the socket.
-        // MSG_NOSIGNAL to disable broken pipe signal
+        // MSG_NOSIGNAL to disable broken pipe signal,
+        // MSG_DONTWAIT to send only what the socket accepts
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
             left_to_send < send_block_size ? left_to_send : send_block_size,
-            MSG_NOSIGNAL);
+            MSG_NOSIGNAL | MSG_DONTWAIT);
+
+        // can't send anything right now
+        if (send_res == -1 && (errno == EAGAIN || errno == EINTR))
+            return true;
 
         // check result
         if (send_res == -1 || send_res == 0) {
-- 
2.43.0


From 78dfc2dd45d64e21e39c3d47f5f5b500048e1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 16/42] fix: check that an expired timer has not been restarted
 meanwhile

Reading a timer that had been restarted by a transmission or by a new
interval blocked the thread until it expired again, and a peer whose
bytes were received late was taken for a silent one.
---
 Connection.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 0dd793e..f382533 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -102,24 +102,28 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // our still-alive event
         // *********************
         if (pollfds[2].revents & POLLIN) {
-            Request *keep_alive = new Request("_");
-            c->Push(keep_alive, false, 0, false);
-
-            // read the value (or else the timer will break)
+            // read the value (or else the timer will break),
+            // it's not there if the timer has been restarted since
             uint64_t void_buf;
-            read(pollfds[2].fd, &void_buf, sizeof(void_buf));
-
-            // update the timeout
-            Utils::SetTimerFdTimeout(
-                c->our_sa_timer,
-                c->our_sa_interval);
+            if (read(pollfds[2].fd, &void_buf, sizeof(void_buf)) == sizeof(void_buf)) {
+                Request *keep_alive = new Request("_");
+                c->Push(keep_alive, false, 0, false);
+
+                // update the timeout
+                Utils::SetTimerFdTimeout(
+                    c->our_sa_timer,
+                    c->our_sa_interval);
+            }
         }
         // *********************
         // their not-alive event
         // *********************
         if (pollfds[3].revents & POLLIN) {
-            // close, they're timed out.
-            break;
+            // close, they're timed out...
+            // ... unless the timer has been restarted since
+            uint64_t void_buf;
+            if (read(pollfds[3].fd, &void_buf, sizeof(void_buf)) == sizeof(void_buf))
+                break;
         }
         // **********
         // push event
@@ -484,8 +488,8 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     to_stop_event = eventfd(0, 0);
 
     // create the timers for keep-alive mechanism
-    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, 0);
-    their_na_timer = timerfd_create(CLOCK_MONOTONIC, 0);
+    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
+    their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
-- 
2.43.0


From ffc409689fb08632b88bb11ccbb8169a1e3571fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 17/42] fix: make Pull() wait in seconds, and end with the
 connection

The timeout was taken for milliseconds. The event of a waiting Pull() was
closed twice when the connection ended, could be missed or closed while the
connection thread was using it, a second waiter returned at once, and
waiting on an ended connection never finished.
---
 Connection.cpp | 70 ++++++++++++++------------------------------------
 Connection.hpp |  8 ++++--
 2 files changed, 25 insertions(+), 53 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index f382533..11f1493 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -1,5 +1,6 @@
 #include "Connection.hpp"
 
+#include <chrono>
 #include <cstring>
 #include <endian.h>
 #include <unistd.h>
@@ -141,10 +142,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->is_disconnecting = true;
 
     // notify the Pull() callers that the receive is finished
-    if (c->receive_event != -1) {
-        Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
-    }
+    c->mutex_rq.lock();
+    c->is_receiving = false;
+    c->recv_queue_updated.notify_all();
+    c->mutex_rq.unlock();
 
     // lock the reference counter
     c->mutex_ra.lock();
@@ -333,12 +334,9 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
-
                             // queue updated, notify outer code
-                            if (receive_event != -1) {
-                                Utils::WriteEventFd(receive_event, 1);
-                            }
+                            recv_queue_updated.notify_one();
+                            mutex_rq.unlock();
                         }
                     }
                 }
@@ -507,6 +505,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         delete recv_queue.front();
         recv_queue.pop();
     }
+    is_receiving = true;
     mutex_rq.unlock();
 
     // assign the socket
@@ -614,57 +613,26 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // may be needed after the disconnection
 
     // lock the receive queue
-    mutex_rq.lock();
+    std::unique_lock<typeof(mutex_rq)> __mrq(mutex_rq);
+
+    // there is something to return or nothing to wait for
+    auto is_finished = [this]{ return recv_queue.size() || !is_receiving; };
+
+    // wait for the request if needed
+    if (timeout > 0)
+        recv_queue_updated.wait_for(__mrq, std::chrono::seconds(timeout), is_finished);
+    else if (timeout < 0)
+        recv_queue_updated.wait(__mrq, is_finished);
 
     // check if has elements
     if (recv_queue.size()) {
         // pop
         Request *req = recv_queue.front();
         recv_queue.pop();
-
-        // unlock
-        mutex_rq.unlock();
         return req;
     }
 
-    // no timeout
-    if (!timeout) {
-        mutex_rq.unlock();
-        return 0;
-    }
-
-    // someone is already waiting for Pull, quit
-    if (receive_event != -1) {
-        mutex_rq.unlock();
-        return 0;
-    }
-
-    // set up receive event
-    receive_event = eventfd(0, 0);
-
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
-    // unlock
-    mutex_rq.unlock();
-
-    // poll
-    poll(&pollfds, 1, timeout);
-
-    // lock
-    mutex_rq.lock();
-
-    // get the result
-    Request *res = Pull(0);
-
-    // close the eventfd
-    close(receive_event);
-    receive_event = -1;
-
-    // unlock
-    mutex_rq.unlock();
-
-    return res;
+    return 0;
 }
 
 uint32_t DowowNetwork::Connection::GetRefs() {
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..d21197a 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -19,6 +19,7 @@
 #include <ctime>
 #endif
 
+#include <condition_variable>
 #include <mutex>
 #include <thread>
 
@@ -94,6 +95,11 @@ namespace DowowNetwork {
         uint32_t recv_buffer_offset = 0;
         //! The queue of the received requests.
         std::queue<Request*> recv_queue;
+        //! Wakes Pull() callers up when the receive queue is updated
+        //! or the receive is finished.
+        std::condition_variable_any recv_queue_updated;
+        //! Can anything else be put to the receive queue?
+        bool is_receiving = false;
         //! Is receiving the request length right now?
         bool is_recv_length = true;
 
@@ -111,8 +117,6 @@ namespace DowowNetwork {
         int to_stop_event = -1;
         //! 'stopped' event
         int stopped_event = -1;
-        //! receive event
-        int receive_event = -1;
         //! 'not_needed' event
         int not_needed_event = -1;
         //! our still-alive timer
-- 
2.43.0


From 97d91a69c1900ac77d5fd18bc87bd3f44db99fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 18/42] fix: use odd request ids in clients

Both ends used the even half of the ids, so they assigned the same ones.
---
 Client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..c8f4859 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -65,7 +65,7 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     c->temp_socket_fd = -1;
 
     // setup the request id part
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
@@ -104,7 +104,7 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->temp_socket_fd = -1;
 
     // request part setup
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
-- 
2.43.0


From a3cd7d35436baa9f9450633b1ef3885d3a6155b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 19/42] fix: keep a connection until its last reference is
 released

The release of any reference let the connection thread finish.
---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index 11f1493..8c3dd86 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -650,7 +650,7 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
+    if (!refs_amount && not_needed_event != -1)
         Utils::WriteEventFd(not_needed_event, 1);
     mutex_ra.unlock();
 }
-- 
2.43.0


From 6b4e7b90cd560a370ec5cd9afebe6295aa1b0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 20/42] fix: do not hold the connection mutex while waiting for
 references

The holder of a reference could not call Push() or Disconnect(), so it never
got to releasing the reference. A reference taken just before the last one
was released was not waited for.
---
 Connection.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 8c3dd86..6249ff6 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -135,11 +135,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         }
     }
 
-    // lock the connected/disconnecting mutex
-    MTLock(__mcd, c->mutex_cd);
-
     // mark as disconnecting
+    c->mutex_cd.lock();
     c->is_disconnecting = true;
+    c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
     c->mutex_rq.lock();
@@ -152,18 +151,25 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     // still referenced by external code, setup event
     if (c->GetRefs())
         c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
 
     // needed by someone
     if (c->not_needed_event != -1) {
         // wait until the Connection is not needed anymore
-        Utils::SelectRead(c->not_needed_event, -1);
+        while (c->GetRefs()) {
+            c->mutex_ra.unlock();
+            Utils::ReadEventFd(c->not_needed_event, -1);
+            c->mutex_ra.lock();
+        }
 
         // close the event
         close(c->not_needed_event);
         c->not_needed_event = -1;
     }
+    // unlock the reference counter
+    c->mutex_ra.unlock();
+
+    // lock the connected/disconnecting mutex
+    MTLock(__mcd, c->mutex_cd);
 
     // close (almost) everything
     shutdown(c->socket_fd, SHUT_RDWR);
-- 
2.43.0


From cf86a7f59456cdc888fdf0a36e4b16ffea1e25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 21/42] fix: never use the descriptors of an ended connection

A push or a new interval that raced with the end of the connection, or came
after it, wrote to descriptor numbers that were already closed, and the
pushed request stayed in the queue for the next connection.
---
 Connection.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 6249ff6..02159aa 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -179,6 +179,13 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     close(c->our_sa_timer);
     close(c->their_na_timer);
 
+    // none of them may be used anymore
+    c->socket_fd = -1;
+    c->push_event = -1;
+    c->to_stop_event = -1;
+    c->our_sa_timer = -1;
+    c->their_na_timer = -1;
+
     // delete buffers
     c->DeleteSendBuffer();
     c->DeleteRecvBuffer();
@@ -542,6 +549,7 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
@@ -551,6 +559,7 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
@@ -560,17 +569,15 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From ff6a9555025c3f7f3625a4876d2c5323ac5ebbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 22/42] fix: free the unread requests of a destroyed connection

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 02159aa..dff1c44 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -797,6 +797,12 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // delete the requests that were not pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From 5a0ff994214f1aa70c1a3261129a174dcd3cfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 23/42] fix: receive what the peer sent before it closed the
 connection

A failed transmission ended the connection at once, and the requests that
had been pushed before the graceful disconnection of the peer were lost.
---
 Connection.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index dff1c44..4c24b7e 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -95,7 +95,13 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         }
         if (pollfds[1].revents & POLLOUT) {
             if (!c->Send()) {
-                // error
+                // error, but they might have sent something
+                // before they closed the connection
+                while (
+                    !c->is_disconnecting &&
+                    !Utils::SelectRead(c->to_stop_event, 0) &&
+                    Utils::SelectRead(c->socket_fd, 0) &&
+                    c->Receive());
                 break;
             }
         }
-- 
2.43.0


From 49d4e4b8f68116a3645bdacf4bc2bc78d2082a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 24/42] fix: protect the named handlers from concurrent access

They are looked up in the connection thread while they are being set.
---
 Connection.cpp | 6 ++++++
 Connection.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 4c24b7e..7e9be7f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -735,6 +735,9 @@ DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -749,6 +752,9 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index d21197a..a1c988d 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -53,6 +53,8 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_cd;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
+        //! mutex for request handlers
+        std::recursive_mutex mutex_h;
 
         //! The ID of the free request.
         uint32_t free_request_id = 1;
-- 
2.43.0


From a38abd1e95bc055223c0d26edffee2bd05367c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 25/42] fix: make the server handlers optional

They were not initialized, and the 'disconnected' handler was called without
checking whether it is set.
---
 Server.cpp | 3 ++-
 Server.hpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index a880342..403939f 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -95,7 +95,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
                 // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                if (s->GetDisconnectedHandler())
+                    (*s->GetDisconnectedHandler())(s, c);
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..babbb5d 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -57,10 +57,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        ConnectionHandler connected_handler = 0;
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
         Connection* AcceptOne();
-- 
2.43.0


From 487acf54d4789f2319d79404e85e871dc160e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 26/42] fix: ignore interrupted polls in the server thread

---
 Server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Server.cpp b/Server.cpp
index 403939f..e2e7981 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -69,11 +69,17 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
-        poll(
+        int poll_res = poll(
             pollfds,
             2 + s->connections.size(),
             -1);
 
+        // interrupted by a signal, the results are not set
+        if (poll_res == -1) {
+            delete[] pollfds;
+            continue;
+        }
+
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
-- 
2.43.0


From 15c8e3e7b4e67f7439eed7d1295dfebb922a9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 27/42] fix: assign the connection id before the 'connected'
 handler is called

---
 Server.cpp | 10 ++++++----
 Server.hpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index e2e7981..9fe860d 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -20,7 +20,7 @@
 #include "Utils.hpp"
 #include "Server.hpp"
 
-DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
+DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
     // failed
@@ -28,6 +28,8 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // assign the id
+    conn->id = id;
 
     // call the handler if set
     if (GetConnectedHandler()) {
@@ -117,11 +119,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         if (pollfds[0].revents & POLLIN) {
             // accept
-            Connection *new_conn = s->AcceptOne();
+            Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
             if (new_conn) {
-                // assign the id
-                new_conn->id = free_conn_id++;
+                // the id is used
+                free_conn_id++;
                 // add to the list of connections
                 s->connections.push_back(new_conn);
             }
diff --git a/Server.hpp b/Server.hpp
index babbb5d..d4e792c 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -63,7 +63,7 @@ namespace DowowNetwork {
         ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
-        Connection* AcceptOne();
+        Connection* AcceptOne(uint32_t id);
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From ebf2c4108befeb1f17cb391927c94aa81d92f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 28/42] fix: refuse UNIX socket paths that do not fit into the
 address

They were copied past the end of it.
---
 Client.cpp | 4 ++++
 Server.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index c8f4859..5c9bf04 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -154,6 +154,10 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
+    // the path is too long for the address
+    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // temp socket fd
     temp_socket_fd =
         socket(AF_UNIX, SOCK_STREAM, 0);
diff --git a/Server.cpp b/Server.cpp
index 9fe860d..998eb21 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -187,6 +187,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // the path is empty or too long for the address
+    if (path.empty() || path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
     // check if failed
-- 
2.43.0


From b5039994318cf773c4450ba0c4f3f69344dce6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 29/42] fix: respect the timeout of a client's connection
 attempt

The socket was not made non-blocking, so the timeout was ignored, and the
result of a connection in progress was not checked.
---
 Client.cpp | 60 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 5c9bf04..b0c1043 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -19,6 +19,37 @@ using namespace std;
 
 #include "Utils.hpp"
 
+// connect the non-blocking socket within the timeout (in seconds),
+// return 0 on success
+static int ConnectWithTimeout(int fd, const sockaddr *addr, socklen_t length, int timeout) {
+    // the amount of attempts left, if the server can't queue us right now
+    int64_t attempts = timeout * INT64_C(100);
+
+    int connect_res;
+    while ((connect_res = connect(fd, addr, length)) == -1 &&
+            errno == EAGAIN && addr->sa_family == AF_UNIX && attempts != 0)
+    {
+        usleep(10000);
+        if (attempts > 0) --attempts;
+    }
+
+    // in progress
+    if (connect_res == -1 && (errno == EINPROGRESS || errno == EINTR)) {
+        // wait for result
+        if (!DowowNetwork::Utils::SelectWrite(fd, timeout)) return -1;
+
+        // get the result
+        socklen_t result_length = sizeof(connect_res);
+        if (getsockopt(fd, SOL_SOCKET, SO_ERROR, &connect_res, &result_length) == -1)
+            return -1;
+    }
+
+    // connected, the socket doesn't have to be non-blocking anymore
+    if (!connect_res) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) & ~O_NONBLOCK);
+
+    return connect_res;
+}
+
 void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t port, int timeout) {
     // connection in progress
     std::lock_guard<std::mutex> __tsfdm(c->mutex_tsfd);
@@ -38,16 +69,11 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     }
 
     // connect
-    int connect_res = connect(
+    int connect_res = ConnectWithTimeout(
         c->temp_socket_fd,
         (sockaddr*)&addr,
-        sizeof(addr));
-
-    // in progress
-    if (connect_res == -1 && errno == EINPROGRESS) {
-        // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
-    }
+        sizeof(addr),
+        timeout);
 
     // fail
     if (connect_res) {
@@ -81,13 +107,11 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
     // connect
-    int connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
-
-    // in progress
-    if (connect_res == -1 && errno == EINPROGRESS) {
-        // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
-    }
+    int connect_res = ConnectWithTimeout(
+        c->temp_socket_fd,
+        (sockaddr*)&addr,
+        sizeof(addr),
+        timeout);
 
     // fail
     if (connect_res) {
@@ -129,8 +153,7 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    fcntl(temp_socket_fd, F_SETFL, fcntl(temp_socket_fd, F_GETFL) | O_NONBLOCK);
 
     // create event
     connect_event = eventfd(0, 0);
@@ -167,8 +190,7 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    fcntl(temp_socket_fd, F_SETFL, fcntl(temp_socket_fd, F_GETFL) | O_NONBLOCK);
 
     // create event
     connect_event = eventfd(0, 0);
-- 
2.43.0


From 6e43f231fc703cc68d3ad8e6e16486e550a2488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 30/42] fix: report the stop of a server only when it is
 complete

The stopped event was set before the UNIX socket path was removed and the
state was reset, stayed set after the server was started again, and a
server destroyed right after it was still in use by the server thread.
---
 Server.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 998eb21..b393319 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -162,9 +162,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // clear
     s->connections.clear();
 
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
-
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
         unlink(s->unix_socket_path.c_str());
@@ -173,6 +170,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_fd = -1;
     s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // notify about stop, everything is done
+    Utils::WriteEventFd(s->stopped_event, 1);
 }
 
 DowowNetwork::Server::Server() {
@@ -236,6 +236,9 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
     // create eventfd
     to_stop_event = eventfd(0, 0);
 
@@ -306,6 +309,9 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
     // create eventfd
     to_stop_event = eventfd(0, 0);
 
@@ -390,6 +396,10 @@ DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
 
+    // let the server thread leave its final section
+    mutex_server.lock();
+    mutex_server.unlock();
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From 9a51d8dba4b6a5e5ec8af6e47e803062cfe6b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 31/42] fix: synchronize connection lookups with the server
 thread

The list was searched while the server thread was changing it, and a
connection that ended at that moment was destroyed while referenced. The
server thread does not hold the mutex while handlers are running or while
it waits for connections, so that lookups never wait for them.
---
 Connection.cpp |  5 ++--
 Server.cpp     | 74 ++++++++++++++++++++++++++++++++++----------------
 Server.hpp     |  3 ++
 3 files changed, 57 insertions(+), 25 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 7e9be7f..06a3f7e 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -171,8 +171,6 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         close(c->not_needed_event);
         c->not_needed_event = -1;
     }
-    // unlock the reference counter
-    c->mutex_ra.unlock();
 
     // lock the connected/disconnecting mutex
     MTLock(__mcd, c->mutex_cd);
@@ -208,6 +206,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     // mark as undefined
     c->socket_type = SocketTypeUndefined;
 
+    // unlock the reference counter, from now on references don't matter
+    c->mutex_ra.unlock();
+
     // notify about stop
     Utils::WriteEventFd(c->stopped_event, 1);
 }
diff --git a/Server.cpp b/Server.cpp
index b393319..6c7ec67 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -32,8 +32,9 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     conn->id = id;
 
     // call the handler if set
-    if (GetConnectedHandler()) {
-        (*GetConnectedHandler())(this, conn);
+    auto handler = GetConnectedHandler();
+    if (handler) {
+        (*handler)(this, conn);
     }
 
     // success
@@ -82,9 +83,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             continue;
         }
 
-        // lock
-        std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
-
         // ***************************
         // check if 'to_stop' occurred
         // ***************************
@@ -101,18 +99,23 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         std::list<Connection*> deleted_conns;
         i = 0;
         for (auto c : s->connections) {
-            if (pollfds[2 + i++].revents & POLLIN) {
-                // call 'disconnected' handler
-                if (s->GetDisconnectedHandler())
-                    (*s->GetDisconnectedHandler())(s, c);
-                // delete the connection
-                delete c;
+            if (pollfds[2 + i++].revents & POLLIN)
                 deleted_conns.push_back(c);
-            }
         }
         // remove deleted connections
+        s->mutex_server.lock();
         for (auto c : deleted_conns)
             s->connections.remove(c);
+        s->mutex_server.unlock();
+
+        for (auto c : deleted_conns) {
+            // call 'disconnected' handler
+            auto handler = s->GetDisconnectedHandler();
+            if (handler)
+                (*handler)(s, c);
+            // delete the connection
+            delete c;
+        }
 
         // ***********************
         // check if new connection
@@ -125,7 +128,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // the id is used
                 free_conn_id++;
                 // add to the list of connections
+                s->mutex_server.lock();
                 s->connections.push_back(new_conn);
+                s->mutex_server.unlock();
             }
         }
 
@@ -142,25 +147,27 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // the connections can't be found anymore
+    s->mutex_server.lock();
+    std::list<Connection*> conns;
+    conns.swap(s->connections);
+    s->mutex_server.unlock();
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    for (auto c : conns) {
         c->Disconnect(true);
         c->WaitForStop(-1);
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
-    
-    // clear
-    s->connections.clear();
 
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
@@ -348,20 +355,38 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
     return max_connections;
 }
 
+DowowNetwork::SafeConnection *DowowNetwork::Server::Reference(Connection *conn) {
+    SafeConnection *res = new SafeConnection(conn);
+
+    // ended before it was referenced, so it doesn't wait for us
+    if (!conn->IsConnected()) {
+        delete res;
+        return 0;
+    }
+
+    return res;
+}
+
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->tag == tag;
+            return c->tag == tag && c->IsConnected();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    return Reference(*it);
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
@@ -371,7 +396,7 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    return Reference(*it);
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
@@ -379,7 +404,10 @@ void DowowNetwork::Server::Stop(int timeout) {
     if (GetType() == SocketTypeUndefined) return;
 
     // make the thread stop
-    Utils::WriteEventFd(to_stop_event, 1);
+    mutex_server.lock();
+    if (GetType() != SocketTypeUndefined)
+        Utils::WriteEventFd(to_stop_event, 1);
+    mutex_server.unlock();
 
     WaitForStop(timeout);
 }
diff --git a/Server.hpp b/Server.hpp
index d4e792c..54a32d9 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -65,6 +65,9 @@ namespace DowowNetwork {
         /// Accept one client.
         Connection* AcceptOne(uint32_t id);
 
+        /// Reference the connection if it hasn't ended yet.
+        SafeConnection* Reference(Connection *conn);
+
         static void ServerThreadFunc(Server *server);
     public:
         /// Server constructor.
-- 
2.43.0


From e5c528a52ec5764d2b1c335cf9bc59a48f90b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 32/42] fix: release those who wait for an end that a reconnect
 hides

---
 Connection.cpp | 40 +++++++++++++++++++++++++++++++++++++---
 Connection.hpp | 13 +++++++++++++
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 06a3f7e..7fc0500 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -210,7 +210,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_ra.unlock();
 
     // notify about stop
+    MTLock(__mss, c->mutex_ss);
     Utils::WriteEventFd(c->stopped_event, 1);
+    c->stops_amount++;
+    c->stops_updated.notify_all();
 }
 
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
@@ -499,7 +502,10 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     }
 
     // reset the stopped event
+    mutex_ss.lock();
     Utils::ReadEventFd(stopped_event, 0);
+    starts_amount++;
+    mutex_ss.unlock();
 
     // initialize the events
     push_event = eventfd(0, 0);
@@ -526,6 +532,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         recv_queue.pop();
     }
     is_receiving = true;
+    receives_amount++;
     mutex_rq.unlock();
 
     // assign the socket
@@ -636,7 +643,11 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     std::unique_lock<typeof(mutex_rq)> __mrq(mutex_rq);
 
     // there is something to return or nothing to wait for
-    auto is_finished = [this]{ return recv_queue.size() || !is_receiving; };
+    // (it may be a new connection already when we wake up)
+    auto number = receives_amount;
+    auto is_finished = [&]{
+        return recv_queue.size() || !is_receiving || receives_amount != number;
+    };
 
     // wait for the request if needed
     if (timeout > 0)
@@ -698,11 +709,16 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         is_disconnecting = true;
     }
 
+    // the connection to wait for
+    mutex_ss.lock();
+    uint64_t amount = starts_amount;
+    mutex_ss.unlock();
+
     mutex_cd.unlock();
 
     // waiting for join
     if (wait_for_join)
-        WaitForStop(-1);
+        WaitForStops(amount, -1);
 }
 
 bool DowowNetwork::Connection::IsConnected() {
@@ -723,8 +739,26 @@ int DowowNetwork::Connection::GetStoppedEvent() {
     return stopped_event;
 }
 
+bool DowowNetwork::Connection::WaitForStops(uint64_t amount, int timeout) {
+    std::unique_lock<typeof(mutex_ss)> __mss(mutex_ss);
+
+    auto is_stopped = [&]{ return stops_amount >= amount; };
+
+    if (timeout > 0)
+        stops_updated.wait_for(__mss, std::chrono::seconds(timeout), is_stopped);
+    else if (timeout < 0)
+        stops_updated.wait(__mss, is_stopped);
+
+    return is_stopped();
+}
+
 bool DowowNetwork::Connection::WaitForStop(int timeout) {
-    return Utils::SelectRead(GetStoppedEvent(), timeout);
+    mutex_ss.lock();
+    // not connected yet - wait for the first connection to stop
+    uint64_t amount = starts_amount ? starts_amount : 1;
+    mutex_ss.unlock();
+
+    return WaitForStops(amount, timeout);
 }
 
 void DowowNetwork::Connection::SetHandlerDefault(RequestHandler h) {
diff --git a/Connection.hpp b/Connection.hpp
index a1c988d..2d717b8 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -55,6 +55,8 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_bt;
         //! mutex for request handlers
         std::recursive_mutex mutex_h;
+        //! mutex for amounts of starts and stops
+        std::recursive_mutex mutex_ss;
 
         //! The ID of the free request.
         uint32_t free_request_id = 1;
@@ -102,6 +104,8 @@ namespace DowowNetwork {
         std::condition_variable_any recv_queue_updated;
         //! Can anything else be put to the receive queue?
         bool is_receiving = false;
+        //! How many times has the receive begun?
+        uint64_t receives_amount = 0;
         //! Is receiving the request length right now?
         bool is_recv_length = true;
 
@@ -119,6 +123,12 @@ namespace DowowNetwork {
         int to_stop_event = -1;
         //! 'stopped' event
         int stopped_event = -1;
+        //! How many times has the connection been started?
+        uint64_t starts_amount = 0;
+        //! How many times has the connection been stopped?
+        uint64_t stops_amount = 0;
+        //! Wakes those who wait for stop up.
+        std::condition_variable_any stops_updated;
         //! 'not_needed' event
         int not_needed_event = -1;
         //! our still-alive timer
@@ -154,6 +164,9 @@ namespace DowowNetwork {
                 Was the Request processed by some handler?
         */
         bool PassThroughHandlers(Request* req);
+
+        //! Wait until the connection has been stopped that many times.
+        bool WaitForStops(uint64_t amount, int timeout);
     protected:
         /// This constructor does nothing.
         /*!
-- 
2.43.0


From fa7c5003c0cf81c53840cfdb91c095d0cc7205b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 33/42] fix: release those who wait for a stop of the server
 that a restart hides

---
 Server.cpp | 45 +++++++++++++++++++++++----------------------
 Server.hpp | 12 ++++++++----
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 6c7ec67..3313fcd 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -12,6 +12,7 @@
 #include <endian.h>
 #include <errno.h>
 
+#include <chrono>
 #include <thread>
 #include <algorithm>
 
@@ -179,11 +180,12 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_type = SocketTypeUndefined;
 
     // notify about stop, everything is done
-    Utils::WriteEventFd(s->stopped_event, 1);
+    s->stops_amount++;
+    s->stops_updated.notify_all();
 }
 
 DowowNetwork::Server::Server() {
-    stopped_event = eventfd(0, 0);
+
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -243,9 +245,6 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // reset the stopped event
-    Utils::ReadEventFd(stopped_event, 0);
-
     // create eventfd
     to_stop_event = eventfd(0, 0);
 
@@ -316,9 +315,6 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // reset the stopped event
-    Utils::ReadEventFd(stopped_event, 0);
-
     // create eventfd
     to_stop_event = eventfd(0, 0);
 
@@ -399,25 +395,33 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
     return Reference(*it);
 }
 
-void DowowNetwork::Server::Stop(int timeout) {
-    // check if server is not started
+void DowowNetwork::Server::WaitForStop(bool to_stop, int timeout) {
+    // lock
+    std::unique_lock<typeof(mutex_server)> __sm(mutex_server);
+
+    // not started
     if (GetType() == SocketTypeUndefined) return;
 
     // make the thread stop
-    mutex_server.lock();
-    if (GetType() != SocketTypeUndefined)
+    if (to_stop)
         Utils::WriteEventFd(to_stop_event, 1);
-    mutex_server.unlock();
 
-    WaitForStop(timeout);
+    // wait for this stop, the server may be started again when we wake up
+    auto number = stops_amount;
+    auto is_stopped = [&]{ return stops_amount != number; };
+
+    if (timeout > 0)
+        stops_updated.wait_for(__sm, std::chrono::seconds(timeout), is_stopped);
+    else if (timeout < 0)
+        stops_updated.wait(__sm, is_stopped);
 }
 
-void DowowNetwork::Server::WaitForStop(int timeout) {
-    // not started
-    if (GetType() == SocketTypeUndefined) return;
+void DowowNetwork::Server::Stop(int timeout) {
+    WaitForStop(true, timeout);
+}
 
-    // wait for stopped event
-    Utils::SelectRead(stopped_event, timeout);
+void DowowNetwork::Server::WaitForStop(int timeout) {
+    WaitForStop(false, timeout);
 }
 
 DowowNetwork::Server::~Server() {
@@ -427,7 +431,4 @@ DowowNetwork::Server::~Server() {
     // let the server thread leave its final section
     mutex_server.lock();
     mutex_server.unlock();
-
-    // close the stopped eventfd
-    close(stopped_event);
 }
diff --git a/Server.hpp b/Server.hpp
index 54a32d9..ed4e7cf 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -11,6 +11,7 @@
 #include <list>
 
 #include <sys/eventfd.h>
+#include <condition_variable>
 #include <mutex>
 
 #include "Connection.hpp"
@@ -43,10 +44,10 @@ namespace DowowNetwork {
         uint32_t tcp_socket_address;
         uint16_t tcp_socket_port;
 
-        //! 'stopped' event.
-        //! Occurs when the server is stopped.
-        //! Being created only when the shutdown is requested.
-        int stopped_event = -1;
+        //! How many times has the server been stopped?
+        uint64_t stops_amount = 0;
+        //! Wakes those who wait for stop up.
+        std::condition_variable_any stops_updated;
         //! 'to_stop' event.
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
@@ -69,6 +70,9 @@ namespace DowowNetwork {
         SafeConnection* Reference(Connection *conn);
 
         static void ServerThreadFunc(Server *server);
+
+        //! Stop (if requested) the running server and wait until it's done.
+        void WaitForStop(bool to_stop, int timeout);
     public:
         /// Server constructor.
         Server();
-- 
2.43.0


From e6ca5c58eb5f5b54a42f3f6d07ad2db171c6c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 34/42] fix: end when the connection is broken while
 disconnecting

---
 Connection.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 7fc0500..dfb6c0e 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -105,6 +105,13 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
                 break;
             }
         }
+        // broken, and there is no error to get by receiving or sending
+        // (we don't receive while disconnecting)
+        if (!(pollfds[1].revents & (POLLIN | POLLOUT)) &&
+            (pollfds[1].revents & (POLLERR | POLLHUP)))
+        {
+            break;
+        }
         // *********************
         // our still-alive event
         // *********************
-- 
2.43.0


From ec03f1d83017ba950809851885b208e99cc36865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 35/42] fix: never restart a timer with an interval that has
 been replaced

---
 Connection.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index dfb6c0e..1f612a9 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -123,7 +123,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
                 Request *keep_alive = new Request("_");
                 c->Push(keep_alive, false, 0, false);
 
-                // update the timeout
+                // update the timeout,
+                // never to an interval that has been replaced
+                MTLock(__mcd, c->mutex_cd);
                 Utils::SetTimerFdTimeout(
                     c->our_sa_timer,
                     c->our_sa_interval);
@@ -376,7 +378,9 @@ bool DowowNetwork::Connection::Receive() {
         }
     }
 
-    // update the timeout
+    // update the timeout,
+    // never to an interval that has been replaced
+    MTLock(__mcd, mutex_cd);
     Utils::SetTimerFdTimeout(
         their_na_timer,
         their_na_interval);
@@ -439,7 +443,9 @@ bool DowowNetwork::Connection::Send() {
         }
     }
 
-    // update the timeout
+    // update the timeout,
+    // never to an interval that has been replaced
+    MTLock(__mcd, mutex_cd);
     Utils::SetTimerFdTimeout(
         our_sa_timer,
         our_sa_interval);
-- 
2.43.0


From 9f1202189f3052ad104d66f3848138225fb22096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 36/42] fix: find a connection by tag even if another one with
 the tag has just ended

---
 Server.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 3313fcd..43a2315 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -367,16 +367,15 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string ta
     // lock
     std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
 
-    auto it = std::find_if(
-        connections.begin(),
-        connections.end(),
-        [&](Connection *c) {
-            return c->tag == tag && c->IsConnected();
-        });
+    for (auto c : connections) {
+        if (c->tag != tag) continue;
 
-    if (it == connections.end()) return 0;
+        // others may have the same tag, if this one has ended
+        SafeConnection *res = Reference(c);
+        if (res) return res;
+    }
 
-    return Reference(*it);
+    return 0;
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
-- 
2.43.0


From aea48766fba73b829e1455b729c5aca657ae0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 37/42] fix: count copies of a SafeConnection as references

---
 SafeConnection.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SafeConnection.hpp b/SafeConnection.hpp
index 364bdfb..f771d5a 100644
--- a/SafeConnection.hpp
+++ b/SafeConnection.hpp
@@ -15,6 +15,18 @@ namespace DowowNetwork {
                 c->IncreaseRefs();
             }
 
+            // a copy is a reference too
+            inline SafeConnection(const SafeConnection& other) : SafeConnection(other.c) {
+
+            }
+
+            inline SafeConnection& operator=(const SafeConnection& other) {
+                other.c->IncreaseRefs();
+                c->DecreaseRefs();
+                c = other.c;
+                return *this;
+            }
+
             inline Connection& operator()() {
                 return *c;
             }
-- 
2.43.0


From 7bc8ced0d57ab4c33dbfcec8d7b0132d3082d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 38/42] fix: refuse a connection attempt while another one is
 in progress

---
 Client.cpp | 10 ++++++++++
 Client.hpp |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index b0c1043..13043a5 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -140,6 +140,11 @@ DowowNetwork::Client::Client() : Connection() {
 
 
 bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout) {
+    // another call is connecting right now
+    std::unique_lock<std::mutex> __mc(mutex_connect, std::try_to_lock);
+    if (!__mc)
+        return false;
+
     // check if connected or connecting
     if (IsConnected() || IsConnecting())
         return false;
@@ -173,6 +178,11 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
 }
 
 bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
+    // another call is connecting right now
+    std::unique_lock<std::mutex> __mc(mutex_connect, std::try_to_lock);
+    if (!__mc)
+        return false;
+
     // check if connected or connecting
     if (IsConnected() || IsConnecting())
         return false;
diff --git a/Client.hpp b/Client.hpp
index 1a9a3cd..d0faffe 100644
--- a/Client.hpp
+++ b/Client.hpp
@@ -23,6 +23,9 @@ namespace DowowNetwork {
         // mutex for temp socket
         std::mutex mutex_tsfd;
 
+        // Locked by the call that is connecting.
+        std::mutex mutex_connect;
+
         // file descriptor for a socket trying to connect to the server
         int temp_socket_fd = -1;
 
-- 
2.43.0


From 45ea6db3f35271e04e4e960eeb79d13c758743bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:57 +0000
Subject: [PATCH 39/42] fix: wait for the last reference without a descriptor

---
 Connection.cpp | 27 ++++++---------------------
 Connection.hpp |  4 ++--
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 1f612a9..1deb7ac 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -162,24 +162,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_rq.unlock();
 
     // lock the reference counter
-    c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
-        c->not_needed_event = eventfd(0, 0);
-
-    // needed by someone
-    if (c->not_needed_event != -1) {
-        // wait until the Connection is not needed anymore
-        while (c->GetRefs()) {
-            c->mutex_ra.unlock();
-            Utils::ReadEventFd(c->not_needed_event, -1);
-            c->mutex_ra.lock();
-        }
-
-        // close the event
-        close(c->not_needed_event);
-        c->not_needed_event = -1;
-    }
+    std::unique_lock<typeof(c->mutex_ra)> __mra(c->mutex_ra);
+    // wait until the Connection is not needed anymore
+    c->not_needed.wait(__mra, [c]{ return !c->refs_amount; });
 
     // lock the connected/disconnecting mutex
     MTLock(__mcd, c->mutex_cd);
@@ -216,7 +201,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->socket_type = SocketTypeUndefined;
 
     // unlock the reference counter, from now on references don't matter
-    c->mutex_ra.unlock();
+    __mra.unlock();
 
     // notify about stop
     MTLock(__mss, c->mutex_ss);
@@ -694,8 +679,8 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (!refs_amount && not_needed_event != -1)
-        Utils::WriteEventFd(not_needed_event, 1);
+    if (!refs_amount)
+        not_needed.notify_all();
     mutex_ra.unlock();
 }
 
diff --git a/Connection.hpp b/Connection.hpp
index 2d717b8..f820725 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -129,8 +129,8 @@ namespace DowowNetwork {
         uint64_t stops_amount = 0;
         //! Wakes those who wait for stop up.
         std::condition_variable_any stops_updated;
-        //! 'not_needed' event
-        int not_needed_event = -1;
+        //! Wakes the thread that waits for the last reference up.
+        std::condition_variable_any not_needed;
         //! our still-alive timer
         int our_sa_timer = -1;
         //! their not-alive timer
-- 
2.43.0


From c2419f7c7795de79c2a514b49277e36385cc489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 40/42] fix: do not start a connection that lacks its
 descriptors

---
 Connection.cpp | 39 ++++++++++++++++++++++++++++++---------
 Connection.hpp |  3 +++
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 1deb7ac..ee219ba 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -477,6 +477,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         background_thread->detach();
         // free memory
         delete background_thread;
+        background_thread = 0;
     }
 
     // get the type
@@ -491,20 +492,15 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     );
 
     // determine the type
+    uint8_t new_type;
     switch (socket_domain) {
-        case AF_UNIX: socket_type = SocketTypeUnix; break;
-        case AF_INET: socket_type = SocketTypeTcp; break;
+        case AF_UNIX: new_type = SocketTypeUnix; break;
+        case AF_INET: new_type = SocketTypeTcp; break;
         // the type is not supported
         default:
             return;
     }
 
-    // reset the stopped event
-    mutex_ss.lock();
-    Utils::ReadEventFd(stopped_event, 0);
-    starts_amount++;
-    mutex_ss.unlock();
-
     // initialize the events
     push_event = eventfd(0, 0);
     to_stop_event = eventfd(0, 0);
@@ -513,6 +509,31 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
     their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
+    // it may be missing since the construction
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
+
+    // out of descriptors, stay disconnected
+    if (push_event == -1 || to_stop_event == -1 || our_sa_timer == -1 ||
+        their_na_timer == -1 || stopped_event == -1)
+    {
+        for (int *fd : { &push_event, &to_stop_event, &our_sa_timer, &their_na_timer }) {
+            if (*fd != -1) close(*fd);
+            *fd = -1;
+        }
+        close(socket_fd);
+        return;
+    }
+
+    // connected from now on
+    socket_type = new_type;
+
+    // reset the stopped event
+    mutex_ss.lock();
+    Utils::ReadEventFd(stopped_event, 0);
+    starts_amount++;
+    mutex_ss.unlock();
+
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
@@ -849,5 +870,5 @@ DowowNetwork::Connection::~Connection() {
     }
 
     // close the stopped eventfd
-    close(stopped_event);
+    if (stopped_event != -1) close(stopped_event);
 }
diff --git a/Connection.hpp b/Connection.hpp
index f820725..0b22d4f 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -213,6 +213,9 @@ namespace DowowNetwork {
          *  - Resets the free request id (even/odd is not touched).
          *  - Clears the receive queue.
          *  - Starts the background thread.
+         *
+         *  Closes the socket and stays disconnected if there are not
+         *  enough file descriptors.
          *  \warning Not MT-Safe!
          */
         void InitializeByFD(int socket_fd);
-- 
2.43.0


From 0eecd5501eb56661ac9458cee378473613fc33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 41/42] fix: fail to connect when the event for the result
 can't be created

---
 Client.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index 13043a5..5083434 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -162,6 +162,12 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
 
     // create event
     connect_event = eventfd(0, 0);
+    // failed to create the event, there would be nothing to wait for
+    if (connect_event == -1) {
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     std::thread t(TcpThreadFunc, this, ip, port, timeout);
     t.detach();
@@ -204,6 +210,12 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
 
     // create event
     connect_event = eventfd(0, 0);
+    // failed to create the event, there would be nothing to wait for
+    if (connect_event == -1) {
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     // create a thread for connection
     std::thread t(UnixThreadFunc, this, socket_path, timeout);
-- 
2.43.0


From b32d64dcc441dcecd3aad3a1ff5d5c028e411724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 42/42] fix: never keep a client or a server whose descriptors
 can't be created

---
 Connection.cpp |  5 +++++
 Connection.hpp |  2 ++
 Server.cpp     | 28 ++++++++++++++++++++++------
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index ee219ba..c44abf3 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -740,6 +740,11 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         WaitForStops(amount, -1);
 }
 
+bool DowowNetwork::Connection::HasStarted() {
+    MTLock(__mss, mutex_ss);
+    return starts_amount;
+}
+
 bool DowowNetwork::Connection::IsConnected() {
     // connected if we can define the socket type
     return GetType() != SocketTypeUndefined;
diff --git a/Connection.hpp b/Connection.hpp
index 0b22d4f..c802f11 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -281,6 +281,8 @@ namespace DowowNetwork {
         /// \warning    Do not call this function in non-multithreaded handler
         //              if you are also waiting for join. Deadlock will happen.
         void Disconnect(bool forced = false, bool wait_for_join = false);
+        //! Has it ever been connected?
+        bool HasStarted();
         bool IsConnected();
         bool IsDisconnecting();
 
diff --git a/Server.cpp b/Server.cpp
index 43a2315..c7f6472 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -29,6 +29,11 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // it couldn't be set up
+    if (!conn->HasStarted()) {
+        delete conn;
+        return 0;
+    }
     // assign the id
     conn->id = id;
 
@@ -241,13 +246,19 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+    if (to_stop_event == -1) {
+        // fail
+        close(socket_fd);
+        unlink(path.c_str());
+        return false;
+    }
+
     // success
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
     std::thread t(ServerThreadFunc, this);
     t.detach();
@@ -310,14 +321,19 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+    if (to_stop_event == -1) {
+        // fail
+        close(socket_fd);
+        return false;
+    }
+
     // success
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
     std::thread t(ServerThreadFunc, this);
     t.detach();
-- 
2.43.0

