From 3f0df805529534216713dead1e934df351cc11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:07 +0000
Subject: [PATCH 01/48] fix: message queue slots too small for messages near
 the size limit, oversize pushes unchecked

---
 src/app/common/reactor/MsgMemStorage.cpp | 10 ++++++++--
 src/app/common/reactor/MsgMemStorage.hpp |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..c0e1bba 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -7,11 +7,12 @@ namespace app::reactor
 
 MsgMemStorage::MsgMemStorage(std::size_t chunkSize_, std::size_t numChunks_)
     : chunkSize(chunkSize_)
+    , itemSize((sizeof(Item) + chunkSize_ + 15) & ~(std::size_t)0x0F)
     , numChunks(numChunks_)
     , freeIds(numChunks)
     , busyIds(numChunks)
 {
-    auto const totalMem = chunkSize * numChunks;
+    auto const totalMem = itemSize * numChunks;
 
     mem = ::malloc(totalMem + 15);
 
@@ -30,6 +31,11 @@ MsgMemStorage::~MsgMemStorage()
 
 bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
+    if (len > chunkSize)
+    {
+        return false;
+    }
+
     std::lock_guard<std::mutex> guard(mutex);
 
     if (freeIds.empty())
@@ -63,7 +69,7 @@ bool MsgMemStorage::pop(void* data)
 
 void* MsgMemStorage::get(unsigned id)
 {
-    return (void*)((uintptr_t)ptr + chunkSize * id);
+    return (void*)((uintptr_t)ptr + itemSize * id);
 }
 
 } // namespace app::reactor
diff --git a/src/app/common/reactor/MsgMemStorage.hpp b/src/app/common/reactor/MsgMemStorage.hpp
index 71b1d47..cbe9176 100644
--- a/src/app/common/reactor/MsgMemStorage.hpp
+++ b/src/app/common/reactor/MsgMemStorage.hpp
@@ -28,6 +28,7 @@ private:
     void* get(unsigned);
 
     std::size_t const chunkSize;
+    std::size_t const itemSize;
     std::size_t const numChunks;
 
     std::mutex mutex;
-- 
2.43.0


From 8f69ca10a84ad38d848daa5ad27c9eb918eaad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:41 +0000
Subject: [PATCH 02/48] fix: a failing handler no longer drops the other events
 and messages of its batch

---
 src/app/common/reactor/Epoll.cpp   | 9 ++++++++-
 src/app/common/reactor/Reactor.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..dab5c6a 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,14 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch (std::exception const& e)
+        {
+            LM(GEN, LE, "Event handling failed: %s", e.what());
+        }
     }
 }
 
diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..d97ac20 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -153,7 +153,14 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch (std::exception const& e)
+            {
+                LM(GEN, LE, "Handler failed: msgId=%zu, %s", msg.getMsgId(), e.what());
+            }
         }
         else
         {
-- 
2.43.0


From 6fba001ccbe95e3e84000f3689b0f6733aea443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:06 +0000
Subject: [PATCH 03/48] fix: failed timer creation leaks the timer slot; event
 for a released timer is ignored

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 src/app/common/reactor/Timer.cpp   |  7 +++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index d97ac20..3c42c2e 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..328bbc1 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
@@ -113,6 +114,7 @@ void Timer::onFileDescriptorEvent(int)
     if (not handler)
     {
         LM(GEN, LE, "Handler is undefined");
+        return;
     }
     uint64_t exp;
     int rc = ::read(fd, &exp, sizeof(uint64_t));
@@ -126,10 +128,7 @@ void Timer::onFileDescriptorEvent(int)
         LM(GEN, LE, "Timer(%d) read rc: %d, errno: %d", fd, rc, errno);
         throw std::runtime_error("timer read");
     }
-    if (handler)
-    {
-        handler();
-    }
+    handler();
 }
 
 int Timer::fileDescriptor() const
-- 
2.43.0


From 0c7970321a305bb7e0eed28b01f81d897cf579ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:49 +0000
Subject: [PATCH 04/48] fix: link address bytes above 127 are sign-extended
 into the wrong address and port

---
 src/app/common/reactor/types/LinkAddr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..f8a8c48 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -17,17 +17,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From cfe50c01434807d7b753aea741692c02ce85267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 05/48] fix: a connection closed by the peer is reported as
 closed, not as zero bytes received

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..a9a701e 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc && 0 != len)
+    {
+        LM(GEN, LD, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From b3c77d493351b89ae28a9cb9cacc79b30a65f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 06/48] fix: a partial write is not a successful send, writing
 to a reset connection does not kill the process

---
 src/app/common/reactor/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index a9a701e..a78828c 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,11 +104,17 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    ssize_t const rc = ::send(fd, data, len, MSG_NOSIGNAL);
+    if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
     }
+    if (static_cast<std::size_t>(rc) != len)
+    {
+        LM(GEN, LE, "partial write: %zd of %zu", rc, len);
+        return -1;
+    }
     return 1;
 }
 
-- 
2.43.0


From 1e2b6b931bf767a16dd73d8e5b821a7f7285f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:32 +0000
Subject: [PATCH 07/48] fix: input or a reset that arrives together with the
 connect result is not lost or misreported

---
 src/app/common/reactor/Link.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index a78828c..ef4b3ac 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,15 +155,14 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
-    switch (events)
+    if (events & (EPOLLERR | EPOLLHUP))
     {
-    case EPOLLIN:
-    {
-        handler(LinkEvent::data);
+        close();
+        handler(LinkEvent::error);
     }
-    break;
-    case EPOLLOUT:
+    else if (events & EPOLLOUT)
     {
+        // input that is already pending is reported again after the modification
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
             LM(GEN, LE, "fd mod");
@@ -175,13 +174,9 @@ void Link::onFileDescriptorEvent(int events)
             handler(LinkEvent::connected);
         }
     }
-    break;
-    default:
+    else
     {
-        close();
-        handler(LinkEvent::error);
-    }
-    break;
+        handler(LinkEvent::data);
     }
 }
 
-- 
2.43.0


From d8bda32be30a1194e9711c10ded9388b91325e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 08/48] fix: events fetched for a descriptor are dropped once
 it is closed

---
 src/app/common/reactor/Epoll.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index dab5c6a..ca491da 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -11,6 +11,15 @@
 namespace app::reactor
 {
 
+namespace
+{
+
+// Events this thread has fetched and not handled yet.
+thread_local struct epoll_event* pendingBegin = nullptr;
+thread_local struct epoll_event* pendingEnd = nullptr;
+
+}
+
 Epoll::Epoll(unsigned id_)
     : id(id_)
 {
@@ -44,6 +53,13 @@ int Epoll::mod(FileDescriptorInterface& fd, int events)
 
 int Epoll::del(FileDescriptorInterface& fd)
 {
+    for (auto* it = pendingBegin; it != pendingEnd; ++it)
+    {
+        if (it->data.ptr == &fd)
+        {
+            it->data.ptr = nullptr;
+        }
+    }
     struct epoll_event ev;
     ev.events = 0;
     ev.data.ptr = &fd;
@@ -61,11 +77,13 @@ void Epoll::wait()
         throw std::runtime_error("epoll_wait");
     }
 
+    pendingBegin = &events[0];
+    pendingEnd = &events[nfds];
     for (int n = 0; n < nfds; ++n)
     {
         if (events[n].data.ptr == nullptr)
         {
-            throw std::runtime_error("invalid ptr");
+            continue;
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
         try
@@ -77,6 +95,7 @@ void Epoll::wait()
             LM(GEN, LE, "Event handling failed: %s", e.what());
         }
     }
+    pendingBegin = pendingEnd = nullptr;
 }
 
 } // namespace app::reactor
-- 
2.43.0


From fbcae696b62d97b5e1029b05e4461ce37b869a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 09/48] fix: releasing an acceptor that never listened does not
 terminate, a failed accept closes its descriptor once

---
 src/app/common/reactor/Acceptor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..78c897f 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -82,7 +82,8 @@ void Acceptor::close()
 {
     if (-1 == sfd)
     {
-        throw std::runtime_error("invalid sfd");
+        LM(GEN, LI, "sfd is closed");
+        return;
     }
     LM(GEN, LD, "Close");
     if (-1 == epoll.del(*this))
@@ -132,8 +133,7 @@ void Acceptor::accept(LinkInterface& link)
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-        ::close(fd);
-        link.setFileDescriptor(-1);
+        link.close();
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 3619496446d45c3f3ad25acb5c43da378ddfaf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:56 +0000
Subject: [PATCH 10/48] fix: the value of a single coil is sent and received in
 the byte order of the Modbus protocol (0xFF00 is on)

---
 src/app/modbus/ModbusCodec.cpp | 48 ++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..973d4f6 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -121,8 +121,16 @@ bool ModbusCodec::encode(AduRequest const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            buf.write(adu.data[0]);
+            buf.write(adu.data[1]);
+        }
+        else
+        {
+            buf.write(adu.data[1]);
+            buf.write(adu.data[0]);
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -208,8 +216,16 @@ bool ModbusCodec::decode(AduRequest& adu)
         }
         adu.startItem = buf.readBe();
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            adu.data[0] = buf.read();
+            adu.data[1] = buf.read();
+        }
+        else
+        {
+            adu.data[1] = buf.read();
+            adu.data[0] = buf.read();
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -303,8 +319,16 @@ bool ModbusCodec::encode(AduRespond const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            buf.write(adu.data[0]);
+            buf.write(adu.data[1]);
+        }
+        else
+        {
+            buf.write(adu.data[1]);
+            buf.write(adu.data[0]);
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -383,8 +407,16 @@ bool ModbusCodec::decode(AduRespond& adu)
         }
         adu.startItem = buf.readBe();
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            adu.data[0] = buf.read();
+            adu.data[1] = buf.read();
+        }
+        else
+        {
+            adu.data[1] = buf.read();
+            adu.data[0] = buf.read();
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
-- 
2.43.0


From 7d02dbc72a1e78962e18a9c0913aa9ffb7e4f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:14 +0000
Subject: [PATCH 11/48] fix: Modbus client answers every request exactly once
 and keeps its place in the response stream

Responses are framed by their length field, so split, merged, late, duplicated or
unsolicited responses no longer answer the wrong request, a request twice or never.
---
 src/app/modbus/ModbusCodec.cpp         |  13 ++-
 src/app/modbus/ModbusCodec.hpp         |   2 +
 src/app/modbus/client/ModbusClient.cpp | 118 +++++++++++++------------
 src/app/modbus/client/ModbusClient.hpp |   3 +
 4 files changed, 77 insertions(+), 59 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 973d4f6..4f4feae 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,13 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= aduPktLen() + aduHdrLen;
+}
+
+unsigned ModbusCodec::aduMissingLen() const
+{
+    unsigned const expected = isAduHdrReceived() ? aduPktLen() + aduHdrLen : aduHdrLen;
+    return expected - buf.size();
 }
 
 bool ModbusCodec::isAduDataLenValid() const
@@ -366,6 +372,11 @@ bool ModbusCodec::decode(AduRespond& adu)
         return false;
     }
     uint16_t const pktLen = buf.readBe();
+    if (pktLen < 3)
+    {
+        LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+        return false;
+    }
     adu.addr = buf.read();
     adu.func = fromUint8<ModbusFunction>(buf.read());
 
diff --git a/src/app/modbus/ModbusCodec.hpp b/src/app/modbus/ModbusCodec.hpp
index c3583e9..3e054c8 100644
--- a/src/app/modbus/ModbusCodec.hpp
+++ b/src/app/modbus/ModbusCodec.hpp
@@ -25,6 +25,8 @@ public:
 
     bool isAduValid() const;
 
+    unsigned aduMissingLen() const;
+
     bool encode(AduRequest const&);
 
     bool decode(AduRequest&);
diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..bd4a2e1 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -17,8 +17,8 @@ ModbusClient::ModbusClient(Init const& init)
     , fsm(*this)
     , link(Reactor::get().createLink([this](auto ev){ onLinkEvent(ev); }))
     , timer(Reactor::get().createTimer([this](){ onTimerEvent(); }))
+    , rspExpected(false)
 {
-    pduBuf.reset();
 }
 
 ModbusClient::~ModbusClient()
@@ -28,6 +28,7 @@ ModbusClient::~ModbusClient()
 
 void ModbusClient::connect()
 {
+    pduBuf.reset();
     link->connect(addr);
 }
 
@@ -76,77 +77,82 @@ Status ModbusClient::send()
 
 void ModbusClient::receivePreaction()
 {
-    pduBuf.reset();
+    rspExpected = true;
 }
 
 Status ModbusClient::receive()
 {
-    if (pduBuf.size() > maxAduLen)
-    {
-        LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
-        return Status::done;
-    }
+    Status status = Status::noerror;
 
-    auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
-    switch (result.status)
+    while (true)
     {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Status::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Status::error;
+        ModbusCodec codec(pduBuf);
+
+        auto const& result = link->receive(pduBuf.end(), codec.aduMissingLen());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+        break;
+        case reactor::LinkResult::na:
+            return status;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Status::error;
+        }
+
+        pduBuf.seek(result.len);
+
+        if (not codec.isAduHdrReceived())
+        {
+            continue;
+        }
+
+        if (not codec.isAduDataLenValid())
+        {
+            LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+            return Status::error;
+        }
+
+        if (not codec.isAduReceived())
+        {
+            continue;
+        }
+
+        if (Status::done == processAdu())
+        {
+            rspExpected = false;
+            aduStorage.pop();
+            status = Status::done;
+        }
+        pduBuf.reset();
     }
+}
 
-    if (aduStorage.empty())
-    {
-        LM(MODBUS, LW, "Client-%u, received ADU is unexpected", uid);
-        return Status::done;
-    }
-
-    pduBuf.seek(result.len);
-
+Status ModbusClient::processAdu()
+{
     ModbusCodec codec(pduBuf);
 
-    if (not codec.isAduHdrReceived())
-    {
-        return Status::noerror;
-    }
-
-    if (not codec.isAduDataLenValid())
-    {
-        LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
-        return Status::done;
-    }
+    LM(MODBUS, LD, "Client-%u, RX ADU %s", uid, pduBuf.toString().c_str());
 
-    if (not codec.isAduReceived())
+    if (not rspExpected || aduStorage.empty())
     {
+        LM(MODBUS, LW, "Client-%u, received ADU is unexpected", uid);
         return Status::noerror;
     }
 
     AduRequest const& aduReq = aduStorage.front();
 
-    if (not codec.isAduValid())
-    {
-        LM(MODBUS, LW, "Client-%u, ADU is invalid", uid);
-        provideRspError(aduReq);
-        return Status::done;
-    }
-
-    LM(MODBUS, LD, "Client-%u, RX ADU %s", uid, pduBuf.toString().c_str());
-
     AduRespond aduRsp;
-    if (not codec.decode(aduRsp))
-    {
-        LM(MODBUS, LW, "Client-%u, ADU decode error", uid);
-        provideRspError(aduReq);
-        return Status::done;
-    }
-    if (aduReq.transactId != aduRsp.transactId)
+    bool const decoded = codec.decode(aduRsp);
+    if (static_cast<std::uint16_t>(aduReq.transactId) != aduRsp.transactId)
     {
         LM(MODBUS, LW, "Client-%u, unexpected transaction %u vs %u"
             , uid, aduReq.transactId, aduRsp.transactId);
+        return Status::noerror;
+    }
+    if (not decoded)
+    {
+        LM(MODBUS, LW, "Client-%u, ADU decode error", uid);
         provideRspError(aduReq);
         return Status::done;
     }
@@ -175,7 +181,7 @@ Status ModbusClient::receive()
     reactor::MsgStore<MsgModbusClientAduRsp> msgStore;
     MsgModbusClientAduRsp& rsp = msgStore.getMsg();
     rsp.clientId = aduReq.clientId;
-    rsp.transactId = aduRsp.transactId;
+    rsp.transactId = aduReq.transactId;
     rsp.error = ModbusError::noerror;
     rsp.status = MsgStatus::success;
     rsp.numBytes = aduRsp.numBytes;
@@ -187,12 +193,7 @@ Status ModbusClient::receive()
 
 void ModbusClient::receivePostaction()
 {
-    if (aduStorage.empty())
-    {
-        LM(MODBUS, LI, "Client-%u, ADU storage is empty", uid);
-        return;
-    }
-    aduStorage.pop();
+    rspExpected = false;
 }
 
 void ModbusClient::provideRspError(AduRequest const& adu)
@@ -215,6 +216,7 @@ void ModbusClient::provideRspTimeout()
         return;
     }
     provideRspError(aduStorage.front());
+    aduStorage.pop();
 }
 
 void ModbusClient::provideRspModbusError(AduRequest const& adu, ModbusError error)
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..d988c53 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -73,6 +73,8 @@ private:
 
     void provideRspError(AduRequest const&);
 
+    Status processAdu();
+
     void onLinkEvent(reactor::LinkEvent);
 
     void onTimerEvent();
@@ -84,6 +86,7 @@ private:
     reactor::TimerPtr timer;
     ModbusAduStorage aduStorage;
     PduBuffer pduBuf;
+    bool rspExpected;
 };
 
 } // namespace app::modbus
-- 
2.43.0


From 6e6d3aaee5e443aaf11cb01c34125de86138e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:39 +0000
Subject: [PATCH 12/48] fix: a Modbus configuration request is always answered,
 with the outcome of each item

---
 src/app/modbus/Modbus.cpp              | 22 ++++++++++++++++------
 src/app/modbus/Modbus.hpp              |  2 ++
 src/app/modbus/client/ModbusClient.cpp | 10 +++++++++-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/app/modbus/Modbus.cpp b/src/app/modbus/Modbus.cpp
index c0e1e62..8d27351 100644
--- a/src/app/modbus/Modbus.cpp
+++ b/src/app/modbus/Modbus.cpp
@@ -17,11 +17,10 @@ Modbus::~Modbus()
 {
 }
 
-void Modbus::receive(MsgModbusConfigReq const& req)
+bool Modbus::configure(ModbusConfig const& item)
 {
-    for (unsigned i = 0; i < req.numItems; ++i)
+    try
     {
-        ModbusConfig const& item = req.items[i];
         switch (item.mode)
         {
         case ModbusConfig::Mode::server:
@@ -29,9 +28,10 @@ void Modbus::receive(MsgModbusConfigReq const& req)
             if (item.id >= servers.size())
             {
                 LM(MODBUS, LE, "Invalid serverId, %u", item.id);
-                continue;
+                return false;
             }
             ModbusServer::Init init{item.id, item.addr};
+            servers[item.id].reset();
             servers[item.id] = std::make_unique<ModbusServer>(init);
             servers[item.id]->start();
         }
@@ -41,23 +41,33 @@ void Modbus::receive(MsgModbusConfigReq const& req)
             if (item.id >= clients.size())
             {
                 LM(MODBUS, LE, "Invalid clientId, %u", item.id);
-                continue;
+                return false;
             }
             ModbusClient::Init init{item.id, item.addr};
+            clients[item.id].reset();
             clients[item.id] = std::make_unique<ModbusClient>(init);
             clients[item.id]->start();
         }
         break;
         }
     }
+    catch (std::exception const& e)
+    {
+        LM(MODBUS, LE, "Can not configure %u: %s", item.id, e.what());
+        return false;
+    }
+    return true;
+}
 
+void Modbus::receive(MsgModbusConfigReq const& req)
+{
     reactor::MsgStore<MsgModbusConfigRsp> msgStore;
     MsgModbusConfigRsp& rsp = msgStore.getMsg();
     rsp.numItems = req.numItems;
     for (unsigned i = 0; i < req.numItems; ++i)
     {
         rsp.items[i].id = req.items[i].id;
-        rsp.items[i].status = MsgStatus::success;
+        rsp.items[i].status = configure(req.items[i]) ? MsgStatus::success : MsgStatus::error;
     }
     Sender::sendMsg(msgStore);
 }
diff --git a/src/app/modbus/Modbus.hpp b/src/app/modbus/Modbus.hpp
index 2a95b47..ab96134 100644
--- a/src/app/modbus/Modbus.hpp
+++ b/src/app/modbus/Modbus.hpp
@@ -32,6 +32,8 @@ public:
     void receive(MsgModbusAduRsp const&);
 
 private:
+    bool configure(ModbusConfig const&);
+
     std::vector<std::unique_ptr<ModbusServer>> servers;
     std::vector<std::unique_ptr<ModbusClient>> clients;
 };
diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index bd4a2e1..3c4ad06 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -29,7 +29,15 @@ ModbusClient::~ModbusClient()
 void ModbusClient::connect()
 {
     pduBuf.reset();
-    link->connect(addr);
+    try
+    {
+        link->connect(addr);
+    }
+    catch (std::exception const& e)
+    {
+        // next attempt follows the connect timeout
+        LM(MODBUS, LE, "Client-%u, connect failed: %s", uid, e.what());
+    }
 }
 
 void ModbusClient::close()
-- 
2.43.0


From 8e9ae1abfd58e0964f6f6a2a9e4acf1bf8aeb450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:39 +0000
Subject: [PATCH 13/48] fix: a decoded Modbus request does not carry values of
 an earlier request

---
 src/app/modbus/ModbusCodec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 4f4feae..8020240 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -177,6 +177,9 @@ bool ModbusCodec::encode(AduRequest const& adu)
 
 bool ModbusCodec::decode(AduRequest& adu)
 {
+    adu.startItem = 0;
+    adu.numItems = 0;
+    adu.numBytes = 0;
     adu.transactId = buf.readBe();
     if (modbusProtocolId != buf.readBe())
     {
-- 
2.43.0


From 4e666f355c050778dab7f8c2725ad3b9453a114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:58 +0000
Subject: [PATCH 14/48] fix: Modbus server handles requests one by one whatever
 their segmentation

A request is framed by its length field; what follows stays in the connection until
the request is completed, a malformed one is skipped, a response to another request
does not end the wait for the right one.
---
 .../modbus/server/session/ModbusSession.cpp   | 96 +++++++++----------
 .../session/ModbusSessionWaitModbusAduRsp.cpp | 22 ++---
 2 files changed, 55 insertions(+), 63 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..5b22853 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -83,57 +83,49 @@ void ModbusSession::receivePreaction()
 
 Result ModbusSession::receive()
 {
-    if (pduBuf.size() > maxAduLen)
-    {
-        LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
-        return Result::done;
-    }
-
-    auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
-    switch (result.status)
-    {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
-    }
-
-    pduBuf.seek(result.len);
-
-    ModbusCodec codec(pduBuf);
-
-    if (not codec.isAduHdrReceived())
-    {
-        return Result::noerror;
-    }
-
-    if (not codec.isAduDataLenValid())
-    {
-        return Result::error;
-    }
-
-    if (not codec.isAduReceived())
-    {
-        return Result::noerror;
-    }
-
-    if (not codec.isAduValid())
-    {
-        LM(MODBUS, LW, "Session-%u, PDU is invalid", uid);
-        // TODO provide error to client
-        return Result::done;
-    }
-
-    LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
-
-    if (not codec.decode(storedAdu))
+    while (true)
     {
+        ModbusCodec codec(pduBuf);
+
+        auto const& result = link->receive(pduBuf.end(), codec.aduMissingLen());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
+
+        pduBuf.seek(result.len);
+
+        if (not codec.isAduHdrReceived())
+        {
+            continue;
+        }
+
+        if (not codec.isAduDataLenValid())
+        {
+            return Result::error;
+        }
+
+        if (not codec.isAduReceived())
+        {
+            continue;
+        }
+
+        LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
+
+        bool const decoded = codec.decode(storedAdu);
+        pduBuf.reset();
+        if (decoded)
+        {
+            break;
+        }
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
-        return Result::done;
     }
 
     reactor::MsgStore<MsgModbusAduReq> msgStore;
@@ -159,7 +151,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     {
         LM(MODBUS, LE, "Session-%u, transactId is unexpected %u vs %u"
             , uid, storedAdu.transactId, rsp.transactId);
-        return Result::done;
+        return Result::noerror;
     }
 
     if (rsp.status != MsgStatus::success)
@@ -168,6 +160,12 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
         return Result::done;
     }
 
+    if (rsp.numBytes > maxAduLen)
+    {
+        LM(MODBUS, LE, "Session-%u, unexpected number of bytes %u", uid, rsp.numBytes);
+        return Result::done;
+    }
+
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 1f87949..4b2ccc7 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -12,21 +12,9 @@ void ModbusSessionWaitModbusAduRsp::onEnter(ModbusSessionFsm& fsm)
     fsm.getEntity().startTimer(ModbusSession::aduRspTimeout);
 }
 
-void ModbusSessionWaitModbusAduRsp::onDataReceived(ModbusSessionFsm& fsm)
+void ModbusSessionWaitModbusAduRsp::onDataReceived(ModbusSessionFsm&)
 {
-    switch (fsm.getEntity().receive())
-    {
-    case Result::error:
-    {
-        fsm.transit<ModbusSessionInit>();
-    }
-    break;
-    default:
-    {
-        LM(MODBUS, LE, "Unexpected");
-    }
-    break;
-    }
+    // read when the current request is completed
 }
 
 void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm, MsgModbusAduRsp const& rsp)
@@ -41,6 +29,11 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
     case Result::done:
     {
         fsm.transit<ModbusSessionConnected>();
+        fsm.getState().onDataReceived(fsm);
+    }
+    break;
+    case Result::noerror:
+    {
     }
     break;
     default:
@@ -55,6 +48,7 @@ void ModbusSessionWaitModbusAduRsp::onTimer(ModbusSessionFsm& fsm)
 {
     LM(MODBUS, LE, "onTimer");
     fsm.transit<ModbusSessionConnected>();
+    fsm.getState().onDataReceived(fsm);
 }
 
 void ModbusSessionWaitModbusAduRsp::onExit(ModbusSessionFsm& fsm)
-- 
2.43.0


From 45819ec366393b3c810a9fe981258cef1678fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:19 +0000
Subject: [PATCH 15/48] fix: Modbus server survives more connections than it
 has room for and failing accepts

Sessions were lost for good when accepting failed, and a connection that could not be
accepted kept the event loop busy.
---
 src/app/common/reactor/Acceptor.cpp          | 11 ++++++++
 src/app/common/reactor/Acceptor.hpp          |  2 ++
 src/app/common/reactor/AcceptorInterface.hpp |  2 ++
 src/app/modbus/server/ModbusServer.cpp       | 29 ++++++++++++++++++--
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 78c897f..13a9cf6 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -138,4 +138,15 @@ void Acceptor::accept(LinkInterface& link)
     }
 }
 
+void Acceptor::reject()
+{
+    int fd = ::accept(sfd, nullptr, nullptr);
+    if (-1 == fd)
+    {
+        LM(GEN, LE, "accept errno: %d", errno);
+        return;
+    }
+    ::close(fd);
+}
+
 } // namespace app::reactor
diff --git a/src/app/common/reactor/Acceptor.hpp b/src/app/common/reactor/Acceptor.hpp
index f0312e1..bac75db 100644
--- a/src/app/common/reactor/Acceptor.hpp
+++ b/src/app/common/reactor/Acceptor.hpp
@@ -23,6 +23,8 @@ public:
 
     void accept(LinkInterface&) final;
 
+    void reject() final;
+
     void close() final;
 
     void release() final;
diff --git a/src/app/common/reactor/AcceptorInterface.hpp b/src/app/common/reactor/AcceptorInterface.hpp
index 84a6437..bbd3702 100644
--- a/src/app/common/reactor/AcceptorInterface.hpp
+++ b/src/app/common/reactor/AcceptorInterface.hpp
@@ -14,6 +14,8 @@ public:
 
     virtual void accept(LinkInterface&) = 0;
 
+    virtual void reject() = 0;
+
     virtual void close() = 0;
 
     virtual void release() = 0;
diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..a0af820 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,11 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, Invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
@@ -48,12 +53,32 @@ void ModbusServer::onAcceptEvent()
     if (not sessionPool.alloc(uid))
     {
         LM(MODBUS, LE, "Server-%u, can not alloc session from pool", id);
+        acceptor->reject();
         return;
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
+    try
+    {
+        session.prepare(id);
+    }
+    catch (std::exception const& e)
+    {
+        LM(MODBUS, LE, "Server-%u, can not prepare session: %s", id, e.what());
+        session.releaseSession();
+        acceptor->reject();
+        return;
+    }
+    try
+    {
+        acceptor->accept(session.getLink());
+    }
+    catch (std::exception const& e)
+    {
+        LM(MODBUS, LE, "Server-%u, can not accept: %s", id, e.what());
+        session.releaseSession();
+        return;
+    }
     session.start();
 }
 
-- 
2.43.0


From 1340f5eff3f5a24920742a130d0f2ae89e293501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:13 +0000
Subject: [PATCH 16/48] fix: bound every OPC UA buffer access by the received
 data

Decoding read past the received bytes and the 4 KB buffer, lengths taken from
the network were used unchecked (a null array, length -1, threw), copies of the
rest of a partly decoded buffer were too long, and an unsupported NodeId
encoding ended the process (throw without an exception).
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 37 +++++++++++--------
 src/app/common/ua/common/OpcUaBinaryCodec.hpp |  5 ++-
 src/app/common/ua/common/OpcUaSduBuffer.cpp   | 24 +++++++++---
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..3a1bae4 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -25,6 +26,21 @@ std::uint8_t OpcUaBinaryCodec::read()
     return buffer.read();
 }
 
+Int32 OpcUaBinaryCodec::readLength()
+{
+    Int32 len;
+    *this >> len;
+    if (len < 0)
+    {
+        return Int32{0};
+    }
+    if (static_cast<std::uint32_t>(len) > buffer.size())
+    {
+        throw std::out_of_range("length exceeds the received data");
+    }
+    return len;
+}
+
 OpcUaSduBuffer& OpcUaBinaryCodec::buf()
 {
     return buffer;
@@ -253,12 +269,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Double const& val)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
 {
-    Int32 len;
-    s >> len;
-    if (len == -1)
-    {
-        return s;
-    }
+    Int32 const len = s.readLength();
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
@@ -320,13 +331,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Guid const& val)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
 {
-    Int32 len;
-    s >> len;
-    if (len == -1)
-    {
-        val.clear();
-        return s;
-    }
+    Int32 const len = s.readLength();
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
@@ -398,7 +403,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("unsupported encoding");
     }
     return s;
 }
@@ -444,7 +449,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("unsupported encoding");
     }
     return s;
 }
@@ -772,7 +777,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("unsupported encoding");
         }
         return s;
     }
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..589458e 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -69,6 +69,8 @@ public:
 
     std::uint8_t read();
 
+    Int32 readLength();
+
     OpcUaSduBuffer& buf();
 
     OpcUaSduBuffer const& buf() const;
@@ -239,8 +241,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, StaticArray<T, SIZE> const& ar
 template <typename T>
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
-    Int32 arrayLength;
-    s >> arrayLength;
+    Int32 const arrayLength = s.readLength();
     arr.resize(arrayLength);
     for (auto& it : arr)
     {
diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..f9893e9 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= maxPacketLen)
+    {
+        throw std::length_error("OpcUaSduBuffer overflow");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::out_of_range("OpcUaSduBuffer underflow");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
@@ -30,27 +40,27 @@ std::uint8_t OpcUaSduBuffer::read()
 
 std::uint8_t const* OpcUaSduBuffer::begin() const
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::begin()
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::end()
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint8_t const* OpcUaSduBuffer::end() const
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint32_t OpcUaSduBuffer::size() const
 {
-    return head;
+    return head - tail;
 }
 
 std::uint32_t OpcUaSduBuffer::capacity() const
@@ -60,6 +70,10 @@ std::uint32_t OpcUaSduBuffer::capacity() const
 
 void OpcUaSduBuffer::seek(std::uint32_t val)
 {
+    if (val > capacity())
+    {
+        throw std::length_error("OpcUaSduBuffer overflow");
+    }
     head += val;
 }
 
-- 
2.43.0


From c23534113500597bdc7b22aefc6565f0a98a96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:34 +0000
Subject: [PATCH 17/48] fix: receive OPC UA messages by their size, whatever
 the TCP segmentation

Several messages received together closed the connection, a message that
followed the hello in the same segment was not read until more data arrived, and
a message longer than the buffer or shorter than its header was accepted.
---
 .../ua/transport/server/UaTcpConnection.cpp   | 59 ++++++++-----------
 .../server/UaTcpConnectionConnected.cpp       | 33 ++++++-----
 .../server/UaTcpConnectionReceiveHello.cpp    |  2 +
 src/app/ua/transport/server/UaTcpDefs.hpp     |  4 ++
 4 files changed, 48 insertions(+), 50 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..0216f85 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -175,44 +175,33 @@ void UaTcpConnection::receivePreaction()
 
 UaTcpConnection::Result UaTcpConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rxBuffer.size() > 1024)
+    for (;;)
     {
-        LM(UATL, LE, "Uid-%u, received packet is invalid", connectionId);
-        return Result::error;
-    }
-
-    auto const& result = link->receive(rxBuffer.end(), rxBuffer.capacity());
-    switch (result.status)
-    {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
-    }
-
-    rxBuffer.seek(result.len);
-
-    if (rxBuffer.size() < messageHeaderSize)
-    {
-        return Result::noerror;
-    }
-
-    if (rxBuffer.size() < getMsgSizeFromHdr(rxBuffer.begin()))
-    {
-        return Result::noerror;
-    }
+        bool const hdrReceived = rxBuffer.size() >= messageHeaderSize;
+        std::uint32_t const expected = hdrReceived ? getMsgSizeFromHdr(rxBuffer.begin()) : messageHeaderSize;
+        if (expected < messageHeaderSize || expected > opcUaMaxReceivedMessageSize)
+        {
+            LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
+            return Result::error;
+        }
+        if (hdrReceived && rxBuffer.size() == expected)
+        {
+            return Result::done;
+        }
 
-    if (rxBuffer.size() != getMsgSizeFromHdr(rxBuffer.begin()))
-    {
-        LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
-        return Result::error;
+        auto const& result = link->receive(rxBuffer.end(), expected - rxBuffer.size());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
+        rxBuffer.seek(result.len);
     }
-
-    return Result::done;
 }
 
 UaTcpConnection::Result UaTcpConnection::receiveHello()
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..2315daf 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -14,22 +14,25 @@ void UaTcpConnectionConnected::onEnter(UaTcpConnection& fsm)
 
 void UaTcpConnectionConnected::onDataReceived(UaTcpConnection& fsm)
 {
-    switch (fsm.receiveSecuredMessage())
+    for (;;)
     {
-    case UaTcpConnection::Result::noerror:
-    break;
-    case UaTcpConnection::Result::done:
-    {
-        fsm.startTimer(opcUaTcpReceiveTimeout);
-        fsm.receivePreaction();
-    }
-    break;
-    case UaTcpConnection::Result::error:
-    {
-        fsm.sendUaConnectionReleaseInd();
-        fsm.transit<UaTcpConnectionInit>();
-    }
-    break;
+        switch (fsm.receiveSecuredMessage())
+        {
+        case UaTcpConnection::Result::noerror:
+            return;
+        case UaTcpConnection::Result::done:
+        {
+            fsm.startTimer(opcUaTcpReceiveTimeout);
+            fsm.receivePreaction();
+        }
+        break;
+        case UaTcpConnection::Result::error:
+        {
+            fsm.sendUaConnectionReleaseInd();
+            fsm.transit<UaTcpConnectionInit>();
+        }
+            return;
+        }
     }
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..6db0eb0 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -22,6 +22,8 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     case UaTcpConnection::Result::done:
     {
         fsm.transit<UaTcpConnectionConnected>();
+        // the following messages may have been received together with hello
+        fsm.getState().onDataReceived(fsm);
     }
     break;
     case UaTcpConnection::Result::error:
diff --git a/src/app/ua/transport/server/UaTcpDefs.hpp b/src/app/ua/transport/server/UaTcpDefs.hpp
index bd47aba..1dbbf85 100644
--- a/src/app/ua/transport/server/UaTcpDefs.hpp
+++ b/src/app/ua/transport/server/UaTcpDefs.hpp
@@ -2,6 +2,8 @@
 
 #include <cstdint>
 
+#include "MaxMsgSize.hpp"
+
 namespace app::ua::transport
 {
 
@@ -9,6 +11,8 @@ static constexpr std::uint32_t opcUaProtocolVersion = 0;
 static constexpr std::uint32_t opcUaSendBufferSize = 65536;
 static constexpr std::uint32_t opcUaReceiveBufferSize = 65536;
 static constexpr std::uint32_t opcUaMaxChunkCount = 5000;
+// a received message has to fit into an internal message
+static constexpr std::uint32_t opcUaMaxReceivedMessageSize = reactor::maxMsgSize - 64;
 static constexpr std::uint32_t opcUaTcpReceiveTimeout = 30000000;
 
 } // namespace app::ua::transport
-- 
2.43.0


From 182bb2e1b3f7adf6db22852fd4e610406a5eeb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:39 +0000
Subject: [PATCH 18/48] fix: close an OPC UA connection that does not start
 with a valid hello

Any message was acknowledged as a hello, and an undecodable one left the
connection open.
---
 .../ua/transport/server/UaTcpConnection.cpp   | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 0216f85..407ae08 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -5,6 +5,8 @@
 #include "UaTcpDefs.hpp"
 #include "UaTransportSender.hpp"
 
+#include <stdexcept>
+
 namespace app::ua::transport
 {
 
@@ -216,18 +218,25 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (not isMsgHello(rxBuffer.begin()))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
+
     OpcUaBinaryCodec codec(rxBuffer);
 
     MessageHeader hdr;
     HelloMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid-%u, invalid HelloMessage: %s", connectionId, e.what());
+        return Result::error;
+    }
 
     LM(UATL, LD, "Uid-%u, received HelloMessage", connectionId);
 
@@ -282,7 +291,15 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
 
     OpcUaBinaryCodec codec(rxBuffer);
     UaMessageHeader hdr;
-    codec >> hdr;
+    try
+    {
+        codec >> hdr;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid-%u, invalid message header: %s", connectionId, e.what());
+        return Result::error;
+    }
 
     LM(UATL, LD, "Uid-%u, receiveSecuredMessage: %s", connectionId, toString(msgType).c_str());
 
-- 
2.43.0


From 0892c38d4f1f0e49db91c77cc90f635e554b6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 19/48] fix: release an OPC UA connection when its link reports
 an error

The link is closed at that point, but the connection, its timer and its secure
channel stayed allocated until the receive timeout.
---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp    | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionConnected.hpp    | 2 ++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 2315daf..4db26aa 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -92,6 +92,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     fsm.sendUaConnectionReleaseInd();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 6db0eb0..64f7d88 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -34,6 +34,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f100976 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From 404efe70fcae68edd6a5948ad982f71ec406292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:29 +0000
Subject: [PATCH 20/48] fix: refuse an OPC UA client when no connection can be
 prepared for it

A failing createLink left the client in the backlog, so that the acceptor was
signalled again and again, and a failing timer lost the connection entity.
---
 .../transport/server/UaTcpConnectionInit.cpp  |  1 -
 src/app/ua/transport/server/UaTcpServer.cpp   | 31 ++++++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..70f79a1 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -13,7 +13,6 @@ void UaTcpConnectionInit::onEnter(UaTcpConnection& fsm)
 void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& link)
 {
     fsm.acceptLink(link);
-    fsm.allocTimer();
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index 926c0d9..c3e58fa 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -1,6 +1,8 @@
 #include "UaTcpServer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua::transport
 {
 
@@ -54,16 +56,37 @@ void UaTcpServer::onAcceptEvent()
 {
     LM(UATL, LD, "Uid=%u, onAcceptEvent", uid);
 
-    auto link = reactor.createLink({});
-    acceptor->accept(*link);
-
     EntityId connectionId;
     if (not connectionPool.alloc(connectionId))
     {
-        LM(UATL, LD, "Uid=%u, Can not alloc tcp connection", uid);
+        LM(UATL, LE, "Uid=%u, Can not alloc tcp connection", uid);
+        acceptor->reject();
         return;
     }
     auto& connection = connectionPool.get(connectionId);
+    reactor::LinkPtr link;
+    try
+    {
+        connection.allocTimer();
+        link = reactor.createLink({});
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid=%u, can not prepare connection: %s", uid, e.what());
+        connection.release();
+        acceptor->reject();
+        return;
+    }
+    try
+    {
+        acceptor->accept(*link);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid=%u, can not accept: %s", uid, e.what());
+        connection.release();
+        return;
+    }
     connection.getState().onAcceptLink(connection, link);
 }
 
-- 
2.43.0


From 5b0d354c7b8e25c2a4883319ae4e68bbc7c82442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 21/48] fix: keep messages of a released OPC UA connection from
 the next user of its ids

Entity ids of connections and secure channels are reused at once when the pools
are busy, so a late response, release or request hit another client's connection
or channel. A connection released before its secure channel was opened, or opened
twice, leaked the channel.
---
 .../channel/UaServerSecureChannel.cpp         | 11 ++++++
 .../channel/UaServerSecureChannel.hpp         |  1 +
 .../UaServerSecureChannelEstablished.cpp      | 14 +++++++-
 .../ua/transport/server/UaTcpConnection.cpp   |  9 ++++-
 .../ua/transport/server/UaTcpConnection.hpp   |  8 ++++-
 src/app/ua/transport/server/UaTcpServer.cpp   | 34 ++++++++++++++-----
 src/app/ua/transport/server/UaTcpServer.hpp   |  5 ++-
 7 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..cf337de 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -20,6 +20,17 @@ UaServerSecureChannel::~UaServerSecureChannel()
 {
 }
 
+bool UaServerSecureChannel::isConnection(UaConnectionId val) const
+{
+    if (connectionId && *connectionId == val)
+    {
+        return true;
+    }
+    // messages of a connection the channel belonged to before
+    LM(UASC, LI, "Uid-%u, unexpected connectionId", secureChannelId);
+    return false;
+}
+
 void UaServerSecureChannel::release()
 {
     sequenceNumberTx = 0;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..22c78b5 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,7 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    bool   isConnection(UaConnectionId) const;
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..8477664 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,6 +7,10 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        return;
+    }
     fsm.receive(msg);
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
@@ -17,8 +21,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        return;
+    }
     fsm.transit<UaServerSecureChannelInit>();
 }
 
@@ -29,6 +37,10 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        return;
+    }
     if (UaServerSecureChannel::Result::done != fsm.receive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 407ae08..88ec389 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -12,6 +12,7 @@ namespace app::ua::transport
 
 UaTcpConnection::UaTcpConnection(EntityId uid_, reactor::ReactorInterface& r, ReleaserInterface& releaser_)
     : FsmBase(&app::getSingleton<UaTcpConnectionInit>(), "UaTcpConnection")
+    , uid(uid_)
     , connectionId(uid_)
     , reactor(r)
     , releaser(releaser_)
@@ -69,6 +70,11 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    // the previous secure channel of this connection is replaced
+    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)
+    {
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
@@ -152,7 +158,8 @@ void UaTcpConnection::release()
     associatedSecureChannelId = {};
     link.reset();
     timer.reset();
-    releaser.release(connectionId);
+    connectionId += peerIdStep;
+    releaser.release(uid);
 }
 
 void UaTcpConnection::allocTimer()
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..94a0bf2 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -34,6 +34,10 @@ public:
 
     ~UaTcpConnection();
 
+    // the id of the current peer, it differs from the ids of the previous peers of this entity
+    UaConnectionId getConnectionId() const { return connectionId; }
+    static EntityId toEntityId(UaConnectionId id) { return id % peerIdStep; }
+
     Result receive(MsgUaOpenSecureChannelRsp const&);
     Result receive(MsgUaCloseSecureChannelRsp const&);
     Result receive(MsgUaSecuredMessageSendReq const&);
@@ -52,8 +56,10 @@ public:
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
 private:
+    static constexpr UaConnectionId peerIdStep = 0x100;
 
-    UaConnectionId const connectionId;
+    EntityId const uid;
+    UaConnectionId connectionId;
     reactor::ReactorInterface& reactor;
     ReleaserInterface& releaser;
     reactor::LinkPtr link;
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index c3e58fa..0762e2a 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -1,4 +1,5 @@
 #include "UaTcpServer.hpp"
+#include "UaTransportSender.hpp"
 #include "Logger.hpp"
 
 #include <stdexcept>
@@ -17,28 +18,43 @@ UaTcpServer::~UaTcpServer()
 {
 }
 
-void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
+template <typename MSG>
+bool UaTcpServer::forward(MSG const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
+    auto& connection = connectionPool.get(UaTcpConnection::toEntityId(msg.connectionId));
+    if (connection.getConnectionId() != msg.connectionId)
+    {
+        LM(UATL, LI, "Uid=%u, connection %u is already released", uid, msg.connectionId);
+        return false;
+    }
     connection.getState().onReceive(connection, msg);
+    return true;
+}
+
+void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
+{
+    if (not forward(msg))
+    {
+        reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
+        msgStore.getMsg().connectionId = msg.connectionId;
+        msgStore.getMsg().secureChannelId = msg.secureChannelId;
+        Sender::sendMsg(msgStore);
+    }
 }
 
 void UaTcpServer::receive(MsgUaCloseSecureChannelRsp const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    forward(msg);
 }
 
 void UaTcpServer::receive(MsgUaSecuredMessageSendReq const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    forward(msg);
 }
 
 void UaTcpServer::receive(MsgUaConnectionReleaseReq const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    forward(msg);
 }
 
 void UaTcpServer::listen(reactor::LinkAddr const& addr)
@@ -47,7 +63,7 @@ void UaTcpServer::listen(reactor::LinkAddr const& addr)
     acceptor->listen(addr);
 }
 
-void UaTcpServer::release(UaConnectionId connectionId)
+void UaTcpServer::release(EntityId connectionId)
 {
     connectionPool.release(connectionId);
 }
diff --git a/src/app/ua/transport/server/UaTcpServer.hpp b/src/app/ua/transport/server/UaTcpServer.hpp
index a905cfb..8488234 100644
--- a/src/app/ua/transport/server/UaTcpServer.hpp
+++ b/src/app/ua/transport/server/UaTcpServer.hpp
@@ -26,7 +26,10 @@ public:
     void listen(reactor::LinkAddr const& addr);
 
 private:
-    void release(UaConnectionId) final;
+    void release(EntityId) final;
+
+    template <typename MSG>
+    bool forward(MSG const&);
 
     void onAcceptEvent();
 
-- 
2.43.0


From d4f8f7347085ae6b35a53c694bf7401cd5d7021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 22/48] fix: reject ids that are outside of the OPC UA entity
 pools

The authentication token of a request is such an id and comes from the network.
---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
-- 
2.43.0


From 6a7ef5138c117930c5362522916c66ef84860051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:04 +0000
Subject: [PATCH 23/48] fix: release the secure channel and its connection when
 a request can not be decoded

The exception left the channel allocated for good, so a few malformed requests
used up the channels. A client is also disconnected, instead of left without an
answer, when there is no free channel.
---
 src/app/ua/securechannel/UaSecureChannel.cpp  |  6 ++++-
 .../UaServerSecureChannelEstablished.cpp      | 22 +++++++++++++++++--
 .../channel/UaServerSecureChannelInit.cpp     | 13 ++++++++++-
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/app/ua/securechannel/UaSecureChannel.cpp b/src/app/ua/securechannel/UaSecureChannel.cpp
index 3742022..4529e46 100644
--- a/src/app/ua/securechannel/UaSecureChannel.cpp
+++ b/src/app/ua/securechannel/UaSecureChannel.cpp
@@ -1,5 +1,6 @@
 #include "UaSecureChannel.hpp"
 #include "UaSecureChannelReactor.hpp"
+#include "UaSecureChannelSender.hpp"
 #include "Logger.hpp"
 
 namespace app::ua::securechannel
@@ -28,7 +29,10 @@ void UaSecureChannel::receive(MsgUaOpenSecureChannelReq const& msg)
     UaSecureChannelId uid;
     if (not serverSecureChannelPool.alloc(uid))
     {
-        LM(UASC, LD, "Can not alloc channel");
+        LM(UASC, LE, "Can not alloc channel");
+        reactor::MsgStore<MsgUaConnectionReleaseReq> msgStore;
+        msgStore.getMsg().connectionId = msg.connectionId;
+        Sender::sendMsg(msgStore);
         return;
     }
     auto& channel = serverSecureChannelPool.get(uid);
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 8477664..9423ba1 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -2,6 +2,8 @@
 #include "UaServerSecureChannelInit.hpp"
 #include "UaServerSecureChannel.hpp"
 
+#include <stdexcept>
+
 namespace app::ua::securechannel
 {
 
@@ -11,7 +13,14 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     {
         return;
     }
-    fsm.receive(msg);
+    try
+    {
+        fsm.receive(msg);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UASC, LE, "Invalid UaCloseSecureChannelReq: %s", e.what());
+    }
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
 }
@@ -41,7 +50,16 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     {
         return;
     }
-    if (UaServerSecureChannel::Result::done != fsm.receive(msg))
+    auto result = UaServerSecureChannel::Result::error;
+    try
+    {
+        result = fsm.receive(msg);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UASC, LE, "Invalid secured message: %s", e.what());
+    }
+    if (UaServerSecureChannel::Result::done != result)
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
         fsm.transit<UaServerSecureChannelInit>();
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
index 6e19646..dbb47b3 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
@@ -2,6 +2,8 @@
 #include "UaServerSecureChannelEstablished.hpp"
 #include "UaServerSecureChannel.hpp"
 
+#include <stdexcept>
+
 namespace app::ua::securechannel
 {
 
@@ -12,7 +14,16 @@ void UaServerSecureChannelInit::onEnter(UaServerSecureChannel& fsm)
 
 void UaServerSecureChannelInit::onReceive(UaServerSecureChannel& fsm, MsgUaOpenSecureChannelReq const& msg)
 {
-    if (UaServerSecureChannel::Result::done == fsm.receive(msg))
+    auto result = UaServerSecureChannel::Result::error;
+    try
+    {
+        result = fsm.receive(msg);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UASC, LE, "Invalid UaOpenSecureChannelReq: %s", e.what());
+    }
+    if (UaServerSecureChannel::Result::done == result)
     {
         fsm.transit<UaServerSecureChannelEstablished>();
     }
-- 
2.43.0


From 5592908d40382e4b4d1d19cd6f60656449299dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:10 +0000
Subject: [PATCH 24/48] fix: do not drop the response to a request that
 precedes the session activation

A request that a client pipelined with ActivateSession carries the previous
session id and its response was discarded once the channel was associated.
---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index cf337de..51aa45e 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -230,11 +230,6 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessage
         LM(UASC, LE, "Uid-%u, unexpected connectionId", secureChannelId);
         return Result::error;
     }
-    if (sessionId && *sessionId != msgReq.hdr.sessionId)
-    {
-        LM(UASC, LE, "Uid-%u, unexpected sessionId", secureChannelId);
-        return Result::error;
-    }
 
     OpcUaSduBuffer tx;
 
-- 
2.43.0


From e46ccdc1540d70a6ba8f7d2b0f67fc62f50bf027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:08 +0000
Subject: [PATCH 25/48] fix: reuse an OPC UA session after its timeout

Only CloseSession freed a session, so clients that went away without it used up
the sessions and CreateSession was not answered any more.
---
 src/app/common/ua/common/UaEntityPool.hpp     |  9 ++++
 src/app/ua/service/session/UaSession.cpp      | 43 ++++++++++++++++++-
 src/app/ua/service/session/UaSession.hpp      |  4 ++
 .../ua/service/session/UaSessionService.cpp   |  8 +++-
 4 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 9b822cd..fc4c3d5 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -55,6 +55,15 @@ public:
         return *(pool.at(uid - 1));
     }
 
+    template <typename FUNC>
+    void forEach(FUNC func)
+    {
+        for (auto& entity : pool)
+        {
+            func(*entity);
+        }
+    }
+
 private:
     const char* name;
     std::vector<std::unique_ptr<ENTITY>> pool;
diff --git a/src/app/ua/service/session/UaSession.cpp b/src/app/ua/service/session/UaSession.cpp
index f963565..c1e9676 100644
--- a/src/app/ua/service/session/UaSession.cpp
+++ b/src/app/ua/service/session/UaSession.cpp
@@ -6,9 +6,27 @@
 #include "UaServiceSender.hpp"
 #include "TimeUtils.hpp"
 
+#include <algorithm>
+#include <time.h>
+
 namespace app::ua::service
 {
 
+namespace
+{
+
+constexpr double minSessionTimeout = 10000;
+constexpr double maxSessionTimeout = 3600000;
+
+std::int64_t getMonotonicMsec()
+{
+    struct timespec now{};
+    ::clock_gettime(CLOCK_MONOTONIC, &now);
+    return now.tv_sec * 1000L + now.tv_nsec / 1000000L;
+}
+
+} // namespace
+
 UaSession::UaSession(EntityId uid_, reactor::ReactorInterface&, ReleaserInterface& releaser)
     : FsmBase(&app::getSingleton<UaSessionInit>(), "UaSession")
     , sessionId(uid_)
@@ -23,17 +41,37 @@ UaSession::~UaSession()
 void UaSession::release()
 {
     secureChannelId = {};
+    expiration = {};
     sessionReleaser.release(sessionId);
 }
 
+void UaSession::releaseIfExpired()
+{
+    if (expiration && *expiration < getMonotonicMsec())
+    {
+        LM(UASRV, LI, "Uid=%u, session is expired", sessionId);
+        transit<UaSessionInit>();
+    }
+}
+
+void UaSession::prolong()
+{
+    expiration = getMonotonicMsec() + timeout;
+}
+
 UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionReq const& req)
 {
+    double const requestedTimeout = req.requestedSessionTimeout;
+    double const revisedTimeout = requestedTimeout >= minSessionTimeout ? std::min(requestedTimeout, maxSessionTimeout) : minSessionTimeout;
+    timeout = revisedTimeout;
+    prolong();
+
     UaCreateSessionRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
     rsp.msg.sessionId.value.emplace<UInt32>(sessionId);
     rsp.msg.authenticationToken.value.emplace<UInt32>(sessionId);
-    rsp.msg.revisedSessionTimeout = req.requestedSessionTimeout;
+    rsp.msg.revisedSessionTimeout = revisedTimeout;
     auto& descr = rsp.msg.serverEndpoints.emplace_back();
     descr.endpointUrl = "opc.tcp://localhost:4369";
     descr.server.applicationUri = "urn:youkozlov-VivoBook-ASUSLaptop-X513EAN-K513EA:uscada";
@@ -57,6 +95,8 @@ UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCreateSes
 
 UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaActivateSessionReq const& req)
 {
+    prolong();
+
     UaActivateSessionRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
@@ -110,6 +150,7 @@ UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaServiceHa
         LM(UASRV, LE, "Uid=%u, unexpected secure channel Id", sessionId);
         return Result::fail;
     }
+    prolong();
     handler();
     return Result::sucess;
 }
diff --git a/src/app/ua/service/session/UaSession.hpp b/src/app/ua/service/session/UaSession.hpp
index d9b0d0e..3fc3dba 100644
--- a/src/app/ua/service/session/UaSession.hpp
+++ b/src/app/ua/service/session/UaSession.hpp
@@ -24,6 +24,7 @@ public:
     ~UaSession();
 
     void release();
+    void releaseIfExpired();
 
     Result receive(UaEncodedMessageHdr const&, UaCreateSessionReq const&);
     Result receive(UaEncodedMessageHdr const&, UaActivateSessionReq const&);
@@ -31,8 +32,11 @@ public:
     Result receive(UaEncodedMessageHdr const&, UaServiceHandler const&);
 
 private:
+    void prolong();
 
     UaSessionId const sessionId;
+    std::int64_t timeout{0};
+    std::optional<std::int64_t> expiration;
     std::optional<UaSecureChannelId> secureChannelId;
     ReleaserInterface& sessionReleaser;
 };
diff --git a/src/app/ua/service/session/UaSessionService.cpp b/src/app/ua/service/session/UaSessionService.cpp
index b3432e9..58570c4 100644
--- a/src/app/ua/service/session/UaSessionService.cpp
+++ b/src/app/ua/service/session/UaSessionService.cpp
@@ -34,8 +34,12 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionRe
     UaSessionId uid;
     if (not sessionPool.alloc(uid))
     {
-        LM(UASRV, LD, "Can not alloc session");
-        return;
+        sessionPool.forEach([](UaSession& session) { session.releaseIfExpired(); });
+        if (not sessionPool.alloc(uid))
+        {
+            LM(UASRV, LE, "Can not alloc session");
+            return;
+        }
     }
     auto& session = sessionPool.get(uid);
     session.getState().onReceive(session, hdr, msg);
-- 
2.43.0


From 8dfa667845143eab5f95114b82e2b02f58250d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:32 +0000
Subject: [PATCH 26/48] fix: give each OPC UA session an authentication token
 of its own

The token was the session number, so a token of a closed session, or any small
number, acted on the session of another client.
---
 src/app/ua/service/session/UaSession.cpp       |  4 +++-
 src/app/ua/service/session/UaSession.hpp       |  4 ++++
 .../ua/service/session/UaSessionService.cpp    | 18 ++++++++++++++----
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/app/ua/service/session/UaSession.cpp b/src/app/ua/service/session/UaSession.cpp
index c1e9676..5a13bbe 100644
--- a/src/app/ua/service/session/UaSession.cpp
+++ b/src/app/ua/service/session/UaSession.cpp
@@ -30,6 +30,7 @@ std::int64_t getMonotonicMsec()
 UaSession::UaSession(EntityId uid_, reactor::ReactorInterface&, ReleaserInterface& releaser)
     : FsmBase(&app::getSingleton<UaSessionInit>(), "UaSession")
     , sessionId(uid_)
+    , authenticationToken(uid_)
     , sessionReleaser(releaser)
 {
 }
@@ -65,12 +66,13 @@ UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCreateSes
     double const revisedTimeout = requestedTimeout >= minSessionTimeout ? std::min(requestedTimeout, maxSessionTimeout) : minSessionTimeout;
     timeout = revisedTimeout;
     prolong();
+    authenticationToken += (1u + ::rand() % 0x7FFFFF) * 0x100u;
 
     UaCreateSessionRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
     rsp.msg.sessionId.value.emplace<UInt32>(sessionId);
-    rsp.msg.authenticationToken.value.emplace<UInt32>(sessionId);
+    rsp.msg.authenticationToken.value.emplace<UInt32>(authenticationToken);
     rsp.msg.revisedSessionTimeout = revisedTimeout;
     auto& descr = rsp.msg.serverEndpoints.emplace_back();
     descr.endpointUrl = "opc.tcp://localhost:4369";
diff --git a/src/app/ua/service/session/UaSession.hpp b/src/app/ua/service/session/UaSession.hpp
index 3fc3dba..f729b03 100644
--- a/src/app/ua/service/session/UaSession.hpp
+++ b/src/app/ua/service/session/UaSession.hpp
@@ -23,6 +23,9 @@ public:
 
     ~UaSession();
 
+    bool isAuthenticated(std::uint32_t token) const { return token == authenticationToken; }
+    static UaSessionId toSessionId(std::uint32_t token) { return token % 0x100; }
+
     void release();
     void releaseIfExpired();
 
@@ -35,6 +38,7 @@ private:
     void prolong();
 
     UaSessionId const sessionId;
+    std::uint32_t authenticationToken;
     std::int64_t timeout{0};
     std::optional<std::int64_t> expiration;
     std::optional<UaSecureChannelId> secureChannelId;
diff --git a/src/app/ua/service/session/UaSessionService.cpp b/src/app/ua/service/session/UaSessionService.cpp
index 58570c4..61d8904 100644
--- a/src/app/ua/service/session/UaSessionService.cpp
+++ b/src/app/ua/service/session/UaSessionService.cpp
@@ -50,8 +50,13 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaActivateSession
     auto& nodeId = msg.requestHdr.authentificationToken;
     if (std::holds_alternative<UInt32>(nodeId.value))
     {
-        EntityId uid = (std::get<UInt32>(nodeId.value));
-        auto& session = sessionPool.get(uid);
+        std::uint32_t const token = std::get<UInt32>(nodeId.value);
+        auto& session = sessionPool.get(UaSession::toSessionId(token));
+        if (not session.isAuthenticated(token))
+        {
+            LM(UASRV, LE, "Unexpected authentication token");
+            return;
+        }
         session.getState().onReceive(session, hdr, msg);
     }
     else
@@ -65,8 +70,13 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCloseSessionReq
     auto& nodeId = msg.requestHdr.authentificationToken;
     if (std::holds_alternative<UInt32>(nodeId.value))
     {
-        EntityId uid = (std::get<UInt32>(nodeId.value));
-        auto& session = sessionPool.get(uid);
+        std::uint32_t const token = std::get<UInt32>(nodeId.value);
+        auto& session = sessionPool.get(UaSession::toSessionId(token));
+        if (not session.isAuthenticated(token))
+        {
+            LM(UASRV, LE, "Unexpected authentication token");
+            return;
+        }
         session.getState().onReceive(session, hdr, msg);
     }
     else
-- 
2.43.0


From 3e64a9a227278fa6fc1fe5b95ce87e11ee2cfb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:32 +0000
Subject: [PATCH 27/48] fix: address the OPC UA init, config and release
 responses to the controller

---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From 1683e493fc6b90122bb5f94ea778975fad88617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:40 +0000
Subject: [PATCH 28/48] fix: release the secure channels of a connection whose
 release indication was lost

---
 src/app/common/msg/types/UaConnectionId.hpp               | 5 +++++
 src/app/ua/securechannel/UaSecureChannel.cpp              | 3 +++
 .../ua/securechannel/channel/UaServerSecureChannel.cpp    | 8 ++++++++
 .../ua/securechannel/channel/UaServerSecureChannel.hpp    | 1 +
 src/app/ua/transport/server/UaTcpConnection.cpp           | 2 +-
 src/app/ua/transport/server/UaTcpConnection.hpp           | 3 ---
 src/app/ua/transport/server/UaTcpServer.cpp               | 2 +-
 7 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/app/common/msg/types/UaConnectionId.hpp b/src/app/common/msg/types/UaConnectionId.hpp
index fd88ebc..eae7737 100644
--- a/src/app/common/msg/types/UaConnectionId.hpp
+++ b/src/app/common/msg/types/UaConnectionId.hpp
@@ -7,4 +7,9 @@ namespace app
 
 using UaConnectionId = EntityId;
 
+// the ids of the consecutive peers of a connection entity differ by this step
+static constexpr UaConnectionId uaConnectionIdStep = 0x100;
+
+inline EntityId toConnectionEntityId(UaConnectionId id) { return id % uaConnectionIdStep; }
+
 } // namespace app
diff --git a/src/app/ua/securechannel/UaSecureChannel.cpp b/src/app/ua/securechannel/UaSecureChannel.cpp
index 4529e46..3b1de1b 100644
--- a/src/app/ua/securechannel/UaSecureChannel.cpp
+++ b/src/app/ua/securechannel/UaSecureChannel.cpp
@@ -26,6 +26,9 @@ void UaSecureChannel::receive(MsgUaSecureChannelConfigReq const&)
 
 void UaSecureChannel::receive(MsgUaOpenSecureChannelReq const& msg)
 {
+    // a connection has one channel, the indication that an earlier one is not used any more may be lost
+    serverSecureChannelPool.forEach([&msg](UaServerSecureChannel& channel) { channel.releaseIfReplaced(msg.connectionId); });
+
     UaSecureChannelId uid;
     if (not serverSecureChannelPool.alloc(uid))
     {
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 51aa45e..29af5b1 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -39,6 +39,14 @@ void UaServerSecureChannel::release()
     releaser.release(secureChannelId);
 }
 
+void UaServerSecureChannel::releaseIfReplaced(UaConnectionId val)
+{
+    if (connectionId && toConnectionEntityId(*connectionId) == toConnectionEntityId(val))
+    {
+        transit<UaServerSecureChannelInit>();
+    }
+}
+
 void UaServerSecureChannel::sendUaConnectionReleaseReq(UaConnectionId connectionId)
 {
     reactor::MsgStore<MsgUaConnectionReleaseReq> msgStore;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 22c78b5..5a9b9b4 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -36,6 +36,7 @@ public:
 
     bool   isConnection(UaConnectionId) const;
     void   release();
+    void   releaseIfReplaced(UaConnectionId);
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
 private:
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 88ec389..164a72d 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -158,7 +158,7 @@ void UaTcpConnection::release()
     associatedSecureChannelId = {};
     link.reset();
     timer.reset();
-    connectionId += peerIdStep;
+    connectionId += uaConnectionIdStep;
     releaser.release(uid);
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 94a0bf2..9830631 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -36,7 +36,6 @@ public:
 
     // the id of the current peer, it differs from the ids of the previous peers of this entity
     UaConnectionId getConnectionId() const { return connectionId; }
-    static EntityId toEntityId(UaConnectionId id) { return id % peerIdStep; }
 
     Result receive(MsgUaOpenSecureChannelRsp const&);
     Result receive(MsgUaCloseSecureChannelRsp const&);
@@ -56,8 +55,6 @@ public:
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
 private:
-    static constexpr UaConnectionId peerIdStep = 0x100;
-
     EntityId const uid;
     UaConnectionId connectionId;
     reactor::ReactorInterface& reactor;
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index 0762e2a..36c9b26 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -21,7 +21,7 @@ UaTcpServer::~UaTcpServer()
 template <typename MSG>
 bool UaTcpServer::forward(MSG const& msg)
 {
-    auto& connection = connectionPool.get(UaTcpConnection::toEntityId(msg.connectionId));
+    auto& connection = connectionPool.get(toConnectionEntityId(msg.connectionId));
     if (connection.getConnectionId() != msg.connectionId)
     {
         LM(UATL, LI, "Uid=%u, connection %u is already released", uid, msg.connectionId);
-- 
2.43.0


From c6563b66eb8626eb5d35b0f80f437aebffe77367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 29/48] fix: join only the event loop threads that were started

A thread that was never started (or whose start failed) was joined through
an uninitialised handle when the reactor was destroyed.
---
 src/app/common/reactor/Thread.cpp | 15 ++++++++++++++-
 src/app/common/reactor/Thread.hpp |  3 +++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..ad810ce 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -23,6 +23,7 @@ static void* executer(void* args)
 Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
     : cpuMask(cpuMask_)
     , handler(handler_)
+    , started(false)
 {
     int result = pthread_attr_init(&attr);
     if (result != 0)
@@ -39,11 +40,22 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
-    result = pthread_join(tid, nullptr);
+    join();
+}
+
+void Thread::join()
+{
+    if (not started)
+    {
+        return;
+    }
+    int result = pthread_join(tid, nullptr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_join");
+        return;
     }
+    started = false;
 }
 
 void Thread::start()
@@ -60,6 +72,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    started = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..271daa2 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -18,10 +18,13 @@ public:
 
     void start();
 
+    void join();
+
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
     pthread_t tid;
+    bool started;
     pthread_attr_t attr;
 };
 
-- 
2.43.0


From f852b5f913db2d5febb240a2bbf9c904ba01d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 30/48] fix: wait for the event loop threads when the reactors
 are stopped

stop() only raised a flag and slept for 100 ms, while a thread can be in
epoll_wait() or in a handler for much longer: it went on to use components
and reactors that were being destroyed.  When start() failed nothing stopped
the threads that already ran.
---
 src/app/common/reactor/Reactor.cpp        | 14 ++++++++++++++
 src/app/common/reactor/ReactorManager.cpp |  6 ++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 3c42c2e..63f6abe 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -39,6 +39,7 @@ Reactor::Reactor(Init const& init)
 
 Reactor::~Reactor()
 {
+    stop();
 }
 
 void Reactor::registerHandler(MsgId id, MsgHandler handler)
@@ -136,6 +137,19 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    try
+    {
+        // the threads may be waiting for an event
+        event->send();
+    }
+    catch (std::exception const& e)
+    {
+        LM(GEN, LE, "Can not wake up the threads: %s", e.what());
+    }
+    for (auto& thread : threads)
+    {
+        thread->join();
+    }
 }
 
 void Reactor::onFdEvent(uint64_t val)
diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..582d8b0 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -1,8 +1,6 @@
 #include "ReactorManager.hpp"
 
 #include <iostream>
-#include <chrono>
-#include <thread>
 
 #include "MsgInterface.hpp"
 #include "ReactorInterface.hpp"
@@ -18,6 +16,8 @@ ReactorManager::ReactorManager()
 
 ReactorManager::~ReactorManager()
 {
+    // no handler may run while the components are destroyed
+    stop();
 }
 
 void ReactorManager::send(MsgInterface const& msg)
@@ -61,8 +61,6 @@ void ReactorManager::stop()
     {
         reactor->stop();
     }
-    using namespace std::chrono_literals;
-    std::this_thread::sleep_for(100ms);
 }
 
 
-- 
2.43.0


From 35024311703e3d086eff5340f049579d5d1005f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 31/48] fix: ignore a stop request when nothing is started

---
 src/app/controller/ControllerComponent.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..6397a80 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,10 +49,16 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
-    modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
-    opcUa.reset();
+    if (modbus)
+    {
+        modbus->receive(req);
+        modbus.reset();
+    }
+    if (opcUa)
+    {
+        opcUa->getState().onReceive(*opcUa, req);
+        opcUa.reset();
+    }
 }
 
 void ControllerComponent::receive(MsgModbusInitRsp const& rsp)
-- 
2.43.0


From 5aca692cf3318f1607124441b704998096eadc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:02 +0000
Subject: [PATCH 32/48] fix: release Modbus when it is stopped while it is
 being configured

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From eb714e09eff41863a7c6139f5279ba88475441ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:02 +0000
Subject: [PATCH 33/48] fix: do not insert into the component map when a
 message is sent

A message to a component that is not deployed inserted an empty entry while
other threads were looking components up.
---
 src/app/common/reactor/ReactorManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index 582d8b0..5a62289 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -22,13 +22,14 @@ ReactorManager::~ReactorManager()
 
 void ReactorManager::send(MsgInterface const& msg)
 {
-    auto& comp = components[msg.getCompId()];
-    if (nullptr == comp)
+    // send() is called by several threads: the map must not be changed here
+    auto it = components.find(msg.getCompId());
+    if (it == components.end())
     {
         LM(GEN, LE, "Can not find component, compId=%zu", msg.getCompId());
         return;
     }
-    comp->getReactor().send(msg);
+    it->second->getReactor().send(msg);
 }
 
 void ReactorManager::addComponent(std::unique_ptr<ComponentInterface> comp)
-- 
2.43.0


From c2307c1a5fe40881e01faf4ada962f3abdb7eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:03 +0000
Subject: [PATCH 34/48] fix: refuse Modbus requests outside the registers of
 the test controller

The transaction id and the register range of a request from the network
indexed the test case table and its data without a check.
---
 .../modbus/ModbusTestController.cpp           | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..a3ccf47 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -15,6 +15,7 @@
 
 #include "Logger.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 #include <cstring>
@@ -341,6 +342,24 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
 
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    // the request may come from any client on the network
+    std::size_t const offset = req.startItem * 2u;
+    std::size_t const length = std::max<std::size_t>(req.numItems * 2u, req.numBytes);
+    if (req.transactId >= testCases.size() || offset + length > testCases[req.transactId].rsp.data.size())
+    {
+        LM(CTRL, LE, "Unexpected request: transactId-%u, startItem-%u, numItems-%u", req.transactId, req.startItem, req.numItems);
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::error;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
-- 
2.43.0


From 88f03ee8ff64fef16964eedf24ea4ba4ecc37381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:24 +0000
Subject: [PATCH 35/48] fix: reconnect the Modbus client when its connection is
 reset

The states Connected, Send and Receive ignored the error event of the link: after a reset the client stayed
disconnected until the next request, which then failed, and a request waiting for its answer was reported only
after the receive timeout.
---
 src/app/modbus/client/ModbusClientConnected.cpp | 7 +++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 7 +++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 7 +++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..14b840f 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -32,4 +32,11 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 } // namespace app::modbus
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..b3793dd 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -45,6 +45,13 @@ void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onTimer(ModbusClientFsm& fsm)
 {
     LM(MODBUS, LI, "onTimer");
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..4a6ef70 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -36,6 +36,13 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onTimer(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().send())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0


From 55dfdba18b9438a665ed40c38d795dd32e110f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 36/48] fix: let the acceptor listen again while old
 connections are in TIME_WAIT

---
 src/app/common/reactor/Acceptor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 13a9cf6..a59a83a 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -50,6 +50,12 @@ void Acceptor::listen(LinkAddr const& address)
     {
         throw std::runtime_error("socket");
     }
+    // connections of an earlier listener may still be in TIME_WAIT
+    int const reuse = 1;
+    if (-1 == ::setsockopt(sfd, SOL_SOCKET, SO_REUSEADDR, &reuse, sizeof(reuse)))
+    {
+        LM(GEN, LE, "setsockopt errno: %d", errno);
+    }
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
     addr.sin_port = htons(ipv4port(address));
-- 
2.43.0


From ba55dbea3526dbbbde0b40073f962fd72575e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 37/48] fix: do not grow the UA service map with unknown
 service ids

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..9c370ee 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto it = services.find(static_cast<DataTypeId>(serviceId));
+    if (it == services.end())
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    it->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From 65b9b567eba244898bf54f6aa286c9b6be32e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 38/48] fix: answer the requests that wait when a Modbus client
 is replaced or released

---
 src/app/modbus/Modbus.cpp          | 16 ++++++++++++++++
 src/app/modbus/Modbus.hpp          |  2 ++
 src/app/modbus/ModbusComponent.cpp | 11 ++++++++++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/Modbus.cpp b/src/app/modbus/Modbus.cpp
index 8d27351..69277d2 100644
--- a/src/app/modbus/Modbus.cpp
+++ b/src/app/modbus/Modbus.cpp
@@ -17,6 +17,18 @@ Modbus::~Modbus()
 {
 }
 
+void Modbus::release()
+{
+    for (auto& client : clients)
+    {
+        if (client)
+        {
+            // requests that are still waiting
+            client->provideRspError();
+        }
+    }
+}
+
 bool Modbus::configure(ModbusConfig const& item)
 {
     try
@@ -44,6 +56,10 @@ bool Modbus::configure(ModbusConfig const& item)
                 return false;
             }
             ModbusClient::Init init{item.id, item.addr};
+            if (clients[item.id])
+            {
+                clients[item.id]->provideRspError();
+            }
             clients[item.id].reset();
             clients[item.id] = std::make_unique<ModbusClient>(init);
             clients[item.id]->start();
diff --git a/src/app/modbus/Modbus.hpp b/src/app/modbus/Modbus.hpp
index ab96134..55abe8f 100644
--- a/src/app/modbus/Modbus.hpp
+++ b/src/app/modbus/Modbus.hpp
@@ -27,6 +27,8 @@ public:
 
     ~Modbus();
 
+    void release();
+
     void receive(MsgModbusConfigReq const&);
     void receive(MsgModbusClientAduReq const&);
     void receive(MsgModbusAduRsp const&);
diff --git a/src/app/modbus/ModbusComponent.cpp b/src/app/modbus/ModbusComponent.cpp
index 6d32b5a..2d3a9ac 100644
--- a/src/app/modbus/ModbusComponent.cpp
+++ b/src/app/modbus/ModbusComponent.cpp
@@ -40,6 +40,11 @@ void ModbusComponent::receive(MsgModbusInitReq const& req)
     LM(MODBUS, LD, "ModbusInitReq received");
 
     Modbus::Init init{req.maxNumServers, req.maxNumClients};
+    if (modbus)
+    {
+        modbus->release();
+        modbus.reset();
+    }
     modbus = std::make_unique<Modbus>(init);
 
     reactor::MsgStore<MsgModbusInitRsp> msgStore;
@@ -50,7 +55,11 @@ void ModbusComponent::receive(MsgModbusReleaseReq const&)
 {
     LM(MODBUS, LD, "ModbusReleaseReq received");
 
-    modbus.reset();
+    if (modbus)
+    {
+        modbus->release();
+        modbus.reset();
+    }
 
     reactor::MsgStore<MsgModbusReleaseRsp> msgStore;
     Sender::sendMsg(msgStore);
-- 
2.43.0


From d5f56cada2644efc64f959086a6a665c771e50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:10 +0000
Subject: [PATCH 39/48] fix: answer Modbus configuration and client requests
 that precede the initialisation

---
 src/app/modbus/ModbusComponent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusComponent.cpp b/src/app/modbus/ModbusComponent.cpp
index 2d3a9ac..1e4e141 100644
--- a/src/app/modbus/ModbusComponent.cpp
+++ b/src/app/modbus/ModbusComponent.cpp
@@ -19,6 +19,7 @@ ModbusComponent::ModbusComponent(reactor::SenderInterface& sender, reactor::Reac
     : ComponentBase(sender, reactor)
     , modbusSender(*this)
     , modbusReactor(reactor)
+    , modbus(std::make_unique<Modbus>(Modbus::Init{0, 0}))
 {
     registerComponent();
 }
@@ -58,8 +59,9 @@ void ModbusComponent::receive(MsgModbusReleaseReq const&)
     if (modbus)
     {
         modbus->release();
-        modbus.reset();
     }
+    // requests are still answered
+    modbus = std::make_unique<Modbus>(Modbus::Init{0, 0});
 
     reactor::MsgStore<MsgModbusReleaseRsp> msgStore;
     Sender::sendMsg(msgStore);
-- 
2.43.0


From 865cd14dc27264299ebfc09c6cfdd1ea20faee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:15 +0000
Subject: [PATCH 40/48] fix: refuse Modbus answers whose contents do not match
 the request

---
 src/app/modbus/client/ModbusClient.cpp | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 3c4ad06..6a4c558 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -11,6 +11,29 @@
 namespace app::modbus
 {
 
+namespace
+{
+
+// A read is answered with as many registers as requested, a write is answered with an echo.
+bool isMatching(AduRequest const& req, AduRespond const& rsp)
+{
+    switch (req.func)
+    {
+    case ModbusFunction::readHoldingRegisters:
+    case ModbusFunction::readInputRegisters:
+        return rsp.numBytes == req.numItems * 2;
+    case ModbusFunction::forceSingleCoil:
+    case ModbusFunction::presetSingleRegister:
+        return rsp.startItem == req.startItem && 0 == std::memcmp(rsp.data, req.data, rsp.numBytes);
+    case ModbusFunction::presetMultipleRegisters:
+        return rsp.startItem == req.startItem && rsp.numItems == req.numItems;
+    default:
+        return true;
+    }
+}
+
+}
+
 ModbusClient::ModbusClient(Init const& init)
     : uid(init.id)
     , addr(init.addr)
@@ -186,6 +209,13 @@ Status ModbusClient::processAdu()
         return Status::done;
     }
 
+    if (not isMatching(aduReq, aduRsp))
+    {
+        LM(MODBUS, LW, "Client-%u, contents do not match the request", uid);
+        provideRspError(aduReq);
+        return Status::done;
+    }
+
     reactor::MsgStore<MsgModbusClientAduRsp> msgStore;
     MsgModbusClientAduRsp& rsp = msgStore.getMsg();
     rsp.clientId = aduReq.clientId;
-- 
2.43.0


From e1d374cf386d45aec6ae56157b87abb95fd38e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:45 +0000
Subject: [PATCH 41/48] fix: mark Modbus exceptions with the function that
 failed

---
 src/app/common/msg/types/ModbusFunction.hpp     | 2 +-
 src/app/modbus/ModbusCodec.cpp                  | 7 ++++++-
 src/app/modbus/client/AduRespond.hpp            | 1 +
 src/app/modbus/client/ModbusClient.cpp          | 2 +-
 src/app/modbus/server/session/ModbusSession.cpp | 1 +
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/app/common/msg/types/ModbusFunction.hpp b/src/app/common/msg/types/ModbusFunction.hpp
index e22b2ef..994ccc8 100644
--- a/src/app/common/msg/types/ModbusFunction.hpp
+++ b/src/app/common/msg/types/ModbusFunction.hpp
@@ -14,7 +14,7 @@ enum class ModbusFunction : std::uint8_t
     , forceSingleCoil = 0x5
     , presetSingleRegister = 0x6
     , presetMultipleRegisters = 0x10
-    , modbusError = 0x8f
+    , modbusError = 0x80 // combined with the function that failed
 };
 
 inline std::uint8_t toUint8(ModbusFunction val)
diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 8020240..a02ef8a 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -279,7 +279,7 @@ bool ModbusCodec::encode(AduRespond const& adu)
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 1);
         buf.write(adu.addr);
-        buf.write(toUint8(adu.func));
+        buf.write(toUint8(adu.func) | toUint8(adu.failedFunc));
         buf.write(toUint8(adu.error));
     }
     break;
@@ -382,6 +382,11 @@ bool ModbusCodec::decode(AduRespond& adu)
     }
     adu.addr = buf.read();
     adu.func = fromUint8<ModbusFunction>(buf.read());
+    if (toUint8(adu.func) & toUint8(ModbusFunction::modbusError))
+    {
+        adu.failedFunc = fromUint8<ModbusFunction>(toUint8(adu.func) ^ toUint8(ModbusFunction::modbusError));
+        adu.func = ModbusFunction::modbusError;
+    }
 
     switch (adu.func)
     {
diff --git a/src/app/modbus/client/AduRespond.hpp b/src/app/modbus/client/AduRespond.hpp
index 8ca6563..be49bbc 100644
--- a/src/app/modbus/client/AduRespond.hpp
+++ b/src/app/modbus/client/AduRespond.hpp
@@ -15,6 +15,7 @@ struct AduRespond
 {
     TransactId      transactId;
     ModbusFunction  func;
+    ModbusFunction  failedFunc;
     uint16_t        addr;
     ModbusError     error;
     uint16_t        startItem;
diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 6a4c558..1419682 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -194,7 +194,7 @@ Status ModbusClient::processAdu()
         provideRspError(aduReq);
         return Status::done;
     }
-    if (ModbusFunction::modbusError == aduRsp.func)
+    if (ModbusFunction::modbusError == aduRsp.func && aduReq.func == aduRsp.failedFunc)
     {
         LM(MODBUS, LW, "Client-%u, modbus error code (%s)"
             , uid, toString(aduRsp.error));
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 5b22853..9986dd7 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -169,6 +169,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
+    aduRsp.failedFunc = storedAdu.func;
     aduRsp.addr = storedAdu.addr;
     aduRsp.error = rsp.error;
     aduRsp.startItem = storedAdu.startItem;
-- 
2.43.0


From 6782887788df674cfdd737d8cd7f9c949828ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 42/48] fix: an OPC UA connection closed from its connected
 report crashes

The report was made before the timer was started: a handler that closed the
connection released the timer, which was then started through a null pointer.
Report once the state is set up.
---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..bb2121b 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..fbf6b70 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From 8c13163752d77fcedca365d017d40ff7ea136c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 43/48] fix: an OPC UA connection whose connect throws stays
 stuck

A failing connect left the object in the connecting state without a running
timer: it never reported anything and could not be used again. A failing timer
allocation kept the link. Start the connection before the state is entered and
release what was taken when it fails.
---
 .../connection/ClientConnectionConnecting.cpp     |  1 -
 .../protocols/connection/ClientConnectionInit.cpp | 13 +++++++++++--
 .../connection/ServerConnectionConnecting.cpp     |  1 -
 .../protocols/connection/ServerConnectionInit.cpp | 15 ++++++++++++---
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..a6f9a10 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -8,7 +8,6 @@ namespace app::ua
 
 void ClientConnectionConnecting::onEnter(ClientConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ClientConnection::connectTimeout);
 }
 
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
index b02911e..79b8574 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
@@ -13,8 +13,17 @@ void ClientConnectionInit::onEnter(ClientConnection& fsm)
 void ClientConnectionInit::onConnect(ClientConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+        fsm.connectLink();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ClientConnectionConnecting>();
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..6117da5 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -8,7 +8,6 @@ namespace app::ua
 
 void ServerConnectionConnecting::onEnter(ServerConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ServerConnection::connectTimeout);
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..9b2094d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -14,15 +14,24 @@ void ServerConnectionInit::onEnter(ServerConnection& fsm)
 void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+        fsm.connectLink();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ServerConnectionConnecting>();
 }
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
     fsm.allocTimer();
+    fsm.setLink(link);
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 4193f8340a34bbb56a709ebfe2cd27ec0a335b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 44/48] fix: close of an OPC UA connection is ignored during
 the handshake

The connection went on and was reported as connected after it had been closed.
---
 .../ua/protocols/connection/ClientConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionConnecting.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp  | 2 ++
 .../ua/protocols/connection/ServerConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ServerConnectionConnecting.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp   | 6 ++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp   | 2 ++
 8 files changed, 32 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index a6f9a10..4fc6e8d 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -43,6 +43,12 @@ void ClientConnectionConnecting::onError(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnecting::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
index b2690a3..24731d6 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..db52321 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -33,6 +33,12 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..64092ed 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 6117da5..4af6a19 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -42,6 +42,12 @@ void ServerConnectionConnecting::onError(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnecting::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
index dcb1a11..527d58d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..c8afc11 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -52,6 +52,12 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..3bb05d5 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From 5aa2aab03523b47677176110cf7590943d8e4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 45/48] fix: an OPC UA connection ignores the failure of its
 link

Once the transport was connected an error of the link was only logged: the user
heard of a reset connection up to ten seconds later, as a close.
---
 .../ua/protocols/connection/ClientConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp | 7 +++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp  | 7 +++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp  | 2 ++
 8 files changed, 36 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index bb2121b..5251028 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..5a98495 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index db52321..d45d798 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -39,6 +39,13 @@ void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 64092ed..e1b9ab7 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index fbf6b70..49e37f0 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..16af096 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index c8afc11..25f945e 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -58,6 +58,13 @@ void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 3bb05d5..8313776 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From a729d46e1015f27960af89924cf13e125ab0f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 46/48] fix: an OPC UA connection cannot be used again from its
 error report

The end of a connection was reported before the object was back in its initial
state, so that a connect or accept made from the handler was ignored.
---
 .../ua/protocols/connection/ClientConnectionConnected.cpp | 6 +++---
 .../protocols/connection/ClientConnectionConnecting.cpp   | 6 +++---
 .../protocols/connection/ClientConnectionReceiveAck.cpp   | 6 +++---
 .../ua/protocols/connection/ServerConnectionConnected.cpp | 6 +++---
 .../protocols/connection/ServerConnectionConnecting.cpp   | 6 +++---
 .../protocols/connection/ServerConnectionReceiveHello.cpp | 8 ++++----
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 5251028..650e813 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -27,8 +27,8 @@ void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -43,15 +43,15 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
 void ClientConnectionConnected::onError(ClientConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyClosed();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyClosed();
 }
 
 void ClientConnectionConnected::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index 4fc6e8d..3fe59a7 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -29,8 +29,8 @@ void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -39,8 +39,8 @@ void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
 void ClientConnectionConnecting::onError(ClientConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnecting::onClose(ClientConnection& fsm)
@@ -53,8 +53,8 @@ void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnecting::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index d45d798..eeae12b 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -26,8 +26,8 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -42,15 +42,15 @@ void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
 void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionReceiveAck::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 49e37f0..b74d9cb 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -27,8 +27,8 @@ void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -43,15 +43,15 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
 void ServerConnectionConnected::onError(ServerConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyClosed();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyClosed();
 }
 
 void ServerConnectionConnected::onExit(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 4af6a19..01b659f 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -28,8 +28,8 @@ void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -38,8 +38,8 @@ void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
 void ServerConnectionConnecting::onError(ServerConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnecting::onClose(ServerConnection& fsm)
@@ -52,8 +52,8 @@ void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnecting::onExit(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index 25f945e..9a43adf 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -35,8 +35,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
         case OpcUaConnection::Result::error:
         {
             fsm.closeLink();
-            fsm.notifyError();
             fsm.transit<ServerConnectionInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -45,8 +45,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -61,16 +61,16 @@ void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
 void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionReceiveHello::onExit(ServerConnection& fsm)
-- 
2.43.0


From b9fd604d1de71f5b8487cae77ea1627826e07b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 47/48] fix: sending on an OPC UA connection that has ended
 crashes

---
 src/app/common/ua/protocols/connection/OpcUaConnection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index b98e635..d1b5383 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -54,6 +54,11 @@ void OpcUaConnection::closeLink()
 
 OpcUaConnection::Result OpcUaConnection::send(OpcUaSduBuffer const& tx)
 {
+    if (not link)
+    {
+        LM(UA, LW, "not connected");
+        return Result::error;
+    }
     int rc = link->send(tx.begin(), tx.size());
     if (rc <= 0)
     {
-- 
2.43.0


From 1ce0cca2d54b8ea5a738dfdfff06d7cce994a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:38 +0000
Subject: [PATCH 48/48] fix: a long log message overflows the buffer of the log
 macro

---
 src/app/common/logger/Logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/logger/Logger.hpp b/src/app/common/logger/Logger.hpp
index 6c7f6f7..cd9e4d5 100644
--- a/src/app/common/logger/Logger.hpp
+++ b/src/app/common/logger/Logger.hpp
@@ -35,7 +35,7 @@ enum class LogLevel
     if (app::LogLevel::LM_LEVEL >= app::Logger::getInst().getTaskLogLevel(app::LogTask::LM_TASK)) \
     {\
         char temporary___[1024];\
-        sprintf(temporary___, __VA_ARGS__);\
+        snprintf(temporary___, sizeof(temporary___), __VA_ARGS__);\
         app::Logger::getInst().dispatch(temporary___, app::LogLevel::LM_LEVEL, app::LogTask::LM_TASK, __FILE__, __LINE__);\
     }\
 }
-- 
2.43.0

