From b7c4ca5251e71d3aca7ccaa5065ccce27aa503d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 01/55] fix: moved-from buffer is empty and usable instead of
 pointing to no memory

---
 src/include/cppev/buffer.h | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index d2ff8a9..986feb9 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -49,9 +49,20 @@ public:
         return *this;
     }
 
-    buffer(buffer &&other) noexcept = default;
+    buffer(buffer &&other) noexcept
+    : cap_(0), start_(0), offset_(0)
+    {
+        move(other);
+    }
 
-    buffer &operator=(buffer &&other) = default;
+    buffer &operator=(buffer &&other) noexcept
+    {
+        if (&other != this)
+        {
+            move(other);
+        }
+        return *this;
+    }
 
     ~buffer() = default;
 
@@ -129,7 +140,10 @@ public:
     // Clear buffer
     void clear() noexcept
     {
-        memset(buffer_.get(), 0, cap_);
+        if (cap_)
+        {
+            memset(buffer_.get(), 0, cap_);
+        }
         start_ = 0;
         offset_ = 0;
     }
@@ -207,9 +221,24 @@ private:
             this->start_ = other.start_;
             this->offset_ = other.offset_;
             this->buffer_ = std::make_unique<char[]>(cap_);
-            memcpy(this->buffer_.get(), other.buffer_.get(), cap_);
+            if (cap_)
+            {
+                memcpy(this->buffer_.get(), other.buffer_.get(), cap_);
+            }
         }
     }
+
+    // Move function for move contructor and move assignment, moved-from buffer is empty
+    void move(buffer &other) noexcept
+    {
+        this->cap_ = other.cap_;
+        this->start_ = other.start_;
+        this->offset_ = other.offset_;
+        this->buffer_ = std::move(other.buffer_);
+        other.cap_ = 0;
+        other.start_ = 0;
+        other.offset_ = 0;
+    }
 };
 
 }   // namespace cppev
-- 
2.43.0


From 16d9304fbabf6eff95ab15692a2c79ef43c085be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 02/55] fix: buffer refuses a bad capacity with a logic error
 instead of terminating

---
 src/include/cppev/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index 986feb9..3657588 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -24,7 +24,7 @@ public:
     {
     }
 
-    explicit buffer(int cap) noexcept
+    explicit buffer(int cap)
     : cap_(cap), start_(0), offset_(0)
     {
         if (cap_ < 1)
-- 
2.43.0


From 3f5c560078a2004de899e7d94a65fb1f2c93ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 03/55] fix: task queue worker does not destroy the previous
 task while holding the queue lock

---
 src/include/cppev/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 8581af9..6a036ef 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -147,9 +147,9 @@ public:
 
     void run_impl() override
     {
-        thread_pool_task_handler handler;
         while(true)
         {
+            thread_pool_task_handler handler;
             {
                 std::unique_lock<std::mutex> lock(task_queue_->lock_);
                 if (task_queue_->queue_.empty())
-- 
2.43.0


From 6e5e4755c1569d534e389218f30519e7fb5c170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 04/55] fix: right strip handles a run of strip strings that
 reaches the start of the text

---
 src/lib/utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a4c507c..d68c29f 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -446,9 +446,9 @@ static std::string do_strip(const std::string &str, const std::string &chars, co
         {
             bool eq = true;
             size_t j = chars.size() - 1;
-            for (size_t i = r - 1; i > r - chars.size() - 1; --i)
+            for (size_t i = r; i > r - chars.size(); --i)
             {
-                if (str[i] != chars[j--])
+                if (str[i - 1] != chars[j--])
                 {
                     eq = false;
                     break;
-- 
2.43.0


From 4e1a779ff1b66fdf97ef2b2c75d3aa4788d21af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 05/55] fix: joining no strings gives the empty string instead
 of terminating

---
 src/lib/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index d68c29f..31f04dc 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -384,6 +384,10 @@ std::vector<std::string> split(const std::string &str, const std::string &sep)
 std::string join(const std::vector<std::string> &str_arr, const std::string &sep) noexcept
 {
     std::string ret = "";
+    if (str_arr.empty())
+    {
+        return ret;
+    }
     size_t size = 0;
     for (size_t i = 0; i < str_arr.size(); ++i)
     {
-- 
2.43.0


From e9f1b6c6e9bf76bde9ea4596d2473eaba2d853ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 06/55] fix: sleep_until compiles and does not round the time
 point down

---
 src/include/cppev/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index ca3f9ab..15072bb 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -62,7 +62,8 @@ std::string timestamp(time_t t = -1, const char *format = nullptr);
 template <typename Clock = std::chrono::system_clock>
 void sleep_until(const std::chrono::nanoseconds &stamp)
 {
-    std::this_thread::sleep_until(std::chrono::duration_cast<Clock::duration>(stamp));
+    std::this_thread::sleep_until(typename Clock::time_point(
+        std::chrono::ceil<typename Clock::duration>(stamp)));
 }
 
 template <typename Clock = std::chrono::system_clock>
-- 
2.43.0


From 72768b863d0e27a424d614f4c6e7afa6091ffce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 07/55] fix: ceil_time_point rounds up time points before the
 epoch, too

---
 src/include/cppev/utils.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index 15072bb..700da1b 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -69,10 +69,8 @@ void sleep_until(const std::chrono::nanoseconds &stamp)
 template <typename Clock = std::chrono::system_clock>
 typename Clock::time_point ceil_time_point(const typename Clock::time_point &point)
 {
-    auto stamp = std::chrono::nanoseconds(point.time_since_epoch()).count();
-    int64_t ceil_stamp_nsec = (stamp / 1'000'000'000 + 1) * 1'000'000'000;
     auto ceil_stamp = std::chrono::duration_cast<typename Clock::duration>(
-        std::chrono::nanoseconds(ceil_stamp_nsec));
+        std::chrono::floor<std::chrono::seconds>(point.time_since_epoch()) + std::chrono::seconds(1));
     return typename Clock::time_point(ceil_stamp);
 }
 
-- 
2.43.0


From 6a18206a17c26663ae0f4b237af23aa4644f43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 08/55] fix: moving an io object moves its write buffer

---
 src/include/cppev/nio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index c1f4c88..24f1ea3 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -160,7 +160,7 @@ protected:
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-        this->wbuffer_ = std::move(other.rbuffer_);
+        this->wbuffer_ = std::move(other.wbuffer_);
         this->evlp_ = other.evlp_;
 
         other.fd_ = -1;
-- 
2.43.0


From 979865ed98621cd072716e440f7b69f4b83ddafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 09/55] fix: move assignment of an io object closes the
 descriptor it replaces

---
 src/include/cppev/nio.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index 24f1ea3..abd1897 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -49,7 +49,7 @@ class nio
 {
 public:
     explicit nio(int fd)
-    : fd_(fd), closed_(false)
+    : fd_(fd), closed_(false), evlp_(nullptr)
     {
         set_io_nonblock();
     }
@@ -58,6 +58,7 @@ public:
     nio &operator=(const nio &) = delete;
 
     nio(nio &&other) noexcept
+    : fd_(-1), closed_(true), evlp_(nullptr)
     {
         if (&other == this)
         {
@@ -157,6 +158,10 @@ protected:
 
     void move(nio &&other) noexcept
     {
+        if (!closed_)
+        {
+            close();
+        }
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-- 
2.43.0


From 884028129b7bae470c37947752ce26de6b1c97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 10/55] fix: closing an io object twice does not close the
 descriptor twice

---
 src/lib/nio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bbecc9f..0465868 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -21,7 +21,7 @@ namespace cppev
 
 void nio::close() noexcept
 {
-    if (fd_ != -1)
+    if (fd_ != -1 && !closed_)
     {
         ::close(fd_);
     }
-- 
2.43.0


From 578157dfa5744d1c7a67e6e780ac985c1425b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 11/55] fix: failing factories of io objects leak no descriptor

---
 src/lib/nio.cc | 54 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 0465868..f243f93 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -694,6 +694,38 @@ void nsockudp::send_unix(const char *path)
 namespace nio_factory
 {
 
+// Create the object owning fd, or close fd
+template <typename T, typename... Args>
+static std::shared_ptr<T> make_owner(int fd, Args... args)
+{
+    try
+    {
+        return std::make_shared<T>(fd, args...);
+    }
+    catch (...)
+    {
+        ::close(fd);
+        throw;
+    }
+}
+
+// Create the streams owning fdr and fdw, or close both
+static std::vector<std::shared_ptr<nstream>> make_streams(int fdr, int fdw)
+{
+    std::vector<std::shared_ptr<nstream>> streams;
+    try
+    {
+        streams.push_back(make_owner<nstream>(fdr));
+    }
+    catch (...)
+    {
+        ::close(fdw);
+        throw;
+    }
+    streams.push_back(make_owner<nstream>(fdw));
+    return streams;
+}
+
 std::shared_ptr<nsocktcp> get_nsocktcp(family f)
 {
     int fd = ::socket(nsock::fmap_.at(f), SOCK_STREAM, 0);
@@ -701,7 +733,7 @@ std::shared_ptr<nsocktcp> get_nsocktcp(family f)
     {
         throw_system_error("socket error");
     }
-    return std::make_shared<nsocktcp>(fd, f);
+    return make_owner<nsocktcp>(fd, f);
 }
 
 std::shared_ptr<nsockudp> get_nsockudp(family f)
@@ -711,7 +743,7 @@ std::shared_ptr<nsockudp> get_nsockudp(family f)
     {
         throw_system_error("socket error");
     }
-    std::shared_ptr<nsockudp> sock(new nsockudp(fd, f));
+    std::shared_ptr<nsockudp> sock = make_owner<nsockudp>(fd, f);
     sock->rbuffer().resize(sysconfig::udp_buffer_size);
     sock->wbuffer().resize(sysconfig::udp_buffer_size);
     return sock;
@@ -726,12 +758,7 @@ std::vector<std::shared_ptr<nstream>> get_pipes()
     {
         throw_system_error("pipe error");
     }
-    std::vector<std::shared_ptr<nstream>> pipes =
-    {
-        std::make_shared<nstream>(pfds[0]),
-        std::make_shared<nstream>(pfds[1]),
-    };
-    return pipes;
+    return make_streams(pfds[0], pfds[1]);
 }
 
 std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
@@ -749,14 +776,11 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     int fdw = open(path.c_str(), O_WRONLY | O_NONBLOCK);
     if (fdw == -1)
     {
-        throw_system_error("open error");
+        int err = errno;
+        ::close(fdr);
+        throw_system_error("open error", err);
     }
-    std::vector<std::shared_ptr<nstream>> fifos =
-    {
-        std::make_shared<nstream>(fdr),
-        std::make_shared<nstream>(fdw),
-    };
-    return fifos;
+    return make_streams(fdr, fdw);
 }
 
 }   // namespace nio_factory
-- 
2.43.0


From ec7c9893814359f27e0bc9b54d6a9c146daaed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 12/55] fix: shutting down one direction of a socket leaves the
 other one open

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index f243f93..7d3071a 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -498,14 +498,17 @@ void nsocktcp::shutdown(shut_mode howto) noexcept
     case shut_mode::shut_rd :
     {
         ::shutdown(fd_, SHUT_RD);
+        break;
     }
     case shut_mode::shut_wr :
     {
         ::shutdown(fd_, SHUT_WR);
+        break;
     }
     case shut_mode::shut_rdwr :
     {
         ::shutdown(fd_, SHUT_RDWR);
+        break;
     }
     default: ;
     }
-- 
2.43.0


From 4e7aa4bf778fae76c1ae97b5dff804f4eb847351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 13/55] fix: a too long socket path or a port out of range is
 refused instead of truncated

---
 src/lib/nio.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 7d3071a..15868cf 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -182,6 +182,10 @@ const std::unordered_map<family, int, enum_hash> nsock::faddr_len_ =
 
 static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 {
+    if (port < 0 || port > UINT16_MAX)
+    {
+        throw_logic_error("port out of range");
+    }
     switch (addr.ss_family)
     {
     case AF_INET :
@@ -238,6 +242,10 @@ static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 static void set_path(sockaddr_storage &addr, const char *path)
 {
     sockaddr_un *ap = (sockaddr_un *)(&addr);
+    if (strlen(path) >= sizeof(ap->sun_path))
+    {
+        throw_logic_error("unix socket path too long");
+    }
     strncpy(ap->sun_path, path, sizeof(ap->sun_path) - 1);
 }
 
-- 
2.43.0


From 4a8e31cbc2847525df3847e5836276a71e0586bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 14/55] fix: failing or empty datagrams are told apart and
 unread datagrams do not shorten the next one

---
 src/lib/nio.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 15868cf..6c617a7 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -660,9 +660,10 @@ std::tuple<std::string, int, family> nsockudp::recv()
 {
     sockaddr_storage addr;
     socklen_t len = faddr_len_.at(family_);
+    rbuffer().resize(rbuffer().offset_ + sysconfig::udp_buffer_size);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("recvfrom error");
     }
@@ -677,11 +678,12 @@ std::tuple<std::string, int, family> nsockudp::recv()
 void nsockudp::send(const char *ip, int port)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, faddr_len_.at(family_));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
@@ -691,11 +693,12 @@ void nsockudp::send(const char *ip, int port)
 void nsockudp::send_unix(const char *path)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, SUN_LEN((sockaddr_un *)&addr));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
-- 
2.43.0


From 5ce19d678df8482272503e919fbd703740824eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 15/55] fix: accept goes on after an interruption or an aborted
 connection and loses no accepted one

---
 src/lib/nio.cc | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 6c617a7..bac382d 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -627,16 +627,41 @@ bool nsocktcp::connect_unix(const char *path)
     return true;
 }
 
+// Create the object owning fd, or close fd
+template <typename T, typename... Args>
+static std::shared_ptr<T> make_owner(int fd, Args... args)
+{
+    try
+    {
+        return std::make_shared<T>(fd, args...);
+    }
+    catch (...)
+    {
+        ::close(fd);
+        throw;
+    }
+}
+
 std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
 {
     std::vector<std::shared_ptr<nsocktcp>> sockfds;
-    for(int i = 0; i < batch; ++i)
+    while (static_cast<int>(sockfds.size()) < batch)
     {
         int sockfd = ::accept(fd_, nullptr, nullptr);
         if (sockfd == -1)
         {
-            if(errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                break;
+            }
+            else if (errno == EINTR || errno == ECONNABORTED || errno == EPROTO)
             {
+                // this attempt or this connection failed, go on with the next one
+                continue;
+            }
+            else if (!sockfds.empty())
+            {
+                // keep what is accepted, the next call will report the error
                 break;
             }
             else
@@ -646,7 +671,7 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
         }
         else
         {
-            sockfds.emplace_back(new nsocktcp(sockfd, family_));
+            sockfds.push_back(make_owner<nsocktcp>(sockfd, family_));
             if (family_ == family::local)
             {
                 sockfds.back()->peer_ = peer_;
@@ -708,21 +733,6 @@ void nsockudp::send_unix(const char *path)
 namespace nio_factory
 {
 
-// Create the object owning fd, or close fd
-template <typename T, typename... Args>
-static std::shared_ptr<T> make_owner(int fd, Args... args)
-{
-    try
-    {
-        return std::make_shared<T>(fd, args...);
-    }
-    catch (...)
-    {
-        ::close(fd);
-        throw;
-    }
-}
-
 // Create the streams owning fdr and fdw, or close both
 static std::vector<std::shared_ptr<nstream>> make_streams(int fdr, int fdw)
 {
-- 
2.43.0


From f6a74df9b0e47c5fe0138c546dcff44c07fa32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 16/55] fix: a hang-up or an error is reported to the handler
 of the activated direction

---
 src/lib/event_loop_epoll.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 5c57d32..6b68441 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -29,8 +29,13 @@ static uint32_t fd_map_to_sys(fd_event ev)
     return flags;
 }
 
-static fd_event fd_map_to_event(uint32_t ev)
+static fd_event fd_map_to_event(uint32_t ev, uint32_t activated)
 {
+    // a hang-up or an error makes every activated direction ready
+    if (ev & (EPOLLHUP | EPOLLERR))
+    {
+        ev |= activated;
+    }
     fd_event flags = static_cast<fd_event>(0);
     if (ev & EPOLLIN)
     {
@@ -96,8 +101,8 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
     if (activate)
     {
         struct epoll_event ev;
-        ev.data.fd = iop->fd();
         ev.events = fd_map_to_sys(ev_type);
+        ev.data.u64 = (static_cast<uint64_t>(ev.events) << 32) | static_cast<uint32_t>(iop->fd());
         if (epoll_ctl(ev_fd_, EPOLL_CTL_ADD, iop->fd(), &ev) < 0)
         {
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
@@ -154,12 +159,13 @@ void event_loop::loop_once(int timeout)
     for (int i = 0; i < nums; ++i)
     {
         std::unique_lock<std::mutex> lock(lock_);
-        int fd = evs[i].data.fd;
+        int fd = static_cast<int>(static_cast<uint32_t>(evs[i].data.u64));
+        fd_event ready = fd_map_to_event(evs[i].events, static_cast<uint32_t>(evs[i].data.u64 >> 32));
         auto range = fds_.equal_range(fd);
         auto begin = range.first, end = range.second;
         while (begin != end)
         {
-            if (static_cast<bool>(std::get<3>(begin->second) & fd_map_to_event(evs[i].events)))
+            if (static_cast<bool>(std::get<3>(begin->second) & ready))
             {
 #ifdef CPPEV_DEBUG
                 log::info << "Enqueue ";
-- 
2.43.0


From 63839d3629af8acef73d632a74e96b716c95ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 17/55] fix: a handler cleaned out by an earlier handler of the
 same iteration is not called

---
 src/lib/event_loop_epoll.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 6b68441..68ceb77 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -193,6 +193,20 @@ void event_loop::loop_once(int timeout)
     {
         auto ev = fd_cbs_.top();
         fd_cbs_.pop();
+        // skip handlers cleaned out by an earlier handler of this iteration
+        {
+            std::unique_lock<std::mutex> lock(lock_);
+            auto range = fds_.equal_range(std::get<1>(ev)->fd());
+            bool live = false;
+            for (auto iter = range.first; iter != range.second; ++iter)
+            {
+                live = live || (std::get<2>(iter->second) == std::get<2>(ev));
+            }
+            if (!live)
+            {
+                continue;
+            }
+        }
         (*std::get<2>(ev))(std::get<1>(ev));
     }
 
-- 
2.43.0


From b80935e863cad4e1f9b0a05b8bb04d287e0b2af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 18/55] fix: handlers left over by a throwing handler are not
 called twice in the next iteration

---
 src/lib/event_loop_epoll.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 68ceb77..d472a33 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -150,6 +150,8 @@ void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool dea
 void event_loop::loop_once(int timeout)
 {
     // 1. Add to priority queue
+    // what an iteration ended by an exception left over is still ready
+    fd_cbs_ = decltype(fd_cbs_)();
     epoll_event evs[sysconfig::event_number];
     int nums = epoll_wait(ev_fd_, evs, sysconfig::event_number, timeout);
     if (nums < 0 && errno != EINTR)
-- 
2.43.0


From b4ac373e13b963d9a4e02b0cf75282cde92b1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 19/55] fix: stopping the loop and asking for its loads are no
 data races

---
 src/include/cppev/event_loop.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 0edb3ef..37bbefb 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -1,6 +1,7 @@
 #ifndef _event_loop_h_6C0224787A17_
 #define _event_loop_h_6C0224787A17_
 
+#include <atomic>
 #include <unordered_map>
 #include <memory>
 #include <unistd.h>
@@ -68,6 +69,7 @@ public:
 
     int ev_loads() const noexcept
     {
+        std::unique_lock<std::mutex> lock(lock_);
         return fds_.size();
     }
 
@@ -115,7 +117,7 @@ public:
 
 private:
     // Used for registering callback for event loop
-    std::mutex lock_;
+    mutable std::mutex lock_;
 
     // Event watcher fd
     int ev_fd_;
@@ -136,7 +138,7 @@ private:
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
-    bool stop_;
+    std::atomic<bool> stop_;
 };
 
 }   // namespace cppev
-- 
2.43.0


From 1cbaf6cddfbb23b15311a5f166148a685b6c4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 20/55] fix: a refused registration leaves no handler behind

---
 src/lib/event_loop_epoll.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index d472a33..3c2184a 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -93,10 +93,12 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
     log::info << log::endl;
 #endif  // CPPEV_DEBUG
     iop->set_evlp(*this);
+    std::shared_ptr<fd_event_handler> stored;
     if (handler)
     {
+        stored = std::make_shared<fd_event_handler>(handler);
         std::unique_lock<std::mutex> lock(lock_);
-        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
+        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, stored, ev_type));
     }
     if (activate)
     {
@@ -105,7 +107,19 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
         ev.data.u64 = (static_cast<uint64_t>(ev.events) << 32) | static_cast<uint32_t>(iop->fd());
         if (epoll_ctl(ev_fd_, EPOLL_CTL_ADD, iop->fd(), &ev) < 0)
         {
-            throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
+            int err = errno;
+            // a refused registration leaves no handler behind
+            std::unique_lock<std::mutex> lock(lock_);
+            auto range = fds_.equal_range(iop->fd());
+            for (auto iter = range.first; iter != range.second; ++iter)
+            {
+                if (stored && std::get<2>(iter->second) == stored)
+                {
+                    fds_.erase(iter);
+                    break;
+                }
+            }
+            throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())), err);
         }
     }
 }
-- 
2.43.0


From 5fc4bc22396f2352c052c78498525f0c4e0873ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 21/55] fix: a process of another user counts as existing

---
 src/lib/utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 31f04dc..4e4b19d 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -157,6 +157,11 @@ bool check_process(pid_t pid)
         {
             return false;
         }
+        // it exists, though this process may not send it signals
+        if (errno == EPERM)
+        {
+            return true;
+        }
         throw_system_error("kill error");
     }
     return true;
-- 
2.43.0


From 9018b5f78c3d64cb13d5545b4daf149e69fe891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 22/55] fix: a failing sigwait is reported with its error
 number

---
 src/lib/utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 4e4b19d..66d9b71 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -190,9 +190,10 @@ void thread_wait_for_signal(int sig)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
 }
 
@@ -207,9 +208,10 @@ int thread_wait_for_signal(const std::vector<int> &sigs)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
     return ret_sig;
 }
-- 
2.43.0


From c70779bcf8bfbb4b8e11d93dfe41e7cd1f0cdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 23/55] fix: looking up a symbol whose value is null raises an
 error instead of crashing

---
 src/include/cppev/dynamic_loader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/dynamic_loader.h b/src/include/cppev/dynamic_loader.h
index 7732e7e..685c5a7 100644
--- a/src/include/cppev/dynamic_loader.h
+++ b/src/include/cppev/dynamic_loader.h
@@ -38,7 +38,9 @@ public:
         if (ptr == nullptr)
         {
             // errno is set in macOS, but not in linux
-            throw_runtime_error(std::string("dlsym error : ").append(dlerror()));
+            // there is no error for a symbol whose value is null
+            const char *err = dlerror();
+            throw_runtime_error(std::string("dlsym error : ").append(err ? err : "symbol is null"));
         }
         return reinterpret_cast<Function *>(ptr);
     }
-- 
2.43.0


From d514596a6c62dec09d580d3aa802d9cdc47b0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 24/55] fix: a surplus arrival at a barrier does not keep the
 others waiting for ever

---
 src/lib/lock.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index b87c2d9..999c248 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -254,18 +254,19 @@ pshared_barrier::pshared_barrier(int count)
 void pshared_barrier::wait()
 {
     std::unique_lock<pshared_lock> lock(lock_);
+    // a surplus arrival leaves the count alone, the others may still have to see it
+    if (count_ <= 0)
+    {
+        throw_logic_error("too many threads waited in the barrier");
+    }
     --count_;
     if (count_ == 0)
     {
         cond_.notify_all();
     }
-    else if (count_ > 0)
-    {
-        cond_.wait(lock, [this]() { return count_ == 0; });
-    }
     else
     {
-        throw_logic_error("too many threads waited in the barrier");
+        cond_.wait(lock, [this]() { return count_ == 0; });
     }
 }
 
-- 
2.43.0


From 406f02f20c292c3d5ab74d9c02e888f0ab7d1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 25/55] fix: notifying a one time fence releases all waiters

---
 src/lib/lock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 999c248..21469f8 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -236,7 +236,7 @@ void pshared_one_time_fence::notify()
     {
         std::unique_lock<pshared_lock> lock(lock_);
         ok_ = true;
-        cond_.notify_one();
+        cond_.notify_all();
     }
 }
 
-- 
2.43.0


From 7aa64ee8eec3af950f174d1cbd70cabfb3b9f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 26/55] fix: the state of a one time fence is no data race

---
 src/include/cppev/lock.h | 3 ++-
 src/lib/lock.cc          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d62bf86..5bce0d3 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -111,7 +111,8 @@ public:
     bool ok() const noexcept;
 
 private:
-    bool ok_;
+    // Read without the lock
+    std::atomic<bool> ok_;
 
     pshared_lock lock_;
 
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 21469f8..551fad7 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -225,7 +225,7 @@ void pshared_one_time_fence::wait()
         std::unique_lock<pshared_lock> lock(lock_);
         if (!ok_)
         {
-            cond_.wait(lock, [this](){ return ok_; });
+            cond_.wait(lock, [this](){ return ok_.load(); });
         }
     }
 }
-- 
2.43.0


From 9a5f37f703f4f7eac0cfdb9c42b9df55fb9efa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 27/55] fix: read/write lock guards release each lock exactly
 once

---
 src/include/cppev/lock.h | 10 ++++++
 src/lib/lock.cc          | 66 ++++++++++++++++++++++++++++++++++------
 2 files changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index 5bce0d3..5fc8588 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -184,7 +184,12 @@ public:
     void unlock();
 
 private:
+    void release() noexcept;
+
     pshared_rwlock *rwlock_;
+
+    // Whether the guard holds the lock
+    bool owned_;
 };
 
 class wrlockguard final
@@ -204,7 +209,12 @@ public:
     void unlock();
 
 private:
+    void release() noexcept;
+
     pshared_rwlock *rwlock_;
+
+    // Whether the guard holds the lock
+    bool owned_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 551fad7..067fb02 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -361,32 +361,45 @@ bool pshared_rwlock::try_wrlock()
 
 
 rdlockguard::rdlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
-    rwlock_->rdlock();
+    this->lock();
 }
 
 rdlockguard::rdlockguard(rdlockguard &&other) noexcept
+: rwlock_(other.rwlock_), owned_(other.owned_)
 {
-    this->rwlock_ = other.rwlock_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 {
+    if (&other == this)
+    {
+        return *this;
+    }
+    release();
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 
     return *this;
 }
 
 rdlockguard::~rdlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
+    release();
+}
+
+void rdlockguard::release() noexcept
+{
+    if (owned_)
     {
         try
         {
-            rwlock_->unlock();
+            unlock();
         }
         catch(...)
         {
@@ -396,42 +409,65 @@ rdlockguard::~rdlockguard() noexcept
 
 void rdlockguard::lock()
 {
+    if (rwlock_ == nullptr || owned_)
+    {
+        throw_logic_error("guard has no lock or holds it already");
+    }
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 void rdlockguard::unlock()
 {
+    if (!owned_)
+    {
+        throw_logic_error("guard holds no lock");
+    }
+    owned_ = false;
     rwlock_->unlock();
 }
 
 
 wrlockguard::wrlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
-    rwlock_->wrlock();
+    this->lock();
 }
 
 wrlockguard::wrlockguard(wrlockguard &&other) noexcept
+: rwlock_(other.rwlock_), owned_(other.owned_)
 {
-    this->rwlock_ = other.rwlock_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 {
+    if (&other == this)
+    {
+        return *this;
+    }
+    release();
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 
     return *this;
 }
 
 wrlockguard::~wrlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
+    release();
+}
+
+void wrlockguard::release() noexcept
+{
+    if (owned_)
     {
         try
         {
-            rwlock_->unlock();
+            unlock();
         }
         catch(...)
         {
@@ -441,11 +477,21 @@ wrlockguard::~wrlockguard() noexcept
 
 void wrlockguard::lock()
 {
+    if (rwlock_ == nullptr || owned_)
+    {
+        throw_logic_error("guard has no lock or holds it already");
+    }
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 void wrlockguard::unlock()
 {
+    if (!owned_)
+    {
+        throw_logic_error("guard holds no lock");
+    }
+    owned_ = false;
     rwlock_->unlock();
 }
 
-- 
2.43.0


From ce3b1a2d50ca418f433a463fbd3a9c608e51d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 28/55] fix: all threads of a pool are constructed from equal
 arguments

---
 src/include/cppev/thread_pool.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 6a036ef..f6cdfe6 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -25,7 +25,7 @@ public:
     {
         for (int i = 0; i < thr_num; ++i)
         {
-            thrs_.push_back(std::make_unique<Runnable>(std::forward<Args>(args)...));
+            thrs_.push_back(std::make_unique<Runnable>(argument<Args>(args)...));
         }
     }
 
@@ -84,6 +84,22 @@ public:
 
 protected:
     std::vector<std::unique_ptr<Runnable>> thrs_;
+
+private:
+    // All threads get equal arguments, one given by value must not be moved into the first thread
+    template <typename T>
+    static decltype(auto) argument(std::remove_reference_t<T> &arg)
+    {
+        if constexpr (!std::is_lvalue_reference<T>::value &&
+            std::is_copy_constructible<std::remove_reference_t<T> >::value)
+        {
+            return std::remove_reference_t<T>(arg);
+        }
+        else
+        {
+            return std::forward<T>(arg);
+        }
+    }
 };
 
 namespace task_queue
-- 
2.43.0


From 6bb01c6c29d2f830727eaa87347946267d94dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 29/55] fix: opening shared memory neither wipes stored data
 nor maps memory without its size

---
 src/lib/ipc.cc | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9224798..c7e0c9c 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -1,12 +1,44 @@
 #include "cppev/ipc.h"
-#include <cstring>
+#include <cerrno>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
+#include <sys/stat.h>
 
 namespace cppev
 {
 
+// Grow but never shrink the memory to at least the size, contents are kept.
+static void ensure_size(int fd, int size)
+{
+#ifdef __linux__
+    int ret = 0;
+    do
+    {
+        ret = posix_fallocate(fd, 0, size);
+    } while (ret == EINTR);
+    if (ret != 0)
+    {
+        throw_system_error("posix_fallocate error", ret);
+    }
+#else
+    struct stat st;
+    if (fstat(fd, &st) == -1)
+    {
+        throw_system_error("fstat error");
+    }
+    if (st.st_size < size && ftruncate(fd, size) == -1)
+    {
+        // Another process may have set the size in the meantime.
+        int err = errno;
+        if (fstat(fd, &st) == -1 || st.st_size < size)
+        {
+            throw_system_error("ftruncate error", err);
+        }
+    }
+#endif  // __linux__
+}
+
 shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 : name_(name), size_(size), ptr_(nullptr), creator_(false)
 {
@@ -43,24 +75,14 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         }
     }
 
-    if (creator_)
-    {
-        int ret = ftruncate(fd, size_);
-        if (ret == -1)
-        {
-            throw_system_error("ftruncate error");
-        }
-    }
+    // Whoever comes first gives the memory its size, new memory reads as zero.
+    ensure_size(fd, size_);
     ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     if (ptr_ == MAP_FAILED)
     {
         throw_system_error("mmap error");
     }
     close(fd);
-    if (creator_)
-    {
-        memset(ptr_, 0, size_);
-    }
 }
 
 shared_memory::~shared_memory() noexcept
-- 
2.43.0


From 1907d7af8932ca4a7db7d6e080db0f732bceb5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 30/55] fix: opening shared memory succeeds while its name is
 created and removed by others

---
 src/lib/ipc.cc | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index c7e0c9c..c462bd7 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -43,33 +43,23 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 : name_(name), size_(size), ptr_(nullptr), creator_(false)
 {
     int fd = -1;
-    fd = shm_open(name_.c_str(), O_RDWR, mode);
-    if (fd < 0)
+    // Creation and removal of the name by others may alternate with the attempts.
+    while (fd < 0)
     {
-        if (errno == ENOENT)
+        fd = shm_open(name_.c_str(), O_RDWR, mode);
+        if (fd < 0 && errno == ENOENT)
         {
             fd = shm_open(name_.c_str(), O_RDWR | O_CREAT | O_EXCL, mode);
-            if (fd < 0)
+            if (fd >= 0)
             {
-                if (errno == EEXIST)
-                {
-                    fd = shm_open(name_.c_str(), O_RDWR, mode);
-                    if (fd < 0)
-                    {
-                        throw_system_error("shm_open error");
-                    }
-                }
-                else
-                {
-                    throw_system_error("shm_open error");
-                }
+                creator_ = true;
             }
-            else
+            else if (errno == EEXIST)
             {
-                creator_ = true;
+                continue;
             }
         }
-        else
+        if (fd < 0)
         {
             throw_system_error("shm_open error");
         }
-- 
2.43.0


From 5dd3ebcca3c957eae90843e376bada94d3da8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 31/55] fix: a failing opening of shared memory closes its
 descriptor

---
 src/lib/ipc.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index c462bd7..ec0ea07 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -66,11 +66,19 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
     }
 
     // Whoever comes first gives the memory its size, new memory reads as zero.
-    ensure_size(fd, size_);
-    ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-    if (ptr_ == MAP_FAILED)
+    try
     {
-        throw_system_error("mmap error");
+        ensure_size(fd, size_);
+        ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+        if (ptr_ == MAP_FAILED)
+        {
+            throw_system_error("mmap error");
+        }
+    }
+    catch (...)
+    {
+        close(fd);
+        throw;
     }
     close(fd);
 }
-- 
2.43.0


From 54d549f5b8fb3f3000ee2af46f051998d6253fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 32/55] fix: move assignment of shared memory unmaps the memory
 it replaces

---
 src/include/cppev/ipc.h | 3 +++
 src/lib/ipc.cc          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 459b076..3e7df9e 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -31,6 +31,7 @@ public:
         {
             return *this;
         }
+        unmap();
         move(std::forward<shared_memory>(other));
         return *this;
     }
@@ -66,6 +67,8 @@ public:
     }
 
 private:
+    void unmap() noexcept;
+
     void move(shared_memory &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index ec0ea07..a926864 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -84,6 +84,11 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 }
 
 shared_memory::~shared_memory() noexcept
+{
+    unmap();
+}
+
+void shared_memory::unmap() noexcept
 {
     if (ptr_ != nullptr && size_ != 0)
     {
-- 
2.43.0


From c9ffc4dc8d3b8f4611e04273fe89b61ff64e45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 33/55] fix: opening a semaphore succeeds while its name is
 created and removed by others

---
 src/lib/ipc.cc | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index a926864..a17b52c 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -109,36 +109,27 @@ void shared_memory::unlink()
 semaphore::semaphore(const std::string &name, mode_t mode)
 : name_(name), sem_(nullptr), creator_(false)
 {
-    sem_ = sem_open(name_.c_str(), 0);
-    if (sem_ == SEM_FAILED)
+    // Creation and removal of the name by others may alternate with the attempts.
+    while (true)
     {
-        if (errno == ENOENT)
+        sem_ = sem_open(name_.c_str(), 0);
+        if (sem_ == SEM_FAILED && errno == ENOENT)
         {
             sem_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, mode, 0);
-            if (sem_ == SEM_FAILED)
+            if (sem_ != SEM_FAILED)
             {
-                if (errno == EEXIST)
-                {
-                    sem_ = sem_open(name_.c_str(), 0);
-                    if (sem_ == SEM_FAILED)
-                    {
-                        throw_system_error("sem_open error");
-                    }
-                }
-                else
-                {
-                    throw_system_error("sem_open error");
-                }
+                creator_ = true;
             }
-            else
+            else if (errno == EEXIST)
             {
-                creator_ = true;
+                continue;
             }
         }
-        else
-        {
-            throw_system_error("sem_open error");
-        }
+        break;
+    }
+    if (sem_ == SEM_FAILED)
+    {
+        throw_system_error("sem_open error");
     }
 }
 
-- 
2.43.0


From 0603ac32a2cc9b18983294c09297cbc8dc7b9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 34/55] fix: acquiring a semaphore goes on after an
 interruption

---
 src/lib/ipc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index a17b52c..6a83500 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -161,9 +161,12 @@ void semaphore::acquire(int count)
 {
     for (int i = 0; i < count; ++i)
     {
-        if (sem_wait(sem_) == -1)
+        while (sem_wait(sem_) == -1)
         {
-            throw_system_error("sem_wait error");
+            if (errno != EINTR)
+            {
+                throw_system_error("sem_wait error");
+            }
         }
     }
 }
-- 
2.43.0


From 32c50819bc19748f0b44c5ecc4087acd787a2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 35/55] fix: an interrupted attempt to acquire a semaphore is
 repeated

---
 src/lib/ipc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 6a83500..c61365d 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -143,13 +143,13 @@ semaphore::~semaphore() noexcept
 
 bool semaphore::try_acquire()
 {
-    if(sem_trywait(sem_) == -1)
+    while (sem_trywait(sem_) == -1)
     {
-        if (errno == EINTR || errno == EAGAIN)
+        if (errno == EAGAIN)
         {
             return false;
         }
-        else
+        else if (errno != EINTR)
         {
             throw_system_error("sem_trywait error");
         }
-- 
2.43.0


From 06381dc0533f50af2f4c7695d0c6945c9bd98ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 36/55] fix: move assignment of a semaphore closes the handle
 it replaces

---
 src/include/cppev/ipc.h | 3 +++
 src/lib/ipc.cc          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 3e7df9e..dffd4e2 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -114,6 +114,7 @@ public:
         {
             return *this;
         }
+        close();
         move(std::forward<semaphore>(other));
         return *this;
     }
@@ -134,6 +135,8 @@ public:
     }
 
 private:
+    void close() noexcept;
+
     void move(semaphore &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index c61365d..b6b518b 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -134,6 +134,11 @@ semaphore::semaphore(const std::string &name, mode_t mode)
 }
 
 semaphore::~semaphore() noexcept
+{
+    close();
+}
+
+void semaphore::close() noexcept
 {
     if (sem_ != SEM_FAILED)
     {
-- 
2.43.0


From 56a0aa114f14ac894fb70fb38da2b5cc24cbd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 37/55] fix: destroying a logger always terminates and writes
 all completed lines

---
 src/lib/async_logger.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fad5cd3..9fa3fd2 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -34,7 +34,10 @@ async_logger::~async_logger()
     {
         return;
     }
-    stop_ = true;
+    {
+        std::unique_lock<std::recursive_mutex> lock(lock_);
+        stop_ = true;
+    }
     cond_.notify_one();
     join();
 }
@@ -112,7 +115,7 @@ async_logger &async_logger::operator<<(const async_logger &)
 
 void async_logger::run_impl()
 {
-    while (!stop_)
+    while (true)
     {
         int prev = -1;
         {
@@ -126,6 +129,11 @@ void async_logger::run_impl()
                     }
                 );
             }
+            if (0 == buffers_[curr_].size())
+            {
+                // Stopped and all lines are written
+                break;
+            }
             prev = curr_;
             curr_ = 1 - curr_;
         }
-- 
2.43.0


From e5518c07ded1cb2d8d6ffcb20f451dd338228753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 38/55] fix: an unfinished line does not block the destruction
 of a logger

---
 src/lib/async_logger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 9fa3fd2..eba0974 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -37,6 +37,11 @@ async_logger::~async_logger()
     {
         std::unique_lock<std::recursive_mutex> lock(lock_);
         stop_ = true;
+        // Release the lock held by an unfinished line of this thread
+        for (; recur_level_ > 0; --recur_level_)
+        {
+            lock_.unlock();
+        }
     }
     cond_.notify_one();
     join();
-- 
2.43.0


From b39fea36017872d267daf8ad63817eafa201a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 39/55] fix: a partial or interrupted write loses no log lines

---
 src/include/cppev/async_logger.h |  2 ++
 src/lib/async_logger.cc          | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/async_logger.h b/src/include/cppev/async_logger.h
index 7380a42..22c29d2 100644
--- a/src/include/cppev/async_logger.h
+++ b/src/include/cppev/async_logger.h
@@ -41,6 +41,8 @@ public:
 private:
     void write_header(buffer &buf);
 
+    void write_all(const buffer &buf);
+
     int level_;
 
     bool stop_;
diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index eba0974..8454c3f 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -7,6 +7,8 @@
 #include <string>
 #include <unordered_set>
 #include <cassert>
+#include <cerrno>
+#include <poll.h>
 #include <unistd.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
@@ -118,6 +120,27 @@ async_logger &async_logger::operator<<(const async_logger &)
     return *this;
 }
 
+void async_logger::write_all(const buffer &buf)
+{
+    for (int done = 0; done < buf.size(); )
+    {
+        ssize_t ret = write(level_, buf.rawbuf() + done, buf.size() - done);
+        if (ret >= 0)
+        {
+            done += ret;
+        }
+        else if (errno == EAGAIN || errno == EWOULDBLOCK)
+        {
+            struct pollfd pfd = { level_, POLLOUT, 0 };
+            poll(&pfd, 1, -1);
+        }
+        else if (errno != EINTR)
+        {
+            break;
+        }
+    }
+}
+
 void async_logger::run_impl()
 {
     while (true)
@@ -147,7 +170,7 @@ void async_logger::run_impl()
 
         if (buf.size())
         {
-            write(level_, buf.rawbuf(), buf.size());
+            write_all(buf);
             buf.clear();
         }
     }
-- 
2.43.0


From ac8f4978a06632f9110b316a32ae3ab75668ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 40/55] fix: logged strings are not cut off at a NUL byte

---
 src/lib/async_logger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 8454c3f..816ac8b 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -49,9 +49,9 @@ async_logger::~async_logger()
     join();
 }
 
-async_logger &async_logger::operator<<(const std::string &str)
+async_logger &async_logger::operator<<(const char *str)
 {
-    return (*this) << str.c_str();
+    return (*this) << std::string(str);
 }
 
 async_logger &async_logger::operator<<(long x)
@@ -96,7 +96,7 @@ void async_logger::write_header(buffer &buf)
     buf.put_string(ss.str());
 }
 
-async_logger &async_logger::operator<<(const char *str)
+async_logger &async_logger::operator<<(const std::string &str)
 {
     lock_.lock();
     if (0 == recur_level_++)
-- 
2.43.0


From 4cafcb84f2a7d07d05a9ec91f3de774a362da5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 41/55] fix: stopping a timed scheduler is no data race

---
 src/include/cppev/scheduler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 3294926..01b5e77 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -12,6 +12,7 @@
 #include <map>
 #include <thread>
 #include <algorithm>
+#include <atomic>
 #include "cppev/utils.h"
 
 namespace cppev
@@ -153,7 +154,7 @@ public:
 
 private:
     // whether thread shall stop
-    bool stop_;
+    std::atomic<bool> stop_;
 
     // time interval in nanoseconds
     int64_t interval_;
-- 
2.43.0


From e513dc0058bef67a9da19e97ec6a63be0dd1c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 42/55] fix: a timed scheduler works with any periods, none,
 and coarse clocks

---
 src/include/cppev/scheduler.h | 68 ++++++++++-------------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 01b5e77..bce5da6 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -7,9 +7,10 @@
 #include <vector>
 #include <queue>
 #include <chrono>
+#include <limits>
+#include <map>
 #include <memory>
 #include <string>
-#include <map>
 #include <thread>
 #include <algorithm>
 #include <atomic>
@@ -53,32 +54,12 @@ public:
             timer_tasks_heap.push({ std::get<1>(timer_tasks[i]) , i });
         }
 
-        std::vector<int64_t> intervals;
-        for (size_t i = 0; i < timer_tasks.size(); ++i)
-        {
-            intervals.push_back(1'000'000'000 / std::get<0>(timer_tasks[i]));
-        }
-        int64_t lcm = intervals[0];
-        int64_t gcd = intervals[0];
-        if (intervals.size() >= 2)
-        {
-            lcm = least_common_multiple(intervals);
-            gcd = greatest_common_divisor(intervals);
-        }
-        interval_ = lcm;
-
         while (!timer_tasks_heap.empty())
         {
             size_t idx = std::get<1>(timer_tasks_heap.top());
             timer_tasks_heap.pop();
             timer_handlers_.push_back(std::get<2>(timer_tasks[idx]));
-            for (int64_t stamp = 0; stamp < lcm; stamp += gcd)
-            {
-                if (stamp % intervals[idx] == 0)
-                {
-                    tasks_[stamp].push_back(timer_handlers_.size() - 1);
-                }
-            }
+            intervals_.push_back(1'000'000'000 / std::get<0>(timer_tasks[idx]));
         }
 
         thr_ = std::thread(
@@ -94,35 +75,25 @@ public:
                     tp_curr = ceil_time_point<Clock>(tp_curr);
                     std::this_thread::sleep_until(tp_curr);
                 }
-                while(!stop_)
+                // time passed since the first trigger, in nanoseconds
+                int64_t stamp = 0;
+                while(!stop_ && !timer_handlers_.empty())
                 {
-                    for (auto iter = tasks_.cbegin(); !stop_ && (iter != tasks_.cend()); )
-                    {
-                        auto curr = iter;
-                        auto next = ++iter;
-
-                        int64_t span;
-                        if (next == tasks_.cend())
-                        {
-                            span = interval_ - curr->first;
-                        }
-                        else
-                        {
-                            span = next->first - curr->first;
-                        }
+                    const auto tp_stamp = tp_curr + std::chrono::nanoseconds(stamp);
+                    int64_t next = std::numeric_limits<int64_t>::max();
 
-                        for (auto idx : curr->second)
+                    for (size_t i = 0; i < timer_handlers_.size(); ++i)
+                    {
+                        if (stamp % intervals_[i] == 0)
                         {
-                            timer_handlers_[idx](tp_curr.time_since_epoch());
+                            timer_handlers_[i](tp_stamp.time_since_epoch());
                         }
+                        next = std::min(next, (stamp / intervals_[i] + 1) * intervals_[i]);
+                    }
 
-                        auto tp_next = tp_curr + std::chrono::nanoseconds(span);
-
-                        std::this_thread::sleep_until(tp_next);
+                    std::this_thread::sleep_until(tp_curr + std::chrono::nanoseconds(next));
 
-                        tp_curr = std::chrono::time_point_cast<
-                            typename decltype(tp_curr)::duration>(tp_next);
-                    }
+                    stamp = next;
                 }
                 for (const auto &task : exit_tasks)
                 {
@@ -156,14 +127,11 @@ private:
     // whether thread shall stop
     std::atomic<bool> stop_;
 
-    // time interval in nanoseconds
-    int64_t interval_;
-
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
 
-    // timepoint -> timed handler index
-    std::map<int64_t, std::vector<size_t>> tasks_;
+    // time intervals in nanoseconds, one for each handler
+    std::vector<int64_t> intervals_;
 
     // backend thread executing tasks
     std::thread thr_;
-- 
2.43.0


From 568ea7524564257c9a0493975542977a4bd23101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 43/55] fix: waiting for a subprocess again or a failing call
 does not end the calling process

---
 src/include/cppev/subprocess.h |  2 ++
 src/lib/subprocess.cc          | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 6e1a59d..df569e6 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -86,6 +86,8 @@ private:
     pid_t pid_;
 
     int returncode_;
+
+    bool ended_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 4749909..d7f7ecd 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -3,6 +3,7 @@
 #include "cppev/utils.h"
 #include <map>
 #include <set>
+#include <cerrno>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -28,7 +29,7 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 }   // namespace subprocess
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+: cmd_(cmd), env_(env), pid_(-1), returncode_(-1), ended_(false)
 {
     int fds[2];
     int zero, one, two;
@@ -58,7 +59,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == -1)
     {
-        _exit(-1);
+        throw_system_error("fork error");
     }
 
     if (pid == 0)
@@ -95,12 +96,21 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
 bool subp_open::poll()
 {
-    int ret = waitpid(pid_, &returncode_, WNOHANG);
+    if (ended_)
+    {
+        return true;
+    }
+    int ret = 0;
+    do
+    {
+        ret = waitpid(pid_, &returncode_, WNOHANG);
+    } while (ret == -1 && errno == EINTR);
     if (ret == -1)
     {
-        _exit(-1);
+        throw_system_error("waitpid error");
     }
-    return ret != 0;
+    ended_ = (ret != 0);
+    return ended_;
 }
 
 void subp_open::wait()
-- 
2.43.0


From f3feb963ce0b671cfd77eda90622e32e8c0074a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:39 +0000
Subject: [PATCH 44/55] fix: the output of a command is not cut off at a NUL
 byte

---
 src/include/cppev/subprocess.h | 2 ++
 src/lib/subprocess.cc          | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index df569e6..aa07c9f 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -20,6 +20,8 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 class subp_open final
 {
+    friend std::tuple<int, std::string, std::string> subprocess::exec_cmd(
+        const std::string &cmd, const std::vector<std::string> &env);
 public:
     explicit subp_open(const std::string &cmd, const std::vector<std::string> &env);
 
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index d7f7ecd..1b5cc8d 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -23,7 +23,7 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 {
     subp_open subp(cmd, env);
     subp.wait();
-    return std::make_tuple(subp.returncode(), subp.stdout(), subp.stderr());
+    return std::make_tuple(subp.returncode(), subp.stdout_->rbuffer().get_string(), subp.stderr_->rbuffer().get_string());
 }
 
 }   // namespace subprocess
-- 
2.43.0


From 51f3acda37a90789c49bf2e05e927e9811321932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 45/55] fix: input pending for a subprocess is delivered while
 waiting

---
 src/lib/subprocess.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 1b5cc8d..3982528 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -126,6 +126,9 @@ void subp_open::communicate(const char *input, int len)
     if (input != nullptr && len != 0)
     {
         stdin_->wbuffer().produce(input, len);
+    }
+    if (stdin_->wbuffer().size())
+    {
         stdin_->write_all();
     }
 }
-- 
2.43.0


From 92145069ab6dcdc7305d0d9c593d27adbfcfde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:44 +0000
Subject: [PATCH 46/55] fix: a subprocess handle leaves no descriptor behind
 and its child holds only its own ends

---
 src/include/cppev/subprocess.h |  3 ++
 src/lib/subprocess.cc          | 52 ++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index aa07c9f..3d1e340 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -79,6 +79,9 @@ private:
 
     std::vector<std::string> env_;
 
+    // read end of stdin, closed with the last copy
+    std::shared_ptr<void> stdin_reader_;
+
     std::unique_ptr<nstream> stdin_;
 
     std::unique_ptr<nstream> stdout_;
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 3982528..870e0ff 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -4,6 +4,7 @@
 #include <map>
 #include <set>
 #include <cerrno>
+#include <fcntl.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -28,31 +29,42 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 }   // namespace subprocess
 
+// The subprocess gets its ends of the pipes only, and only as standard streams
+static void open_pipe(int *fds)
+{
+    if (pipe(fds) < 0)
+    {
+        throw_system_error("pipe error");
+    }
+    fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+}
+
+static std::shared_ptr<void> close_at_end(int fd)
+{
+    return std::shared_ptr<void>(nullptr, [fd](void *) { close(fd); });
+}
+
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
 : cmd_(cmd), env_(env), pid_(-1), returncode_(-1), ended_(false)
 {
     int fds[2];
     int zero, one, two;
 
-    if (pipe(fds) < 0)
-    {
-        throw_system_error("pipe error");
-    }
+    open_pipe(fds);
     zero = fds[0];
+    // Stay a reader, so that input for a subprocess which does not read raises no signal
+    stdin_reader_ = close_at_end(zero);
     stdin_ = std::make_unique<nstream>(fds[1]);
 
-    if (pipe(fds) < 0)
-    {
-        throw_system_error("pipe error");
-    }
+    open_pipe(fds);
     one = fds[1];
+    auto stdout_writer = close_at_end(one);
     stdout_ = std::make_unique<nstream>(fds[0]);
 
-    if (pipe(fds) < 0)
-    {
-        throw_system_error("pipe error");
-    }
+    open_pipe(fds);
     two = fds[1];
+    auto stderr_writer = close_at_end(two);
     stderr_ = std::make_unique<nstream>(fds[0]);
 
     pid_t pid = fork();
@@ -64,9 +76,19 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == 0)
     {
-        dup2(zero, STDIN_FILENO);
-        dup2(one, STDOUT_FILENO);
-        dup2(two, STDERR_FILENO);
+        // Standard streams may be closed here and thus be in use for the pipes
+        for (int *fd : { &zero, &one, &two })
+        {
+            if (*fd <= STDERR_FILENO)
+            {
+                *fd = fcntl(*fd, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+            }
+        }
+
+        if (dup2(zero, STDIN_FILENO) < 0 || dup2(one, STDOUT_FILENO) < 0 || dup2(two, STDERR_FILENO) < 0)
+        {
+            _exit(127);
+        }
 
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
         std::string cmd_with_path = cmd_with_args[0];
-- 
2.43.0


From e3074eb5aee892f00a293fde2ab68bada8a0d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 47/55] fix: closing or partly writing inside on-accept,
 on-connect and on-write-complete does not end the process

---
 src/lib/tcp.cc | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7361feb..bea4a5d 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -63,6 +63,17 @@ void *external_data(const std::shared_ptr<nsocktcp> &iopt)
 const tcp_event_handler tp_shared_data::idle_handler = [](const std::shared_ptr<nsocktcp> &) -> void {};
 
 
+// Run on_closed and forget the socket, which the callback may have closed
+static void report_closed(const std::shared_ptr<nsocktcp> &iopt)
+{
+    tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
+    dp->on_closed(iopt);
+    if (!iopt->is_closed())
+    {
+        iopt->evlp().fd_remove(std::static_pointer_cast<nio>(iopt), true);
+    }
+}
+
 void iohandler::on_readable(const std::shared_ptr<nio> &iop)
 {
     std::shared_ptr<nsocktcp> iopt = std::dynamic_pointer_cast<nsocktcp>(iop);
@@ -74,10 +85,10 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     iopt->read_all();
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
-    if (iopt->eof() || iopt->is_reset())
+    // The callback may have closed the socket
+    if (!iopt->is_closed() && (iopt->eof() || iopt->is_reset()))
     {
-        dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        report_closed(iopt);
     }
 }
 
@@ -89,21 +100,23 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         throw_logic_error("dynamic_pointer_cast error");
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
+    // Nothing is left to write when another async_write has drained the buffer in the meantime
+    bool pending = iopt->wbuffer().size() != 0;
     iopt->write_all();
-    if (0 == iopt->wbuffer().size())
+    if (iopt->eop() || iopt->is_reset())
+    {
+        report_closed(iopt);
+    }
+    else if (0 == iopt->wbuffer().size())
     {
+        // The sequence CANNOT be changed, since on_write_complete may call async_write or close the socket
         iopt->evlp().fd_remove(iop, false);
-        dp->on_write_complete(iopt);
-        if (!iopt->is_closed())
+        iopt->evlp().fd_register(iop, fd_event::fd_readable);
+        if (pending)
         {
-            iopt->evlp().fd_register(iop, fd_event::fd_readable);
+            dp->on_write_complete(iopt);
         }
     }
-    if (iopt->eop() || iopt->is_reset())
-    {
-        dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
-    }
 }
 
 void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
@@ -115,10 +128,10 @@ void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->evlp().fd_remove(iop, true);
-    // The sequence CANNOT be changed, since on_accept may call async_write
+    // The sequence CANNOT be changed, since on_accept may call async_write or close the socket
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_accept(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_accept(iopt);
 }
 
 void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
@@ -141,10 +154,10 @@ void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
         return;
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    // The sequence CANNOT be changed since on_connect may call aysnc_write
+    // The sequence CANNOT be changed since on_connect may call aysnc_write or close the socket
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_connect(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_connect(iopt);
 }
 
 void iohandler::run_impl()
-- 
2.43.0


From 2a80528d6897b7b1d7902cb35aa42d7c09c725a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 48/55] fix: closing a connection again leaves the next owner
 of its descriptor alone

---
 src/lib/tcp.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index bea4a5d..2db2d6b 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -49,6 +49,11 @@ void async_write(const std::shared_ptr<nsocktcp> &iopt)
 
 void safely_close(const std::shared_ptr<nsocktcp> &iopt)
 {
+    if (iopt->is_closed())
+    {
+        // The fd may belong to another connection by now
+        return;
+    }
     std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
     // epoll/kqueue will remove fd when it's closed
     iopt->evlp().fd_remove(iop, true, false);
-- 
2.43.0


From 0f2596fd7efea17ff0668a7a0ee73187283eb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 49/55] fix: what a peer has sent before closing is read even
 when a write finds the connection closed

---
 src/lib/tcp.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 2db2d6b..c484288 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -110,7 +110,17 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     iopt->write_all();
     if (iopt->eop() || iopt->is_reset())
     {
-        report_closed(iopt);
+        // The peer reads nothing more, but what it has sent before is still to be read
+        iopt->read_all();
+        if (iopt->rbuffer().size() != 0)
+        {
+            dp->on_read_complete(iopt);
+            iopt->rbuffer().clear();
+        }
+        if (!iopt->is_closed())
+        {
+            report_closed(iopt);
+        }
     }
     else if (0 == iopt->wbuffer().size())
     {
-- 
2.43.0


From d1029a301bca2202a59182512c6d002aca18d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 50/55] fix: adding connections from several threads is no data
 race

---
 src/include/cppev/tcp.h |  2 +-
 src/lib/tcp.cc          | 17 ++++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/include/cppev/tcp.h b/src/include/cppev/tcp.h
index 9e2f176..84204fe 100644
--- a/src/include/cppev/tcp.h
+++ b/src/include/cppev/tcp.h
@@ -249,7 +249,7 @@ private:
     // Event loop
     event_loop evlp_;
 
-    // Protects hosts_;
+    // Protects hosts_, wrp_;
     std::mutex lock_;
 
     // Pipe write end
diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index c484288..aefd4e8 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -241,16 +241,15 @@ void connector::add(const std::string &ip, int port, family f, int t)
     }
     auto h = std::make_tuple(ip, port, f);
 
+    // Connections may be added by several threads
+    std::unique_lock<std::mutex> _(lock_);
+    if (hosts_.count(h))
     {
-        std::unique_lock<std::mutex> _(lock_);
-        if (hosts_.count(h))
-        {
-            hosts_[h] += t;
-        }
-        else
-        {
-            hosts_[h] = t;
-        }
+        hosts_[h] += t;
+    }
+    else
+    {
+        hosts_[h] = t;
     }
 
     wrp_->wbuffer().put_string("0");
-- 
2.43.0


From 405a4ecd4a82cce72978d49312e0f9b32ed7f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 51/55] fix: a failing accept does not end a server

---
 src/lib/tcp.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index aefd4e8..e66f3b9 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -1,4 +1,7 @@
 #include "cppev/tcp.h"
+#include <chrono>
+#include <system_error>
+#include <thread>
 
 namespace cppev
 {
@@ -209,7 +212,17 @@ void acceptor::on_acpt_readable(const std::shared_ptr<nio> &iop)
     {
         throw_logic_error("dynamic_pointer_cast error");
     }
-    std::vector<std::shared_ptr<nsocktcp>> conns = iopt->accept();
+    std::vector<std::shared_ptr<nsocktcp>> conns;
+    try
+    {
+        conns = iopt->accept();
+    }
+    catch (const std::system_error &e)
+    {
+        // Usually no fd or memory is left for the moment, the socket stays readable : try again in a while
+        log::error << "fd " << iopt->fd() << " listening but " << e.what() << log::endl;
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
 
     for (auto &conn : conns)
-- 
2.43.0


From 9e6ce0f1ea29ca8f8a0aabc443498ee18532a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 52/55] fix: a failing read or write costs only its connection

---
 src/lib/tcp.cc | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index e66f3b9..4152eb9 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -34,10 +34,41 @@ event_loop *tp_shared_data::minloads_get_evlp()
 }
 
 
+// Read what there is, return whether the connection has ended or is broken
+static bool read_until_end(const std::shared_ptr<nsocktcp> &iopt)
+{
+    try
+    {
+        iopt->read_all();
+    }
+    catch (const std::system_error &e)
+    {
+        log::error << "fd " << iopt->fd() << " : " << e.what() << log::endl;
+        return true;
+    }
+    return iopt->eof() || iopt->is_reset();
+}
+
+// Write what can be written, return whether the connection is broken
+static bool write_until_end(const std::shared_ptr<nsocktcp> &iopt)
+{
+    try
+    {
+        iopt->write_all();
+    }
+    catch (const std::system_error &e)
+    {
+        log::error << "fd " << iopt->fd() << " : " << e.what() << log::endl;
+        return true;
+    }
+    return iopt->eop() || iopt->is_reset();
+}
+
 void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
-    iopt->write_all();
+    // If the connection is broken on_writable will find out
+    write_until_end(iopt);
     if (0 == iopt->wbuffer().size())
     {
         dp->on_write_complete(iopt);
@@ -90,11 +121,11 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
         throw_logic_error("dynamic_pointer_cast error");
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    iopt->read_all();
+    bool end = read_until_end(iopt);
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
     // The callback may have closed the socket
-    if (!iopt->is_closed() && (iopt->eof() || iopt->is_reset()))
+    if (!iopt->is_closed() && (end || iopt->is_reset()))
     {
         report_closed(iopt);
     }
@@ -110,11 +141,10 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
     // Nothing is left to write when another async_write has drained the buffer in the meantime
     bool pending = iopt->wbuffer().size() != 0;
-    iopt->write_all();
-    if (iopt->eop() || iopt->is_reset())
+    if (write_until_end(iopt))
     {
         // The peer reads nothing more, but what it has sent before is still to be read
-        iopt->read_all();
+        read_until_end(iopt);
         if (iopt->rbuffer().size() != 0)
         {
             dp->on_read_complete(iopt);
-- 
2.43.0


From 29b8db6bdfe6a449965365b20a6e3f3993779c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 53/55] fix: an invalid target or a failing socket call does
 not end a client

---
 src/lib/tcp.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 4152eb9..39518a3 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -1,5 +1,6 @@
 #include "cppev/tcp.h"
 #include <chrono>
+#include <exception>
 #include <system_error>
 #include <thread>
 
@@ -325,15 +326,24 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
     {
         for (int i = 0; i < iter->second; ++i)
         {
-            std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
-            bool succeed;
-            if (std::get<2>(iter->first) == family::local)
+            std::shared_ptr<nsocktcp> sock;
+            bool succeed = false;
+            // An invalid target or a failing syscall is the failure of this connection only
+            try
             {
-                succeed = sock->connect_unix(std::get<0>(iter->first));
+                sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
+                if (std::get<2>(iter->first) == family::local)
+                {
+                    succeed = sock->connect_unix(std::get<0>(iter->first));
+                }
+                else
+                {
+                    succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                }
             }
-            else
+            catch (const std::exception &e)
             {
-                succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                log::error << "connect " << std::get<0>(iter->first) << " : " << e.what() << log::endl;
             }
             if (succeed)
             {
-- 
2.43.0


From 71bc2a61cf466c5db53a24198ecc39a598af0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 54/55] fix: buffer: do not overflow when growing beyond one
 gigabyte

---
 src/include/cppev/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index 3657588..67d3927 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -1,6 +1,7 @@
 #ifndef _buffer_h_6C0224787A17_
 #define _buffer_h_6C0224787A17_
 
+#include <climits>
 #include <utility>
 #include <memory>
 #include <cstring>
@@ -109,7 +110,8 @@ public:
         }
         while(cap_ < cap)
         {
-            cap_ *= 2;
+            // doubling shall not overflow
+            cap_ = cap_ > INT_MAX / 2 ? INT_MAX : cap_ * 2;
         }
         std::unique_ptr<char[]> nbuffer = std::unique_ptr<char[]>(new char[cap_]);
         memset(nbuffer.get(), 0, cap_);
-- 
2.43.0


From 793f34d8d1f553a898f0cbd1bb93273e6c493d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 55/55] fix: subprocess: make the pipes close-on-exec in one
 step

---
 src/lib/subprocess.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 870e0ff..e46f588 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -32,12 +32,20 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 // The subprocess gets its ends of the pipes only, and only as standard streams
 static void open_pipe(int *fds)
 {
+#ifdef __linux__
+    // In one step, since another thread may start a subprocess in between
+    if (pipe2(fds, O_CLOEXEC) < 0)
+    {
+        throw_system_error("pipe error");
+    }
+#else
     if (pipe(fds) < 0)
     {
         throw_system_error("pipe error");
     }
     fcntl(fds[0], F_SETFD, FD_CLOEXEC);
     fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+#endif
 }
 
 static std::shared_ptr<void> close_at_end(int fd)
-- 
2.43.0

