From c12e9aab761e01982a06c5a901647211e51548ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 01/37] fix: nio move transfers the write buffer and closes the
 descriptor held by the target

---
 src/include/cppev/nio.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index c1f4c88..3fdcd32 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -58,6 +58,7 @@ public:
     nio &operator=(const nio &) = delete;
 
     nio(nio &&other) noexcept
+    : fd_(-1), closed_(true), evlp_(nullptr)
     {
         if (&other == this)
         {
@@ -157,10 +158,16 @@ protected:
 
     void move(nio &&other) noexcept
     {
+        // Release the descriptor held before
+        if (!closed_)
+        {
+            close();
+        }
+
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-        this->wbuffer_ = std::move(other.rbuffer_);
+        this->wbuffer_ = std::move(other.wbuffer_);
         this->evlp_ = other.evlp_;
 
         other.fd_ = -1;
-- 
2.43.0


From 1d867a7463745570b403f5c95b5c1b6f0aa0dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 02/37] fix: nio::close closes the descriptor only once

---
 src/lib/nio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bbecc9f..0465868 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -21,7 +21,7 @@ namespace cppev
 
 void nio::close() noexcept
 {
-    if (fd_ != -1)
+    if (fd_ != -1 && !closed_)
     {
         ::close(fd_);
     }
-- 
2.43.0


From e8cec3e43bffd03f8b45696ab76cc2d6aa0dedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 03/37] fix: get_fifos closes the read end when opening the
 write end fails

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 0465868..ba6f783 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -749,6 +749,9 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     int fdw = open(path.c_str(), O_WRONLY | O_NONBLOCK);
     if (fdw == -1)
     {
+        int err = errno;
+        ::close(fdr);
+        errno = err;
         throw_system_error("open error");
     }
     std::vector<std::shared_ptr<nstream>> fifos =
-- 
2.43.0


From 72be70c6ae4a40b6f2669dd5de057d4ca62c55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 04/37] fix: shutdown of one direction falls through to the
 others

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index ba6f783..fc2730e 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -498,14 +498,17 @@ void nsocktcp::shutdown(shut_mode howto) noexcept
     case shut_mode::shut_rd :
     {
         ::shutdown(fd_, SHUT_RD);
+        break;
     }
     case shut_mode::shut_wr :
     {
         ::shutdown(fd_, SHUT_WR);
+        break;
     }
     case shut_mode::shut_rdwr :
     {
         ::shutdown(fd_, SHUT_RDWR);
+        break;
     }
     default: ;
     }
-- 
2.43.0


From 589434ccfab8f94cf4a35483626d47604117aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 05/37] fix: udp send/recv report failures, accept empty
 datagrams and clear the address

---
 src/lib/nio.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index fc2730e..44bd195 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -654,7 +654,7 @@ std::tuple<std::string, int, family> nsockudp::recv()
     socklen_t len = faddr_len_.at(family_);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("recvfrom error");
     }
@@ -669,11 +669,12 @@ std::tuple<std::string, int, family> nsockudp::recv()
 void nsockudp::send(const char *ip, int port)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, faddr_len_.at(family_));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
@@ -683,11 +684,12 @@ void nsockudp::send(const char *ip, int port)
 void nsockudp::send_unix(const char *path)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, SUN_LEN((sockaddr_un *)&addr));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
-- 
2.43.0


From e467d46512459226ef59da6c55e44c5e9d41d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 06/37] fix: accept keeps the accepted connections when
 interrupted or failing midway

---
 src/lib/nio.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 44bd195..db70ddb 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -631,6 +631,16 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
             {
                 break;
             }
+            else if (errno == EINTR || errno == ECONNABORTED)
+            {
+                --i;
+                continue;
+            }
+            else if (!sockfds.empty())
+            {
+                // Hand over the accepted connections, next call reports the error
+                break;
+            }
             else
             {
                 throw_system_error("accept error");
-- 
2.43.0


From 7368701a9b3156762dd1fddf228215c7aaf76495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 07/37] fix: rstrip and strip removed a remainder of the
 pattern's length without comparing it

---
 src/lib/utils.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a4c507c..378ee0f 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -445,10 +445,10 @@ static std::string do_strip(const std::string &str, const std::string &chars, co
         while (r - p >= chars.size())
         {
             bool eq = true;
-            size_t j = chars.size() - 1;
-            for (size_t i = r - 1; i > r - chars.size() - 1; --i)
+            size_t j = chars.size();
+            for (size_t i = r; i > r - chars.size(); --i)
             {
-                if (str[i] != chars[j--])
+                if (str[i - 1] != chars[--j])
                 {
                     eq = false;
                     break;
-- 
2.43.0


From 2ca4bbba80ed6969a22c700eef869c68a979a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 08/37] fix: join of no strings terminated the process

---
 src/lib/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 378ee0f..197b25a 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -384,6 +384,10 @@ std::vector<std::string> split(const std::string &str, const std::string &sep)
 std::string join(const std::vector<std::string> &str_arr, const std::string &sep) noexcept
 {
     std::string ret = "";
+    if (str_arr.empty())
+    {
+        return ret;
+    }
     size_t size = 0;
     for (size_t i = 0; i < str_arr.size(); ++i)
     {
-- 
2.43.0


From 6718d95dda114e111cfc09249014eebe5a4deb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 09/37] fix: timestamp formatted an uninitialised time when the
 conversion failed

---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 197b25a..c86e142 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -37,7 +37,10 @@ std::string timestamp(time_t t, const char *format)
         format = "%F %T %Z";
     }
     tm s_tm;
-    localtime_r(&t, &s_tm);
+    if (localtime_r(&t, &s_tm) == nullptr)
+    {
+        throw_system_error("localtime_r error");
+    }
     char buf[1024];
     memset(buf, 0, 1024);
     if (0 == strftime(buf, 1024, format, &s_tm))
-- 
2.43.0


From fcd30124493394db99b037f33ca555c96214d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 10/37] fix: sigwait failures are reported with the error it
 returned

---
 src/lib/utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index c86e142..6740b57 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -188,9 +188,10 @@ void thread_wait_for_signal(int sig)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
 }
 
@@ -205,9 +206,10 @@ int thread_wait_for_signal(const std::vector<int> &sigs)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
     return ret_sig;
 }
-- 
2.43.0


From 7f687da8ceb59a843a6b4d0f3f724e00fddfe7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 11/37] fix: lock construction failures leaked the attribute
 object or the primitive

---
 src/lib/lock.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index b87c2d9..9734757 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -84,26 +84,31 @@ pshared_lock::pshared_lock()
     ret = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
     if (ret != 0)
     {
+        pthread_mutexattr_destroy(&attr);
         throw_system_error("pthread_mutexattr_settype error", ret);
     }
     ret = pthread_mutexattr_setprotocol(&attr, PTHREAD_PRIO_NONE);
     if (ret != 0)
     {
+        pthread_mutexattr_destroy(&attr);
         throw_system_error("pthread_mutexattr_setprotocol error", ret);
     }
     ret = pthread_mutexattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
     if (ret != 0)
     {
+        pthread_mutexattr_destroy(&attr);
         throw_system_error("pthread_mutexattr_setpshared error", ret);
     }
     ret = pthread_mutex_init(&lock_, &attr);
     if (ret != 0)
     {
+        pthread_mutexattr_destroy(&attr);
         throw_system_error("pthread_mutex_init error", ret);
     }
     ret = pthread_mutexattr_destroy(&attr);
     if (ret != 0)
     {
+        pthread_mutex_destroy(&lock_);
         throw_system_error("pthread_mutexattr_destroy error", ret);
     }
 }
@@ -158,16 +163,19 @@ pshared_cond::pshared_cond()
     ret = pthread_condattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
     if (ret != 0)
     {
+        pthread_condattr_destroy(&attr);
         throw_system_error("pthread_condattr_setpshared error", ret);
     }
     ret = pthread_cond_init(&cond_, &attr);
     if (ret != 0)
     {
+        pthread_condattr_destroy(&attr);
         throw_system_error("pthread_cond_init error", ret);
     }
     ret = pthread_condattr_destroy(&attr);
     if (ret != 0)
     {
+        pthread_cond_destroy(&cond_);
         throw_system_error("pthread_condattr_destroy error", ret);
     }
 }
@@ -282,16 +290,19 @@ pshared_rwlock::pshared_rwlock()
     ret = pthread_rwlockattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
     if (ret != 0)
     {
+        pthread_rwlockattr_destroy(&attr);
         throw_system_error("pthread_rwlockattr_setpshared error", ret);
     }
     ret = pthread_rwlock_init(&lock_, &attr);
     if (ret != 0)
     {
+        pthread_rwlockattr_destroy(&attr);
         throw_system_error("pthread_rwlock_init error", ret);
     }
     ret = pthread_rwlockattr_destroy(&attr);
     if (ret != 0)
     {
+        pthread_rwlock_destroy(&lock_);
         throw_system_error("pthread_rwlockattr_destroy error", ret);
     }
 }
-- 
2.43.0


From e4b7847b4748a3e6f1ee6a77db00696a0431403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 12/37] fix: lock guards released an acquisition twice after
 unlock and leaked it on move assignment

---
 src/include/cppev/lock.h |  6 +++++
 src/lib/lock.cc          | 56 ++++++++++++++++++++++++++++++++++------
 2 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d62bf86..3163a8d 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -184,6 +184,9 @@ public:
 
 private:
     pshared_rwlock *rwlock_;
+
+    // Whether the guard currently holds the lock
+    bool owned_;
 };
 
 class wrlockguard final
@@ -204,6 +207,9 @@ public:
 
 private:
     pshared_rwlock *rwlock_;
+
+    // Whether the guard currently holds the lock
+    bool owned_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 9734757..523a18c 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -371,28 +371,46 @@ bool pshared_rwlock::try_wrlock()
 
 
 rdlockguard::rdlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 rdlockguard::rdlockguard(rdlockguard &&other) noexcept
 {
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (this != &other)
+    {
+        if (owned_)
+        {
+            try
+            {
+                rwlock_->unlock();
+            }
+            catch(...)
+            {
+            }
+        }
+        this->rwlock_ = other.rwlock_;
+        this->owned_ = other.owned_;
+        other.rwlock_ = nullptr;
+        other.owned_ = false;
+    }
 
     return *this;
 }
 
 rdlockguard::~rdlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
+    if (owned_)
     {
         try
         {
@@ -407,37 +425,57 @@ rdlockguard::~rdlockguard() noexcept
 void rdlockguard::lock()
 {
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 void rdlockguard::unlock()
 {
     rwlock_->unlock();
+    owned_ = false;
 }
 
 
 wrlockguard::wrlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 wrlockguard::wrlockguard(wrlockguard &&other) noexcept
 {
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (this != &other)
+    {
+        if (owned_)
+        {
+            try
+            {
+                rwlock_->unlock();
+            }
+            catch(...)
+            {
+            }
+        }
+        this->rwlock_ = other.rwlock_;
+        this->owned_ = other.owned_;
+        other.rwlock_ = nullptr;
+        other.owned_ = false;
+    }
 
     return *this;
 }
 
 wrlockguard::~wrlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
+    if (owned_)
     {
         try
         {
@@ -452,11 +490,13 @@ wrlockguard::~wrlockguard() noexcept
 void wrlockguard::lock()
 {
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 void wrlockguard::unlock()
 {
     rwlock_->unlock();
+    owned_ = false;
 }
 
 }   // namespace cppev
\ No newline at end of file
-- 
2.43.0


From 05267163c6a70c4b3b212f475e2b3c14fda025c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 13/37] fix: an extra arrival at the barrier left released
 waiters asleep forever

---
 src/lib/lock.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 523a18c..6fc6b34 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -262,18 +262,18 @@ pshared_barrier::pshared_barrier(int count)
 void pshared_barrier::wait()
 {
     std::unique_lock<pshared_lock> lock(lock_);
+    if (count_ <= 0)
+    {
+        throw_logic_error("too many threads waited in the barrier");
+    }
     --count_;
     if (count_ == 0)
     {
         cond_.notify_all();
     }
-    else if (count_ > 0)
-    {
-        cond_.wait(lock, [this]() { return count_ == 0; });
-    }
     else
     {
-        throw_logic_error("too many threads waited in the barrier");
+        cond_.wait(lock, [this]() { return count_ == 0; });
     }
 }
 
-- 
2.43.0


From 9d2e34935ab03498bc0f8c2820ae6fa246656b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 14/37] fix: the one time fence woke a single waiter and raced
 on its flag

---
 src/include/cppev/lock.h | 3 ++-
 src/lib/lock.cc          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index 3163a8d..ddd711a 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -111,7 +111,8 @@ public:
     bool ok() const noexcept;
 
 private:
-    bool ok_;
+    // Read without the lock
+    std::atomic<bool> ok_;
 
     pshared_lock lock_;
 
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 6fc6b34..668f070 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -233,7 +233,7 @@ void pshared_one_time_fence::wait()
         std::unique_lock<pshared_lock> lock(lock_);
         if (!ok_)
         {
-            cond_.wait(lock, [this](){ return ok_; });
+            cond_.wait(lock, [this](){ return ok_.load(); });
         }
     }
 }
@@ -244,7 +244,7 @@ void pshared_one_time_fence::notify()
     {
         std::unique_lock<pshared_lock> lock(lock_);
         ok_ = true;
-        cond_.notify_one();
+        cond_.notify_all();
     }
 }
 
-- 
2.43.0


From d69a7cbbfc8488c095128663a1aecc417518798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 15/37] fix: semaphore acquire interrupted by a signal failed
 with part of the units taken

---
 src/lib/ipc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9224798..1e3f8bc 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -145,7 +145,12 @@ void semaphore::acquire(int count)
 {
     for (int i = 0; i < count; ++i)
     {
-        if (sem_wait(sem_) == -1)
+        int ret;
+        do
+        {
+            ret = sem_wait(sem_);
+        } while (ret == -1 && errno == EINTR);
+        if (ret == -1)
         {
             throw_system_error("sem_wait error");
         }
-- 
2.43.0


From 3deeaea74b1c0d53de95b536e8f9d08e736f315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 16/37] fix: move assignment of shared memory and semaphores
 leaked what the target held

---
 src/include/cppev/ipc.h |  8 ++++++++
 src/lib/ipc.cc          | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 459b076..cee04eb 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -31,6 +31,7 @@ public:
         {
             return *this;
         }
+        unmap();
         move(std::forward<shared_memory>(other));
         return *this;
     }
@@ -66,6 +67,9 @@ public:
     }
 
 private:
+    // Release the mapping, if any
+    void unmap() noexcept;
+
     void move(shared_memory &&other) noexcept
     {
         this->name_ = other.name_;
@@ -111,6 +115,7 @@ public:
         {
             return *this;
         }
+        close();
         move(std::forward<semaphore>(other));
         return *this;
     }
@@ -131,6 +136,9 @@ public:
     }
 
 private:
+    // Release the handle, if any
+    void close() noexcept;
+
     void move(semaphore &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 1e3f8bc..199e5ed 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -64,6 +64,11 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 }
 
 shared_memory::~shared_memory() noexcept
+{
+    unmap();
+}
+
+void shared_memory::unmap() noexcept
 {
     if (ptr_ != nullptr && size_ != 0)
     {
@@ -118,6 +123,11 @@ semaphore::semaphore(const std::string &name, mode_t mode)
 }
 
 semaphore::~semaphore() noexcept
+{
+    close();
+}
+
+void semaphore::close() noexcept
 {
     if (sem_ != SEM_FAILED)
     {
-- 
2.43.0


From 432bfe0af5a926e35df0d85f2fb43db949244367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 17/37] fix: shared memory leaked its descriptor when sizing or
 mapping failed

---
 src/lib/ipc.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 199e5ed..d3c6a7f 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -48,13 +48,17 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         int ret = ftruncate(fd, size_);
         if (ret == -1)
         {
-            throw_system_error("ftruncate error");
+            int err = errno;
+            close(fd);
+            throw_system_error("ftruncate error", err);
         }
     }
     ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     if (ptr_ == MAP_FAILED)
     {
-        throw_system_error("mmap error");
+        int err = errno;
+        close(fd);
+        throw_system_error("mmap error", err);
     }
     close(fd);
     if (creator_)
-- 
2.43.0


From cb5bbd7ad48f8037bf8a5e3007fb5c8be970cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 18/37] fix: a registration the kernel refuses leaves no
 handler behind

---
 src/lib/event_loop_epoll.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 5c57d32..d34a925 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -88,10 +88,11 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
     log::info << log::endl;
 #endif  // CPPEV_DEBUG
     iop->set_evlp(*this);
+    std::unique_lock<std::mutex> lock(lock_);
+    auto added = fds_.end();
     if (handler)
     {
-        std::unique_lock<std::mutex> lock(lock_);
-        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
+        added = fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
     }
     if (activate)
     {
@@ -100,6 +101,12 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
         ev.events = fd_map_to_sys(ev_type);
         if (epoll_ctl(ev_fd_, EPOLL_CTL_ADD, iop->fd(), &ev) < 0)
         {
+            int err = errno;
+            if (added != fds_.end())
+            {
+                fds_.erase(added);
+            }
+            errno = err;
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
         }
     }
-- 
2.43.0


From c36719daf82b4ae1e032b48e32865511ad2a0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 19/37] fix: read the load figure of an event loop under its
 lock

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 0edb3ef..25aa5a2 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -68,6 +68,7 @@ public:
 
     int ev_loads() const noexcept
     {
+        std::unique_lock<std::mutex> lock(lock_);
         return fds_.size();
     }
 
@@ -115,7 +116,7 @@ public:
 
 private:
     // Used for registering callback for event loop
-    std::mutex lock_;
+    mutable std::mutex lock_;
 
     // Event watcher fd
     int ev_fd_;
-- 
2.43.0


From b298295a07c3c4939d1a9cf2e9ea60d1bcef69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 20/37] fix: watch a new connection for input before announcing
 it

---
 src/lib/tcp.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7361feb..d0d3942 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -115,10 +115,10 @@ void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->evlp().fd_remove(iop, true);
-    // The sequence CANNOT be changed, since on_accept may call async_write
+    // The sequence CANNOT be changed, since on_accept may call async_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_accept(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_accept(iopt);
 }
 
 void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
@@ -141,10 +141,10 @@ void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
         return;
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    // The sequence CANNOT be changed since on_connect may call aysnc_write
+    // The sequence CANNOT be changed since on_connect may call async_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_connect(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_connect(iopt);
 }
 
 void iohandler::run_impl()
-- 
2.43.0


From 60b72f4527996ebb052891734db541c1a046e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 21/37] fix: leave a connection alone once a callback has
 closed it, watch it for input before announcing a completed write

---
 src/lib/tcp.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index d0d3942..c72dc27 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -74,10 +74,17 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     iopt->read_all();
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
+    if (iopt->is_closed())
+    {
+        return;
+    }
     if (iopt->eof() || iopt->is_reset())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
@@ -93,16 +100,20 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     if (0 == iopt->wbuffer().size())
     {
         iopt->evlp().fd_remove(iop, false);
+        iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
-        if (!iopt->is_closed())
+        if (iopt->is_closed())
         {
-            iopt->evlp().fd_register(iop, fd_event::fd_readable);
+            return;
         }
     }
     if (iopt->eop() || iopt->is_reset())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
-- 
2.43.0


From 8070f97f77398ea26c2b83fa8980c2de1adee30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 22/37] fix: skip queued events of a connection closed earlier
 in the same pass

---
 src/lib/tcp.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index c72dc27..baff659 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -70,6 +70,11 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     {
         throw_logic_error("dynamic_pointer_cast error");
     }
+    if (iopt->is_closed())
+    {
+        // Closed by another callback of the same pass
+        return;
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
     iopt->read_all();
     dp->on_read_complete(iopt);
@@ -95,6 +100,11 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     {
         throw_logic_error("dynamic_pointer_cast error");
     }
+    if (iopt->is_closed())
+    {
+        // Closed by another callback of the same pass
+        return;
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
     iopt->write_all();
     if (0 == iopt->wbuffer().size())
-- 
2.43.0


From 54901963c82997beb1c9fe2a9c1f4199d3911f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 23/37] fix: wake the connector under its lock

---
 src/lib/tcp.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index baff659..e6256bf 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -244,10 +244,11 @@ void connector::add(const std::string &ip, int port, family f, int t)
         {
             hosts_[h] = t;
         }
-    }
 
-    wrp_->wbuffer().put_string("0");
-    wrp_->write_all(1);
+        // The buffer is shared by all the threads adding tasks
+        wrp_->wbuffer().put_string("0");
+        wrp_->write_all(1);
+    }
 }
 
 void connector::add_unix(const std::string &path, int t)
-- 
2.43.0


From cae5d2e14ea1ec952cd13e82639453bf93923387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 24/37] fix: count an attempt that cannot even start as a
 failure of its target

---
 src/lib/tcp.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index e6256bf..d4d9ccc 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -277,22 +277,31 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
     {
         for (int i = 0; i < iter->second; ++i)
         {
-            std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
-            bool succeed;
-            if (std::get<2>(iter->first) == family::local)
+            bool succeed = false;
+            try
             {
-                succeed = sock->connect_unix(std::get<0>(iter->first));
-            }
-            else
-            {
-                succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
+                if (std::get<2>(iter->first) == family::local)
+                {
+                    succeed = sock->connect_unix(std::get<0>(iter->first));
+                }
+                else
+                {
+                    succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                }
+                if (succeed)
+                {
+                    dp->minloads_get_evlp()->fd_register(std::static_pointer_cast<nio>(sock),
+                        fd_event::fd_writable, iohandler::on_cont_writable, true);
+                }
             }
-            if (succeed)
+            catch (const std::exception &e)
             {
-                dp->minloads_get_evlp()->fd_register(std::static_pointer_cast<nio>(sock),
-                    fd_event::fd_writable, iohandler::on_cont_writable, true);
+                // No socket, bad address or refused registration: this attempt failed, go on with the others
+                succeed = false;
+                log::error << e.what() << log::endl;
             }
-            else
+            if (!succeed)
             {
                 if (std::get<2>(iter->first) == family::local)
                 {
-- 
2.43.0


From 5a68eb87a3d654c59898b884d897c9aacb617ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 25/37] fix: timed scheduler keeps next due times instead of a
 table over the least common multiple

Frequencies whose intervals have no large common divisor (3 Hz and 7 Hz, say) made
the constructor step through the least common multiple of the intervals in steps of
their greatest common divisor, which does not end in practice. Each handler now has
its next due time.
---
 src/include/cppev/scheduler.h | 64 +++++++++--------------------------
 1 file changed, 16 insertions(+), 48 deletions(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 3294926..7d00f0c 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -52,32 +52,12 @@ public:
             timer_tasks_heap.push({ std::get<1>(timer_tasks[i]) , i });
         }
 
-        std::vector<int64_t> intervals;
-        for (size_t i = 0; i < timer_tasks.size(); ++i)
-        {
-            intervals.push_back(1'000'000'000 / std::get<0>(timer_tasks[i]));
-        }
-        int64_t lcm = intervals[0];
-        int64_t gcd = intervals[0];
-        if (intervals.size() >= 2)
-        {
-            lcm = least_common_multiple(intervals);
-            gcd = greatest_common_divisor(intervals);
-        }
-        interval_ = lcm;
-
         while (!timer_tasks_heap.empty())
         {
             size_t idx = std::get<1>(timer_tasks_heap.top());
             timer_tasks_heap.pop();
             timer_handlers_.push_back(std::get<2>(timer_tasks[idx]));
-            for (int64_t stamp = 0; stamp < lcm; stamp += gcd)
-            {
-                if (stamp % intervals[idx] == 0)
-                {
-                    tasks_[stamp].push_back(timer_handlers_.size() - 1);
-                }
-            }
+            intervals_.push_back(1'000'000'000 / std::get<0>(timer_tasks[idx]));
         }
 
         thr_ = std::thread(
@@ -93,35 +73,26 @@ public:
                     tp_curr = ceil_time_point<Clock>(tp_curr);
                     std::this_thread::sleep_until(tp_curr);
                 }
+                // Next trigger time of each handler, nanoseconds since the start
+                std::vector<int64_t> dues(intervals_.size(), 0);
+                const auto tp_start = tp_curr;
                 while(!stop_)
                 {
-                    for (auto iter = tasks_.cbegin(); !stop_ && (iter != tasks_.cend()); )
-                    {
-                        auto curr = iter;
-                        auto next = ++iter;
+                    const int64_t curr = *std::min_element(dues.cbegin(), dues.cend());
+                    tp_curr = std::chrono::time_point_cast<
+                        typename decltype(tp_curr)::duration>(tp_start + std::chrono::nanoseconds(curr));
 
-                        int64_t span;
-                        if (next == tasks_.cend())
-                        {
-                            span = interval_ - curr->first;
-                        }
-                        else
-                        {
-                            span = next->first - curr->first;
-                        }
-
-                        for (auto idx : curr->second)
+                    for (size_t idx = 0; idx < dues.size(); ++idx)
+                    {
+                        if (dues[idx] == curr)
                         {
                             timer_handlers_[idx](tp_curr.time_since_epoch());
+                            dues[idx] += intervals_[idx];
                         }
-
-                        auto tp_next = tp_curr + std::chrono::nanoseconds(span);
-
-                        std::this_thread::sleep_until(tp_next);
-
-                        tp_curr = std::chrono::time_point_cast<
-                            typename decltype(tp_curr)::duration>(tp_next);
                     }
+
+                    const int64_t next = *std::min_element(dues.cbegin(), dues.cend());
+                    std::this_thread::sleep_until(tp_start + std::chrono::nanoseconds(next));
                 }
                 for (const auto &task : exit_tasks)
                 {
@@ -155,14 +126,11 @@ private:
     // whether thread shall stop
     bool stop_;
 
-    // time interval in nanoseconds
-    int64_t interval_;
-
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
 
-    // timepoint -> timed handler index
-    std::map<int64_t, std::vector<size_t>> tasks_;
+    // time interval of each handler in nanoseconds
+    std::vector<int64_t> intervals_;
 
     // backend thread executing tasks
     std::thread thr_;
-- 
2.43.0


From 924e6cc2328e7ddfba3375978204568289a2caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 26/37] fix: make the timed scheduler's stop flag atomic

The destructor writes it while the backend thread reads it.
---
 src/include/cppev/scheduler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 7d00f0c..437d01b 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -1,6 +1,7 @@
 #ifndef _scheduler_h_6C0224787A17_
 #define _scheduler_h_6C0224787A17_
 
+#include <atomic>
 #include <cstddef>
 #include <functional>
 #include <tuple>
@@ -124,7 +125,7 @@ public:
 
 private:
     // whether thread shall stop
-    bool stop_;
+    std::atomic<bool> stop_;
 
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
-- 
2.43.0


From 5e31c7d5836e5549d8fe8f3f19e1753cbb677c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 27/37] fix: logger's writer thread always sees the stop and
 writes what is pending

The stop flag was set without the lock, so the writer could miss it and wait forever,
and lines logged shortly before the destruction were dropped.
---
 src/lib/async_logger.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fad5cd3..afa02c6 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -34,7 +34,10 @@ async_logger::~async_logger()
     {
         return;
     }
-    stop_ = true;
+    {
+        std::unique_lock<std::recursive_mutex> lock(lock_);
+        stop_ = true;
+    }
     cond_.notify_one();
     join();
 }
@@ -112,7 +115,7 @@ async_logger &async_logger::operator<<(const async_logger &)
 
 void async_logger::run_impl()
 {
-    while (!stop_)
+    while (true)
     {
         int prev = -1;
         {
@@ -126,6 +129,11 @@ void async_logger::run_impl()
                     }
                 );
             }
+            if (0 == buffers_[curr_].size())
+            {
+                // Stopped and everything has been written
+                break;
+            }
             prev = curr_;
             curr_ = 1 - curr_;
         }
-- 
2.43.0


From 5afe8216605b221c55433bba1a9ecce190a088c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 28/37] fix: logger writes its lines completely

A short or interrupted write dropped the rest of the buffer.
---
 src/lib/async_logger.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index afa02c6..0991b9c 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -7,6 +7,7 @@
 #include <string>
 #include <unordered_set>
 #include <cassert>
+#include <cerrno>
 #include <unistd.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
@@ -140,11 +141,22 @@ void async_logger::run_impl()
 
         buffer &buf = buffers_[prev];
 
-        if (buf.size())
+        const char *ptr = buf.rawbuf();
+        int len = buf.size();
+        while (len > 0)
         {
-            write(level_, buf.rawbuf(), buf.size());
-            buf.clear();
+            ssize_t ret = write(level_, ptr, len);
+            if (ret >= 0)
+            {
+                ptr += ret;
+                len -= ret;
+            }
+            else if (errno != EINTR)
+            {
+                break;
+            }
         }
+        buf.clear();
     }
 }
 
-- 
2.43.0


From 2ccb4c72316f9a0c22a962cd4f0d764192055870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 29/37] fix: logger keeps text after an embedded null character

---
 src/lib/async_logger.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 0991b9c..e355bbb 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -45,7 +45,13 @@ async_logger::~async_logger()
 
 async_logger &async_logger::operator<<(const std::string &str)
 {
-    return (*this) << str.c_str();
+    lock_.lock();
+    if (0 == recur_level_++)
+    {
+        write_header(buffers_[curr_]);
+    }
+    buffers_[curr_].put_string(str);
+    return *this;
 }
 
 async_logger &async_logger::operator<<(long x)
@@ -92,13 +98,7 @@ void async_logger::write_header(buffer &buf)
 
 async_logger &async_logger::operator<<(const char *str)
 {
-    lock_.lock();
-    if (0 == recur_level_++)
-    {
-        write_header(buffers_[curr_]);
-    }
-    buffers_[curr_].put_string(str);
-    return *this;
+    return (*this) << std::string(str);
 }
 
 async_logger &async_logger::operator<<(const async_logger &)
-- 
2.43.0


From 52e5c97cd8d9f191afc5f0278babcce77052efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 30/37] fix: subprocess handle doesn't leak descriptors

The caller never closed the ends of the pipes that belong to the subprocess, and the
subprocess (and every other one) inherited the ends of the caller: a subprocess reading
its standard input never saw the end of it.
---
 src/include/cppev/subprocess.h |  3 +++
 src/lib/subprocess.cc          | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 6e1a59d..5c54651 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -77,6 +77,9 @@ private:
 
     std::vector<std::string> env_;
 
+    // Read end of stdin pipe
+    std::unique_ptr<nstream> zero_;
+
     std::unique_ptr<nstream> stdin_;
 
     std::unique_ptr<nstream> stdout_;
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 4749909..90f136b 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -5,6 +5,7 @@
 #include <set>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <thread>
 
@@ -27,6 +28,18 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 }   // namespace subprocess
 
+// Hold the end of pipe that subprocess uses, neither end is inherited through exec
+static std::unique_ptr<nstream> hold_subp_end(int fd, int other)
+{
+    if (fcntl(fd, F_SETFD, FD_CLOEXEC) < 0 || fcntl(other, F_SETFD, FD_CLOEXEC) < 0)
+    {
+        throw_system_error("fcntl error");
+    }
+    auto stm = std::make_unique<nstream>(fd);
+    stm->set_io_block();
+    return stm;
+}
+
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
 : cmd_(cmd), env_(env)
 {
@@ -39,6 +52,8 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     }
     zero = fds[0];
     stdin_ = std::make_unique<nstream>(fds[1]);
+    // Stays open with the handle, otherwise writing to a terminated subprocess raises SIGPIPE
+    zero_ = hold_subp_end(zero, fds[1]);
 
     if (pipe(fds) < 0)
     {
@@ -46,6 +61,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     }
     one = fds[1];
     stdout_ = std::make_unique<nstream>(fds[0]);
+    auto one_holder = hold_subp_end(one, fds[0]);
 
     if (pipe(fds) < 0)
     {
@@ -53,6 +69,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     }
     two = fds[1];
     stderr_ = std::make_unique<nstream>(fds[0]);
+    auto two_holder = hold_subp_end(two, fds[0]);
 
     pid_t pid = fork();
 
-- 
2.43.0


From 5dc2ac9e03301ebf7d0d9aafba9632298becd9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 31/37] fix: failing fork is an exception and doesn't end the
 calling process

---
 src/lib/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 90f136b..9e2c7ca 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -75,7 +75,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == -1)
     {
-        _exit(-1);
+        throw_system_error("fork error");
     }
 
     if (pid == 0)
-- 
2.43.0


From 2bf2f888fc0197f686a61ce09b73ff9b766e6f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 32/37] fix: polling a subprocess again after its end doesn't
 end the calling process

waitpid fails then, and its failure called _exit. Failures are exceptions now, and a
process id is not signalled any more once it may have been reused.
---
 src/include/cppev/subprocess.h |  3 +++
 src/lib/subprocess.cc          | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 5c54651..5d9263e 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -89,6 +89,9 @@ private:
     pid_t pid_;
 
     int returncode_;
+
+    // whether subprocess has been waited for
+    bool reaped_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 9e2c7ca..07dae61 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -1,6 +1,7 @@
 #include "cppev/subprocess.h"
 #include "cppev/nio.h"
 #include "cppev/utils.h"
+#include <cerrno>
 #include <map>
 #include <set>
 #include <sys/wait.h>
@@ -41,7 +42,7 @@ static std::unique_ptr<nstream> hold_subp_end(int fd, int other)
 }
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+: cmd_(cmd), env_(env), returncode_(0), reaped_(false)
 {
     int fds[2];
     int zero, one, two;
@@ -112,11 +113,16 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
 bool subp_open::poll()
 {
+    if (reaped_)
+    {
+        return true;
+    }
     int ret = waitpid(pid_, &returncode_, WNOHANG);
     if (ret == -1)
     {
-        _exit(-1);
+        throw_system_error("waitpid error");
     }
+    reaped_ = (ret != 0);
     return ret != 0;
 }
 
@@ -149,6 +155,11 @@ void subp_open::communicate(const std::string &input)
 
 void subp_open::send_signal(int sig) const
 {
+    if (reaped_)
+    {
+        // The process id may be reused by other process
+        throw_system_error("kill error", ESRCH);
+    }
     if (::kill(pid(), sig) < 0)
     {
         throw_system_error("kill error");
-- 
2.43.0


From 1b7807e9497e7b44dbc18e66bd6f8bb7753961a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 33/37] fix: subprocess input that didn't fit into the pipe is
 written later

It stayed in the buffer until the next call with more input.
---
 src/lib/subprocess.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 07dae61..9f8ad7a 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -139,6 +139,9 @@ void subp_open::communicate(const char *input, int len)
     if (input != nullptr && len != 0)
     {
         stdin_->wbuffer().produce(input, len);
+    }
+    if (stdin_->wbuffer().size() != 0)
+    {
         stdin_->write_all();
     }
 }
-- 
2.43.0


From 6130fb2087302c4d02e22fac1b1fa93c20816d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 34/37] fix: exec_cmd returns the whole output, null characters
 included

---
 src/include/cppev/subprocess.h | 3 +++
 src/lib/subprocess.cc          | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 5d9263e..89b9f96 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -72,6 +72,9 @@ public:
 
     pid_t pid() const noexcept;
 
+    friend std::tuple<int, std::string, std::string> subprocess::exec_cmd(
+        const std::string &cmd, const std::vector<std::string> &env);
+
 private:
     std::string cmd_;
 
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 9f8ad7a..4f2187e 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -24,7 +24,8 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 {
     subp_open subp(cmd, env);
     subp.wait();
-    return std::make_tuple(subp.returncode(), subp.stdout(), subp.stderr());
+    return std::make_tuple(subp.returncode(),
+        subp.stdout_->rbuffer().get_string(-1, false), subp.stderr_->rbuffer().get_string(-1, false));
 }
 
 }   // namespace subprocess
-- 
2.43.0


From b9240e8e8ef537543174d38b85fabc8971d9b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 35/37] fix: the stop flag of an event loop is written and read
 by different threads, make it atomic

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 25aa5a2..cb92b99 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -6,6 +6,7 @@
 #include <unistd.h>
 #include <queue>
 #include <tuple>
+#include <atomic>
 #include <mutex>
 #include <functional>
 #include "cppev/nio.h"
@@ -137,7 +138,7 @@ private:
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
-    bool stop_;
+    std::atomic<bool> stop_;
 };
 
 }   // namespace cppev
-- 
2.43.0


From 4af3a33653db941bf062ce0a229032d1815eb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 36/37] fix: sleep_until never compiled when used (missing
 typename, duration given for a time point)

---
 src/include/cppev/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index ca3f9ab..fb965f7 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -62,7 +62,8 @@ std::string timestamp(time_t t = -1, const char *format = nullptr);
 template <typename Clock = std::chrono::system_clock>
 void sleep_until(const std::chrono::nanoseconds &stamp)
 {
-    std::this_thread::sleep_until(std::chrono::duration_cast<Clock::duration>(stamp));
+    std::this_thread::sleep_until(typename Clock::time_point(
+        std::chrono::duration_cast<typename Clock::duration>(stamp)));
 }
 
 template <typename Clock = std::chrono::system_clock>
-- 
2.43.0


From 3e709a0c33902c04877510bfa97822cf4401e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 37/37] fix: loading a symbol whose value is null dereferenced
 the missing error text

---
 src/include/cppev/dynamic_loader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/dynamic_loader.h b/src/include/cppev/dynamic_loader.h
index 7732e7e..783b9b9 100644
--- a/src/include/cppev/dynamic_loader.h
+++ b/src/include/cppev/dynamic_loader.h
@@ -38,7 +38,9 @@ public:
         if (ptr == nullptr)
         {
             // errno is set in macOS, but not in linux
-            throw_runtime_error(std::string("dlsym error : ").append(dlerror()));
+            // a symbol may be present with the value null, which is no error for dlsym
+            const char *err = dlerror();
+            throw_runtime_error(std::string("dlsym error : ").append(err ? err : "symbol is null"));
         }
         return reinterpret_cast<Function *>(ptr);
     }
-- 
2.43.0

