From 95308aca90e0bdb1476e83f9dda61079c45eef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 01/42] fix: checkMem closed its probe descriptor twice

The second close could hit a descriptor another part of the process had
just been given.
---
 EigenIPC/src/MemUtils.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..4a55eef 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -307,15 +307,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
-- 
2.43.0


From 511f256b5e993a3fa8b714b8aaba7f11d373e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 02/42] fix: closing, releasing or locking through handles that
 were never opened

Server and Client used uninitialised descriptors and semaphore pointers
when closed (or locked) before attach, after close or after a failed
construction, closing descriptors of others or crashing. A failed release
was never reported as its return code was reset before being checked, a
server could be run after close and a client attached again after close
was never cleaned up.
---
 EigenIPC/include/EigenIPC/Client.hpp | 17 +++++----
 EigenIPC/include/EigenIPC/Server.hpp | 19 +++++-----
 EigenIPC/src/Client.cpp              |  7 ++--
 EigenIPC/src/MemUtils.hpp            | 55 +++++++++++++++++++++++++---
 EigenIPC/src/Server.cpp              | 18 +++++++--
 5 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..890e120 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,14 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            // (-1 if not open)
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +147,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..c85039b 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -123,13 +123,14 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            // (-1 if not open)
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -144,8 +145,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..325e9b2 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,6 +118,8 @@ namespace EigenIPC {
 
         }
 
+        _terminated = false; // there's something to be cleaned up from now on
+
         _initMetaMem(); // initializes meta-memory
 
         _waitForServer();  // waits until server is properly initialized
@@ -647,9 +649,6 @@ namespace EigenIPC {
                             verbose,
                             _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -658,6 +657,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 4a55eef..27e3215 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -109,6 +109,15 @@ namespace EigenIPC{
             // Determine the size based on the Scalar type
             std::size_t data_size = sizeof(Scalar) * n_rows * n_cols;
 
+            // drop the descriptor of a previous initialization, if any
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1;
+
+            }
+
             // Create shared memory
             shm_fd = shm_open(mem_path.c_str(),
                               O_CREAT | O_RDWR,
@@ -217,10 +226,17 @@ namespace EigenIPC{
                         VLevel vlevel = Journal::VLevel::V0,
                         bool unlink = false) {
 
-            // Closing the file descriptor (for this process only)
-            ::close(shm_fd);
+            // Closing the file descriptor (for this process only),
+            // if it was opened
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1;
 
-            return_code = return_code + ReturnCode::MEMFDCLOSED;
+                return_code = return_code + ReturnCode::MEMFDCLOSED;
+
+            }
 
             if (verbose
                     && vlevel > VLevel::V2) {
@@ -517,9 +533,15 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            sem_close(sem); // closes semaphore for the current process
+            if (sem != nullptr && sem != SEM_FAILED) {
+
+                sem_close(sem); // closes semaphore for the current process
+
+                return_code = return_code + ReturnCode::SEMCLOSE;
 
-            return_code = return_code + ReturnCode::SEMCLOSE;
+            }
+
+            sem = nullptr; // not usable anymore
 
             if (unlink) {
 
@@ -582,7 +604,7 @@ namespace EigenIPC{
             }
 
             // Release the semaphore
-            if (sem_post(sem) == -1) {
+            if (sem == nullptr || sem == SEM_FAILED || sem_post(sem) == -1) {
 
                 // Handle semaphore release error
 
@@ -623,6 +645,13 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
+            if (sem == nullptr || sem == SEM_FAILED) { // not open
+
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             int result = sem_wait(sem);
 
             if (result == 0) {
@@ -662,6 +691,13 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
+            if (sem == nullptr || sem == SEM_FAILED) { // not open
+
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             int result = sem_timedwait(sem,
                                 &timeout);
 
@@ -701,6 +737,13 @@ namespace EigenIPC{
 
             // this is nonblocking --> one-shot acquisition 
 
+            if (sem == nullptr || sem == SEM_FAILED) { // not open
+
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             // try to acquire the semaphore
             int result = sem_trywait(sem);
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..2cbbb35 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -177,6 +177,19 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::run()
     {
 
+        if (_terminated) {
+
+            std::string error = std::string("Server at ") +
+                    _mem_config.mem_path +
+                    std::string(" was closed and cannot be run again.");
+
+            _journal.log(__FUNCTION__,
+                error,
+                LogType::EXCEP,
+                true); // throw exception
+
+        }
+
         if (!isRunning()) {
             
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
@@ -609,9 +622,6 @@ namespace EigenIPC {
                         verbose, // no verbosity (this is called very frequently)
                         _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -620,6 +630,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From 8879d8150e48fa93985ab300c205eb324a20d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 03/42] fix: running a stopped server again released a data
 semaphore it did not hold

This let two endpoints hold the tensor at the same time. The semaphore is
now released at the first run only; before that the server's own
acquire/release calls fail and getNClients no longer deadlocks.
---
 EigenIPC/include/EigenIPC/Server.hpp |  4 +++
 EigenIPC/src/Server.cpp              | 48 ++++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index c85039b..f8e9198 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -115,6 +115,9 @@ namespace EigenIPC{
 
             bool _force_reconnection = false;
 
+            bool _holds_data = false; // true from construction to the
+            // first run(): the server itself holds the data semaphore
+
             bool _data_acquired = false; // aux. variable,
             // preallocated for efficiency
 
@@ -196,6 +199,7 @@ namespace EigenIPC{
             void _cleanMems();
 
             void _checkIsRunning();
+            void _checkHasRun(const std::string& calling_method);
 
     };
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 2cbbb35..986e83b 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _holds_data = true;
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -173,6 +175,25 @@ namespace EigenIPC {
 
         }
     }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_checkHasRun(const std::string& calling_method)
+    {
+        if (_holds_data) {
+
+            std::string error = std::string("Server ") +
+                    _mem_config.mem_path +
+                    std::string(" was never run. ") +
+                    std::string("Did you remember to call the run() method?");
+
+            _journal.log(calling_method,
+                 error,
+                 LogType::EXCEP,
+                 true); // throw exception
+
+        }
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::run()
     {
@@ -198,9 +219,18 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+            if (_holds_data) {
+
+                // only the first time: after a stop the data semaphore is not
+                // held by the server and might even be held by a client
+
+                _holds_data = false;
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); // data can now be acquired by clients
+
+            }
 
             // set the running flag to true
             _running = true;
@@ -291,6 +321,14 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     int Server<Scalar, Layout>::getNClients() {
 
+        if (_holds_data) {
+
+            // never run: the data semaphore is already held by this server
+
+            return _n_clients_view(0, 0);
+
+        }
+
         _acquireData(true, false);
 
         _n_clients = _n_clients_view(0, 0);
@@ -511,6 +549,8 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::dataSemAcquire() 
     {
 
+        _checkHasRun(__FUNCTION__); // would wait on itself
+
         _acquireSemBlocking(_mem_config.mem_path_data_sem,
                     _data_sem,
                     _verbose);
@@ -521,6 +561,8 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::dataSemRelease() 
     {
 
+        _checkHasRun(__FUNCTION__); // would give clients access before run()
+
         _releaseSem(_mem_config.mem_path_data_sem,
                     _data_sem,
                     _verbose);
-- 
2.43.0


From db61b1aef671c9b20980e1fcf67913dcf2ec8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 04/42] fix: a second unforced server destroyed the memory of
 the first one

The server semaphore was only taken by run(), after the constructor had
already acquired the (free) data semaphore, unlinked the incumbent's
memory and reset its metadata. It is now taken at construction and held
until closure, the data semaphore is created by its owner as acquired,
and a failed construction gives back what it took.
---
 EigenIPC/include/EigenIPC/Server.hpp |   9 +-
 EigenIPC/src/MemUtils.hpp            |   5 +-
 EigenIPC/src/Server.cpp              | 140 +++++++++++++++++++++------
 3 files changed, 119 insertions(+), 35 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index f8e9198..3f09ec2 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -115,6 +115,9 @@ namespace EigenIPC{
 
             bool _force_reconnection = false;
 
+            bool _holds_server = false; // true from construction to closure:
+            // this server owns the name (i.e. it holds the server semaphore)
+
             bool _holds_data = false; // true from construction to the
             // first run(): the server itself holds the data semaphore
 
@@ -172,7 +175,8 @@ namespace EigenIPC{
             void _initDataMem();
             void _initMetaMem();
 
-            void _initSems();
+            void _initSrvrSem();
+            void _initDataSem();
 
             void _acquireSemTimeout(const std::string& sem_path,
                             sem_t*& sem,
@@ -195,6 +199,9 @@ namespace EigenIPC{
 
             void _closeSems();
 
+            void _init();
+            void _abortInit();
+
             void _cleanMetaMem();
             void _cleanMems();
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 27e3215..c6411be 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -482,11 +482,12 @@ namespace EigenIPC{
                     Journal& journal,
                     ReturnCode& return_code,
                     bool verbose = true,
-                    VLevel vlevel = Journal::VLevel::V0) {
+                    VLevel vlevel = Journal::VLevel::V0,
+                    unsigned int init_val = 1) {
 
             sem = sem_open(sem_path.c_str(),
                                   O_CREAT, S_IRUSR | S_IWUSR,
-                                  1); // initial val to 1 -> binary semaphore
+                                  init_val); // 1 -> (free) binary semaphore
 
             if (sem == SEM_FAILED) {
                 // Handle semaphore creation error
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 986e83b..c7bea6c 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -102,13 +102,47 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
-        _initSems(); // creates necessary semaphores
+        try {
 
-        _acquireSemTimeout(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); 
+            _init();
 
-        _holds_data = true;
+        } catch (...) {
+
+            _abortInit(); // the destructor won't be called
+
+            throw;
+        }
+
+        _terminated = false; // just in case
+
+        if (_verbose &&
+            _vlevel > VLevel::V1) {
+
+            std::string info = std::string("Server at ") +
+                    _mem_config.mem_path + std::string(" initialized. Ready to run");
+
+            _journal.log(__FUNCTION__,
+                info,
+                LogType::STAT);
+
+        }
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_init()
+    {
+
+        _initSrvrSem();
+
+        _acquireSemTimeout(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose); // fails if another server exists on this memory.
+        // From this point on and until this server is closed, other servers will fail
+
+        _holds_server = true;
+
+        _initDataSem(); // no client can access the memory before run()
 
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
@@ -133,17 +167,26 @@ namespace EigenIPC {
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
-        _terminated = false; // just in case
+    }
 
-        if (_verbose &&
-            _vlevel > VLevel::V1) {
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_abortInit()
+    {
 
-            std::string info = std::string("Server at ") +
-                    _mem_config.mem_path + std::string(" initialized. Ready to run");
+        if (_holds_server) {
 
-            _journal.log(__FUNCTION__,
-                info,
-                LogType::STAT);
+            _cleanMems(); // nobody else can have been using this memory
+
+        } else {
+
+            // the memory belongs to another server: only drop our handle
+
+            MemUtils::semClose(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel);
 
         }
 
@@ -213,12 +256,6 @@ namespace EigenIPC {
 
         if (!isRunning()) {
             
-            _acquireSemTimeout(_mem_config.mem_path_server_sem,
-                        _srvr_sem,
-                        _verbose); // blocking. from this point on, 
-            // other servers trying to transition to running state will fail
-            // due to the sever semaphore being acquired
-
             if (_holds_data) {
 
                 // only the first time: after a stop the data semaphore is not
@@ -261,13 +298,6 @@ namespace EigenIPC {
             _running = false;
             _isrunning_view(0, 0) = 0; // for the clients
 
-            MemUtils::releaseSem(_mem_config.mem_path_server_sem,
-                                _srvr_sem,
-                                _journal,
-                                _return_code,
-                                _verbose,
-                                _vlevel);
-
         }
 
     }
@@ -941,9 +971,11 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_initSems()
+    void Server<Scalar, Layout>::_initSrvrSem()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
                           _journal,
@@ -951,12 +983,44 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__,
+                                   _mem_config.mem_path_server_sem);
+
+        }
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_initDataSem()
+    {
+
+        _return_code = _return_code + ReturnCode::RESET;
+
+        sem_unlink(_mem_config.mem_path_data_sem.c_str()); // whatever is there
+        // was left by a server which is gone
+
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
                           _journal,
                           _return_code,
                           _verbose,
-                          _vlevel);
+                          _vlevel,
+                          0); // created as acquired by this server
+
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__,
+                                   _mem_config.mem_path_data_sem);
+
+        }
+
+        _holds_data = true;
 
     }
 
@@ -966,16 +1030,28 @@ namespace EigenIPC {
         // closes semaphores and also unlinks it
         // Other processes who had it open can still use it, but no new
         // process can access it
-        MemUtils::semClose(_mem_config.mem_path_server_sem,
-                           _srvr_sem,
+
+        if (_holds_data) {
+
+            // never run: do not leave anybody waiting for it
+            sem_post(_data_sem);
+
+            _holds_data = false;
+
+        }
+
+        MemUtils::semClose(_mem_config.mem_path_data_sem,
+                           _data_sem,
                            _journal,
                            _return_code,
                            _verbose,
                            _vlevel,
                            true);
 
-        MemUtils::semClose(_mem_config.mem_path_data_sem,
-                           _data_sem,
+        // last (and without releasing it), so that a new server can only take
+        // over the name when nothing of this one is left
+        MemUtils::semClose(_mem_config.mem_path_server_sem,
+                           _srvr_sem,
                            _journal,
                            _return_code,
                            _verbose,
-- 
2.43.0


From 84c762a7842b85500e69c7815430870dcbdaef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 05/42] fix: closing a server left its data memory in the
 system

---
 EigenIPC/src/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c7bea6c..6c27371 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -808,7 +808,8 @@ namespace EigenIPC {
                                  _journal,
                                  _return_code,
                                  _verbose,
-                                 _vlevel);
+                                 _vlevel,
+                                 _unlink_data);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 8053ccc2b9695e8121d69b0520d33397dad811c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 06/42] fix: closing a server leaked the descriptor of its
 running flag

---
 EigenIPC/src/Server.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 6c27371..411e13a 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -781,6 +781,14 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // never unlinked: waiting clients watch it
+
         MemUtils::cleanUpMem(_mem_config.mem_path_mem_layout,
                              _mem_layout_shm_fd,
                              _journal,
-- 
2.43.0


From eaf913e7acded8a24332e73ead62b43d3297f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 07/42] fix: clients of a crashed server changed the client
 count of its successor

A new server re-used the metadata left behind, the counter included, so
that leftover clients detaching decreased the new server's count.
---
 EigenIPC/include/EigenIPC/Server.hpp |  1 +
 EigenIPC/src/Server.cpp              | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 3f09ec2..a24c38a 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -173,6 +173,7 @@ namespace EigenIPC{
             std::string _getThisName();
 
             void _initDataMem();
+            void _dropStaleMetaMem();
             void _initMetaMem();
 
             void _initSrvrSem();
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 411e13a..d34759f 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -161,6 +161,8 @@ namespace EigenIPC {
         _initDataMem();
 
         // auxiliary data
+        _dropStaleMetaMem();
+
         _initMetaMem();
 
         _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
@@ -844,6 +846,24 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_dropStaleMetaMem()
+    {
+        // what a server which is gone without closing left: it might still be
+        // mapped by clients of that server, which are not to change ours
+
+        for (const std::string& mem_path : {_mem_config.mem_path_nrows,
+                                            _mem_config.mem_path_ncols,
+                                            _mem_config.mem_path_clients_counter,
+                                            _mem_config.mem_path_dtype,
+                                            _mem_config.mem_path_mem_layout}) {
+
+            shm_unlink(mem_path.c_str()); // (fails if there's nothing)
+
+        }
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initMetaMem()
     {
-- 
2.43.0


From 28b97802f4353211420e388fc7f8445e271e6ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 08/42] fix: failures to set up the data memory or a semaphore
 were ignored

The outcome of the data memory's initialisation was checked before it
was attempted, leaving a null tensor behind, and a forced server recursed
endlessly when its semaphore could not be recreated.
---
 EigenIPC/src/Client.cpp   | 16 ++++++++--------
 EigenIPC/src/MemUtils.hpp |  9 +++++++++
 EigenIPC/src/Server.cpp   | 17 ++++++++---------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 325e9b2..fae3e6a 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -803,14 +803,7 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
                             _n_cols,
                             _mem_config.mem_path,
                             _data_shm_fd,
@@ -820,6 +813,13 @@ namespace EigenIPC {
                             _verbose,
                             _vlevel);
 
+        if (!isin(ReturnCode::MEMCREATFAIL,
+                _return_code) &&
+            !isin(ReturnCode::MEMSETFAIL,
+                _return_code) &&
+            !isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
+
             _return_code = _return_code + ReturnCode::RESET;
 
         }
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index c6411be..225f6ba 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -881,6 +881,15 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (sem == SEM_FAILED) {
+
+                        // could not be recreated: nothing to acquire
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return;
+
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index d34759f..7c56677 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -968,15 +968,7 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
                             _n_cols,
                             _mem_config.mem_path,
                             _data_shm_fd,
@@ -986,6 +978,13 @@ namespace EigenIPC {
                             _verbose,
                             _vlevel);
 
+        if (!isin(ReturnCode::MEMCREATFAIL,
+                _return_code) &&
+            !isin(ReturnCode::MEMSETFAIL,
+                _return_code) &&
+            !isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
+
             _return_code = _return_code + ReturnCode::RESET;
 
         }
-- 
2.43.0


From 0002383e32f52c49d1631436f19763adcdbca092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 09/42] fix: a client of another element type of the same size
 was not refused

int and float tensors were told apart by element size only.
---
 EigenIPC/src/Client.cpp   | 10 ++++------
 EigenIPC/src/MemUtils.hpp |  9 +++++++++
 EigenIPC/src/Server.cpp   |  2 +-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index fae3e6a..22512ed 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -520,13 +520,11 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != MemUtils::dtypeCode<Scalar>()) {
 
-            // not impeccable: different types may have in general different sizes
-
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
+            std::string error = std::string("Client initialized with element type ") +
+                    std::to_string(MemUtils::dtypeCode<Scalar>()) +
+                    std::string(", while the Server was initialized with type ") +
                     std::to_string(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 225f6ba..25f2c9e 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -52,6 +52,15 @@ namespace EigenIPC{
                 std::is_same<Scalar, typename DTypeToCppType<DType::Bool>::type>::value;
         };
 
+        template <typename Scalar>
+        constexpr int dtypeCode() {
+
+            // how the element type is represented in the shared metadata
+            // (never 0, which is what uninitialized memory holds)
+            return static_cast<int>(CppTypeToDType<Scalar>::value) + 1;
+
+        }
+
         inline std::string getLayoutName(int layout) {
 
             switch(layout) {
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 7c56677..12383ea 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -947,7 +947,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = MemUtils::dtypeCode<Scalar>();
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 4efb0137423353969967a88a24d9fb8417c4b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 10/42] fix: a client attaching while its server is replaced or
 of another type

Attach created and resized the server's memory and semaphores with
whatever dimensions it had read before the server was (re)created, a
refused client kept the data semaphore forever, attaching twice counted
twice. Attach now only opens what the server created, verifies under the
data semaphore that everything it opened belongs to the server that is
running, waits again otherwise, and always releases the semaphore.
---
 EigenIPC/include/EigenIPC/Client.hpp |   7 +-
 EigenIPC/src/Client.cpp              | 213 ++++++++++++++++++++++-----
 EigenIPC/src/MemUtils.hpp            |  14 +-
 3 files changed, 191 insertions(+), 43 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 890e120..4543f3b 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -186,6 +186,10 @@ namespace EigenIPC{
 
             void _waitForServer();
 
+            bool _tryAttach();
+            void _openServerMem();
+            bool _serverIsCurrent();
+
             std::string _getThisName(); // used to get this class
             // name
 
@@ -194,9 +198,10 @@ namespace EigenIPC{
             // consistent with Server
 
             void _initDataMem();
+            void _initRunningFlag();
             void _initMetaMem();
 
-            void _initSems();
+            bool _openDataSem();
 
             void _closeSems();
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 22512ed..7d0e2c1 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,49 +118,144 @@ namespace EigenIPC {
 
         }
 
+        detach(); // if attached already, leaves that server first
+
         _terminated = false; // there's something to be cleaned up from now on
 
-        _initMetaMem(); // initializes meta-memory
+        _initRunningFlag();
+
+        while (!_tryAttach()) {
+
+            // the server went away in the meantime (it might be replaced by another one)
+
+            std::this_thread::sleep_for(std::chrono::milliseconds(1)); // no busy wait
+
+        }
+
+        _attached = true;
+
+        if (_verbose &&
+            _vlevel > VLevel::V1) {
 
+            std::string info = std::string("Client at ") +
+                    _mem_config.mem_path + std::string(" initialized and attached.");
+
+            _journal.log(__FUNCTION__,
+                 info,
+                 LogType::STAT);
+
+        }
+    }
+
+    template <typename Scalar, int Layout>
+    bool Client<Scalar, Layout>::_tryAttach()
+    {
         _waitForServer();  // waits until server is properly initialized
 
-        _initSems(); // creates necessary semaphores
+        if (!_openDataSem()) {
+
+            return false;
+        }
 
         // acquire shared data semaphore or waits for it
-        // (at this point is actually guaranteed to be free anyway)
         _acquireData(true, true); // blocking
 
+        bool success = false;
+
+        try {
+
+            success = _serverIsCurrent();
+
+            if (success) {
+
+                _openServerMem();
+
+                success = _serverIsCurrent(); // i.e. everything was the same server's
+            }
+
+            if (success) {
+
+                _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+            }
+
+        } catch (...) {
+
+            bool is_current = true;
+
+            try {
+
+                is_current = _serverIsCurrent();
+
+            } catch (...) { }
+
+            _releaseData();
+
+            if (is_current) {
+
+                throw;
+            }
+
+            return false;
+
+        }
+
+        // releasing data semaphore so that other clients/the server can access the tensor
+        _releaseData();
+
+        return success;
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_openServerMem()
+    {
+        _initMetaMem(); // opens meta-memory
+
         _checkDType(); // checks data type consistency
 
         _checkMemLayout(); // checks memory layout consistency
 
         _n_rows = _n_rows_view(0, 0);
         _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
-        // we have now all the info to create the shared tensor
+        // we have now all the info to open the shared tensor
         _initDataMem();
 
         _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
-        // releasing data semaphore so that other clients/the server can access the tensor
-        _releaseData();
+    }
 
-        _attached = true;
+    template <typename Scalar, int Layout>
+    bool Client<Scalar, Layout>::_serverIsCurrent()
+    {
+        // whether the server whose data semaphore we opened is
+        // (still) running and owning the name
 
-        if (_verbose &&
-            _vlevel > VLevel::V1) {
+        if (!(_isrunning_view(0, 0) > 0)) {
 
-            std::string info = std::string("Client at ") +
-                    _mem_config.mem_path + std::string(" initialized and attached.");
+            return false;
+        }
 
-            _journal.log(__FUNCTION__,
-                 info,
-                 LogType::STAT);
+        sem_t* current_sem = sem_open(_mem_config.mem_path_data_sem.c_str(), 0);
+
+        if (current_sem == SEM_FAILED) {
 
+            if (errno == ENOENT) {
+
+                return false;
+            }
+
+            MemUtils::failWithCode(ReturnCode::SEMOPENFAIL,
+                                   _journal,
+                                   __FUNCTION__);
         }
+
+        sem_close(current_sem); // only drops the reference we just got
+
+        return current_sem == _data_sem; // same semaphore -> same address
+
     }
 
     template <typename Scalar, int Layout>
@@ -809,7 +904,8 @@ namespace EigenIPC {
                             _journal,
                             _return_code,
                             _verbose,
-                            _vlevel);
+                            _vlevel,
+                            false);
 
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
@@ -831,6 +927,38 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_initRunningFlag()
+    {
+        _return_code = _return_code + ReturnCode::RESET;
+
+        // the only memory created if necessary, to wait for the server
+        MemUtils::initMem<bool>(1,
+                        1,
+                        _mem_config.mem_path_isrunning,
+                        _isrunning_shm_fd,
+                        _isrunning_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initMetaMem()
     {
@@ -846,7 +974,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false);
 
         MemUtils::initMem<int>(1,
                         1,
@@ -856,7 +985,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false);
 
         MemUtils::initMem<int>(1,
                         1,
@@ -866,7 +996,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false);
 
         MemUtils::initMem<int>(1,
                         1,
@@ -876,17 +1007,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
-
-        MemUtils::initMem<bool>(1,
-                        1,
-                        _mem_config.mem_path_isrunning,
-                        _isrunning_shm_fd,
-                        _isrunning_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false);
 
         MemUtils::initMem<int>(1,
                         1,
@@ -896,7 +1018,8 @@ namespace EigenIPC {
                         _journal,
                         _return_code,
                         _verbose,
-                        _vlevel);
+                        _vlevel,
+                        false);
 
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
@@ -919,15 +1042,29 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Client<Scalar, Layout>::_initSems()
+    bool Client<Scalar, Layout>::_openDataSem()
     {
 
-        MemUtils::semInit(_mem_config.mem_path_data_sem,
-                          _data_sem,
-                          _journal,
-                          _return_code,
-                          _verbose,
-                          _vlevel);
+        _closeSems(); // if open already
+
+        // never created here: that's up to the server
+        _data_sem = sem_open(_mem_config.mem_path_data_sem.c_str(), 0);
+
+        if (_data_sem == SEM_FAILED) {
+
+            _data_sem = nullptr;
+
+            if (errno == ENOENT) {
+
+                return false; // no server
+            }
+
+            MemUtils::failWithCode(ReturnCode::SEMOPENFAIL,
+                                   _journal,
+                                   __FUNCTION__);
+        }
+
+        return true;
 
     }
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 25f2c9e..82b2876 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -22,6 +22,7 @@
 #include <string>
 #include <stdexcept>
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <semaphore.h>
@@ -112,7 +113,8 @@ namespace EigenIPC{
             Journal& journal,
             ReturnCode& return_code,
             bool verbose = true,
-            VLevel vlevel = Journal::VLevel::V0
+            VLevel vlevel = Journal::VLevel::V0,
+            bool create = true // if false, memory has to exist with the right size
             ){
 
             // Determine the size based on the Scalar type
@@ -129,7 +131,7 @@ namespace EigenIPC{
 
             // Create shared memory
             shm_fd = shm_open(mem_path.c_str(),
-                              O_CREAT | O_RDWR,
+                              create ? O_CREAT | O_RDWR : O_RDWR,
                               S_IRUSR | S_IWUSR);
 
             if (shm_fd == -1) {
@@ -150,8 +152,12 @@ namespace EigenIPC{
 
             }
 
-            // Set size
-            if (ftruncate(shm_fd, data_size) == -1) {
+            // Set size (or check that it's the expected one)
+            struct stat mem_stat;
+
+            if (create ? ftruncate(shm_fd, data_size) == -1 :
+                    (fstat(shm_fd, &mem_stat) == -1 ||
+                     mem_stat.st_size != static_cast<off_t>(data_size))) {
 
                 if (verbose) {
 
-- 
2.43.0


From 40ee68535b7e6a4ce1174f35258da149ce7c9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 11/42] fix: inspecting the memory of a string tensor closed it

getSharedMem returned a copy of the server or client, whose destruction
closed and unlinked the memory.
---
 .../bindings/PyEigenIPC/src/PyStringTensor.cpp   | 16 ++++++----------
 EigenIPC/include/EigenIPC/StringTensor.hpp       |  3 ++-
 EigenIPC/src/StringTensor.cpp                    |  4 ++--
 3 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..6ab1333 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -122,13 +122,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) -> EigenIPC::StrServer& {
             
-            EigenIPC::StrServer str_server = self.getSharedMem();
+            return self.getSharedMem();
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 
@@ -226,13 +224,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) -> EigenIPC::StrClient& {
             
-            EigenIPC::StrClient str_server = self.getSharedMem();
+            return self.getSharedMem();
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 }
diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 7bf1d86..4c2f367 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -100,7 +100,8 @@ namespace EigenIPC {
 
             int getLength();
 
-            ShMemType getSharedMem();
+            ShMemType& getSharedMem(); // not to be copied: a copy would close
+            // the memory when destroyed
 
             std::string getNamespace() const;
             std::string getBasename() const;
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..d9e6a6c 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -121,13 +121,13 @@ namespace EigenIPC {
     }
     
     template <>
-    StrServer StringTensor<StrServer>::getSharedMem() {
+    StrServer& StringTensor<StrServer>::getSharedMem() {
 
         return _sh_mem;
     }
 
     template <>
-    StrClient StringTensor<StrClient>::getSharedMem() {
+    StrClient& StringTensor<StrClient>::getSharedMem() {
 
         return _sh_mem;
     }
-- 
2.43.0


From 9ed919628f948e4ef2c085b123a00714665a8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 12/42] fix: a closed string tensor still claimed to be running

A closed client could also not be run (i.e. attached) again.
---
 EigenIPC/src/StringTensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index d9e6a6c..2c52e35 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -262,6 +262,8 @@ namespace EigenIPC {
     template <typename ShMemType>
     void StringTensor<ShMemType>::close() {
 
+        _running = false;
+
         _sh_mem.close();
 
     }
-- 
2.43.0


From 6ca2fb68ac612272d08bfda10ce5558948ff58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 13/42] fix: too long strings and negative positions overran
 the string buffer

---
 EigenIPC/include/EigenIPC/StringTensor.hpp |  2 ++
 EigenIPC/src/StringTensor.cpp              | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 4c2f367..01ecfec 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -148,6 +148,8 @@ namespace EigenIPC {
                                   VLevel vlevel,
                                   bool safe);
 
+            bool _fits(const std::string& str);
+
             bool _fits(const std::vector<std::string>& vec,
                        int index);
 
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 2c52e35..711bedd 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -218,7 +218,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            !_fits(str)) {
 
             return false;
         }
@@ -287,6 +288,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) { // before touching the buffer
+
+            if (!_fits(str)) {
+
+                return false;
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -369,11 +378,18 @@ namespace EigenIPC {
         return true;
     }
 
+    template <typename ShMemType>
+    bool StringTensor<ShMemType>::_fits(const std::string& str) {
+
+        return str.size() <= static_cast<size_t>(_max_chars);
+
+    }
+
     template <typename ShMemType>
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index + vec.size() > _length) {
 
             return false;
         }
-- 
2.43.0


From 3b76d77f16dd8b49ee270395d9027bc61a611af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 14/42] fix: StringTensorServer.read_str could not be called
 from Python

It was bound to the client's type.
---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 6ab1333..7623301 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From 888cb27afa2e7e5b57ca85c5829326b9a56df2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 15/42] fix: a producer missed acknowledgements if more than
 awaited were given

It then waited forever (or until its timeout) as the count never matched again.
---
 EigenIPC/src/Producer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6a81a8b..246da73 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -203,7 +203,7 @@ namespace EigenIPC {
                 true); // throw exception
         }
 
-        if ((_ack_counter(0, 0) - _acks_before) == n_consumers) {
+        if ((_ack_counter(0, 0) - _acks_before) >= n_consumers) {
             
             _acks_before = _ack_counter(0, 0);
             
-- 
2.43.0


From 3f456416dbc24ce179b5eb45c6abd3eb746b0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 16/42] fix: wait_and_ack reported success although its
 callback had failed

---
 EigenIPC/src/Consumer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..a3ef90d 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -120,28 +120,28 @@ namespace EigenIPC {
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
+        int fail_count = 0; // (ack() resets _fail_count)
         
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
+            fail_count += 1;
 
         } else {
 
             if (!pre_ack()) {
 
-                _fail_count += 1;
+                fail_count += 1;
             }
 
             if (!ack()) { 
 
-                _fail_count += 1;
+                fail_count += 1;
 
             }
 
         } 
 
-        return _fail_count == 0;
+        return fail_count == 0;
     }
 
     bool Consumer::ack() {
-- 
2.43.0


From 0e2530e986910a9bb94b6bcf838edf464523b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 17/42] fix: closed producers and consumers kept running and
 kept their names

Operations after close used closed memory and a new producer could not
be started until the closed one was destroyed.
---
 EigenIPC/src/Consumer.cpp |  2 ++
 EigenIPC/src/Producer.cpp | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index a3ef90d..ff5f6d8 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -86,6 +86,8 @@ namespace EigenIPC {
             _trigger_counter_clnt.close();
             _ack_counter_clnt.close();
 
+            _is_running = false;
+
             _closed = true;
         }
     }
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 246da73..6619b82 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -44,7 +44,7 @@ namespace EigenIPC {
             force_reconnection, 
             false),
         _ack_counter(1, 1),
-        _closed(true),
+        _closed(false),
         _basename(basename),
         _namespace(name_space),
         _unique_id(std::string("->")+ basename+std::string("-")+name_space),
@@ -60,6 +60,15 @@ namespace EigenIPC {
 
     void Producer::run() {
 
+        if (_closed) {
+
+            _journal.log(__FUNCTION__+_unique_id,
+                "Was closed and cannot be run again.",
+                LogType::EXCEP, 
+                true); // throw exception
+
+        }
+
         if (!_is_running) {
 
             _create_cond_vars(); // we first create the condition variables
@@ -70,7 +79,6 @@ namespace EigenIPC {
             _init_counters();
 
             _is_running = true;
-            _closed = false;
 
             _acks_before = 0;
 
@@ -90,6 +98,13 @@ namespace EigenIPC {
 
         if (!_closed) {
             
+            _is_running = false;
+
+            // removed while we still own the counters' names, so that
+            // those of a new producer cannot be affected
+            _trigger_cond_ptr.reset();
+            _ack_cond_ptr.reset();
+
             _trigger_counter_srvr.close();
             _ack_counter_srvr.close();
 
-- 
2.43.0


From 9c8899edca542e143d4fa89e5f8d61a19370ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 18/42] fix: reading into a read-only numpy array overwrote it

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 2 +-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 1363e69..7cd7283 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -69,7 +69,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 1444532..36c9e41 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -68,7 +68,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
-- 
2.43.0


From f6b469204c66003b1e29aecbdb37b1b5a98bc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 19/42] fix: numpy arrays with strides of partial elements were
 accessed at wrong addresses

---
 .../PyEigenIPC/src/PyEigenIPCUtils.hpp        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..f9bb327 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -50,6 +50,25 @@ namespace PyEigenIPC {
 
             } // we restrict ourselves to work with only 2D tensors
 
+            if (buf_info.strides[0] % buf_info.itemsize != 0 ||
+                    buf_info.strides[1] % buf_info.itemsize != 0) {
+
+                // elements cannot be addressed in steps of whole elements (e.g. a field
+                // of a structured array)
+
+                std::string message = std::string("Strides of the provided array are not ") +
+                        std::string("multiples of its item size. Got ") +
+                        std::to_string(buf_info.strides[0]) +
+                        std::string(", ") + std::to_string(buf_info.strides[1]);
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            message,
+                            LogType::EXCEP);
+
+                return false;
+            }
+
 
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
-- 
2.43.0


From a0535db767d581ecab816b4c26d6a923f4bd17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 20/42] fix: SharedTWrapper could not read a block without a
 torch view

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 2a4d1d0a98b007c01834a311595917285c195ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 21/42] fix: a dictionary client starting with its server could
 see no names or dimensions

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..c042e2f 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -220,11 +220,23 @@ class SharedTensorDict():
 
     def run(self):
         
-        self.data.run()
+        if self.is_server:
+
+            # data is what clients wait for first: names and dimensions
+            # have to be there already when it becomes available
+            self.shared_names.run()
+
+            self.shared_dims.run()
+
+            self.data.run()
 
-        self.shared_names.run()
+        else:
+
+            self.data.run()
+
+            self.shared_names.run()
 
-        self.shared_dims.run()
+            self.shared_dims.run()
 
         if not self.is_server:
 
-- 
2.43.0


From 68586aa646fcaeb7f18ee44276fff04197de0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 22/42] fix: stale contents survived when checking for them was
 refused

---
 EigenIPC/src/MemUtils.hpp | 16 ++++++++++++++++
 EigenIPC/src/Server.cpp   |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 82b2876..5ada0aa 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -338,6 +338,22 @@ namespace EigenIPC{
 
                 }
 
+            } else if (errno != ENOENT) {
+
+                // we don't know what's there (it might be stale data)
+
+                if (verbose) {
+
+                    std::string error = "Could not check shared memory at " +
+                            mem_path;
+
+                    journal.log(__FUNCTION__,
+                        error,
+                        LogType::EXCEP);
+                }
+
+                return_code = return_code + ReturnCode::MEMCREATFAIL;
+
             }
 
         }
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 12383ea..26ba69b 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -155,6 +155,14 @@ namespace EigenIPC {
                             _unlink_data); // checks if memory was already allocated
         // if yes, cleans it up
 
+        if (isin(ReturnCode::MEMCREATFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__,
+                                   _mem_config.mem_path);
+        }
+
         _return_code = _return_code + ReturnCode::RESET;
 
         // data memory
-- 
2.43.0


From 35dc6b1dd054118bde06d8618fa098a5bc453c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 23/42] fix: a view of negative size was created instead of
 refused

---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From 1c97ac095383bc0aed5d7f1fef31924384e46b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:28 +0000
Subject: [PATCH 24/42] fix: acknowledgements given while the producer was
 still starting were lost

---
 EigenIPC/src/Producer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6619b82..580d97c 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -73,9 +73,6 @@ namespace EigenIPC {
 
             _create_cond_vars(); // we first create the condition variables
 
-            _trigger_counter_srvr.run();
-            _ack_counter_srvr.run();
-
             _init_counters();
 
             _is_running = true;
@@ -177,6 +174,13 @@ namespace EigenIPC {
     void Producer::_init_counters() {
 
         ScopedLock trigger_lock = _trigger_cond_ptr->lock();
+        ScopedLock ack_lock = _ack_cond_ptr->lock();
+
+        // consumers can start as soon as the counters run: both are locked, so
+        // that their acknowledgements come after the initialization
+        _trigger_counter_srvr.run();
+        _ack_counter_srvr.run();
+
         _trigger_counter(0, 0) = 0; // initialize shared counter to 0
         if (!_trigger_counter_srvr.write(_trigger_counter, 0, 0)) {
             _journal.log(__FUNCTION__+_unique_id,
@@ -185,7 +189,6 @@ namespace EigenIPC {
                 true); // throw exception
         }
 
-        ScopedLock ack_lock = _ack_cond_ptr->lock();
         _ack_counter(0, 0) = 0; // initialize shared counter to 0
         if (!_ack_counter_srvr.write(_ack_counter, 0, 0)) {
             _journal.log(__FUNCTION__+_unique_id,
-- 
2.43.0


From de730bf10e043e0b4009467bc2cf04562a61995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 25/42] fix: accept arrays with a single row or column for
 tensors of either layout

The exported strides of such arrays say nothing about their order, but column-major
tensors refused contiguous arrays with one row.
---
 EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index f9bb327..38b598b 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -70,7 +70,10 @@ namespace PyEigenIPC {
             }
 
 
-            if ((Layout == EigenIPC::RowMajor) &&
+            // (the order of the elements is only defined if there are several rows and columns)
+            bool has_order = buf_info.shape[0] > 1 && buf_info.shape[1] > 1;
+
+            if ((Layout == EigenIPC::RowMajor) && has_order &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
@@ -91,7 +94,7 @@ namespace PyEigenIPC {
                 return false;
             }
 
-            if ((Layout == EigenIPC::ColMajor) &&
+            if ((Layout == EigenIPC::ColMajor) && has_order &&
                     (buf_info.strides[0] > buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
-- 
2.43.0


From 92e13892c44f36175df8669dafce683058374603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 26/42] fix: do not convert arrays of another type in the typed
 server and client classes

Reading into such an array filled a converted copy, reported success and left the
array as it was; writing truncated silently. The wrappers refuse both.
---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 4 ++--
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 7cd7283..ba92f1f 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -58,7 +58,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg().noconvert(), pybind11::arg(), pybind11::arg())
 
         .def("read", [](EigenIPC::Client<Scalar, Layout>& self,
                        PyEigenIPC::NumpyArray<Scalar>& arr,
@@ -90,7 +90,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg().noconvert(), pybind11::arg(), pybind11::arg())
 
         .def("attach", &EigenIPC::Client<Scalar, Layout>::attach)
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 36c9e41..e7575f9 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -57,7 +57,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg().noconvert(), pybind11::arg(), pybind11::arg())
 
         .def("read", [](EigenIPC::Server<Scalar, Layout>& self,
                        PyEigenIPC::NumpyArray<Scalar>& arr,
@@ -89,7 +89,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg().noconvert(), pybind11::arg(), pybind11::arg())
 
         .def("run", &EigenIPC::Server<Scalar, Layout>::run)
 
-- 
2.43.0


From a8e487cbf54d65d90965c34e154005dac0880313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 27/42] fix: leave the caller's list alone when strings cannot
 be read

read_vec cleared the list before converting, so that a string which is not valid
UTF-8 left it with part of the strings.
---
 .../PyEigenIPC/src/PyStringTensor.cpp         | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 7623301..deb8b80 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -79,10 +79,18 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             // Call the C++ method
             bool success = self.read(result_vec, index);
 
-            // Clear the original Python list and refill with updated values
-            py_list.attr("clear")();
-            for (auto& str : result_vec) {
-                py_list.append(str);
+            if (success) {
+
+                // Convert everything before touching the original Python list
+                // (strings which are not valid UTF-8 cannot be converted)
+                py::list updated;
+                for (auto& str : result_vec) {
+                    updated.append(str);
+                }
+
+                // Clear the original Python list and refill with updated values
+                py_list.attr("clear")();
+                py_list.attr("extend")(updated);
             }
 
             return success;
@@ -181,10 +189,18 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
             // Call the C++ method
             bool success = self.read(result_vec, index);
 
-            // Clear the original Python list and refill with updated values
-            py_list.attr("clear")();
-            for (auto& str : result_vec) {
-                py_list.append(str);
+            if (success) {
+
+                // Convert everything before touching the original Python list
+                // (strings which are not valid UTF-8 cannot be converted)
+                py::list updated;
+                for (auto& str : result_vec) {
+                    updated.append(str);
+                }
+
+                // Clear the original Python list and refill with updated values
+                py_list.attr("clear")();
+                py_list.attr("extend")(updated);
             }
 
             return success;
-- 
2.43.0


From 9babe0cd7181f9164521d7a4f8fad6cf0b1dfb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 28/42] fix: retrying on blocks outside of a shared view, or on
 a closed one, never returned

---
 .../PyEigenIPC/wrappers/shared_data_view.py   | 55 +++++++++++++++----
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 88417cb..96771be 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -93,6 +93,19 @@ class SharedTWrapper:
         else:
             return False
 
+    def _is_inside(self,
+                row_index: int, 
+                col_index: int,
+                n_rows: int = 1,
+                n_cols: int = 1):
+
+        # whether a (non-empty) block is within the view. Negative indexes would 
+        # be counted from the end by the view, but are refused by the shared memory
+        return row_index >= 0 and col_index >= 0 and \
+            n_rows > 0 and n_cols > 0 and \
+            row_index + n_rows <= self._numpy_view.shape[0] and \
+            col_index + n_cols <= self._numpy_view.shape[1]
+
     def _fits_into(self, 
                 data1, 
                 data2, 
@@ -107,7 +120,9 @@ class SharedTWrapper:
         end_col_index = col_index + data1.shape[1]
 
         # Check if data1 fits within the bounds of data2
-        return end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
+        return row_index >= 0 and col_index >= 0 and \
+            data1.shape[0] > 0 and data1.shape[1] > 0 and \
+            end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
 
     def _init_gpu_mirror(self):
         
@@ -197,6 +212,14 @@ class SharedTWrapper:
         if isinstance(data, (int, float, bool,
                             np.float32, np.float64)):  
             
+            if not self._is_inside(row_index, col_index):
+                message = "Provided position is not in numpy view!!"
+                Logger.log(self.__class__.__name__,
+                    "write",
+                    message,
+                    LogType.EXCEP,
+                    throw_when_excep = True)
+
             # write scalar into numpy view
             self._numpy_view[row_index, col_index] = data
             # write to shared memory
@@ -257,6 +280,14 @@ class SharedTWrapper:
             data = None):
             
         if data is None:
+            if not self._is_inside(row_index, col_index):
+                message = "Provided position is not in data view!!"
+                Logger.log(self.__class__.__name__,
+                    "read",
+                    message,
+                    LogType.EXCEP,
+                    throw_when_excep = True)
+
             # we return a scalar reading of the underlying shared memory
             success = self._shared_mem.read(self._numpy_view[row_index:row_index + 1, 
                 col_index:col_index + 1], row_index, col_index)
@@ -333,14 +364,8 @@ class SharedTWrapper:
         # synchs a block of the internal views from shared memory
         # or vice-versa
         
-        # Calculate ending indices
-        end_row_index = row_index + n_rows
-        end_col_index = col_index + n_cols
-
         # Check if we are withing bounds
-        fits = (end_row_index <= self._numpy_view.shape[0] \
-            and end_col_index <= self._numpy_view.shape[1])
-        if not fits:
+        if not self._is_inside(row_index, col_index, n_rows, n_cols):
             return False
         
         if read:
@@ -361,13 +386,20 @@ class SharedTWrapper:
         n_cols: int,
         read: bool = True):
 
+        if not self._is_inside(row_index, col_index, n_rows, n_cols):
+            return False # would never succeed
+
         # tries synching until success
-        while not self.synch(row_index=row_index,
+        while self._shared_mem.isRunning():
+            
+            if self.synch(row_index=row_index,
                         col_index=col_index,
                         n_rows=n_rows,
                         n_cols=n_cols,
                         read=read):
-            continue
+                return True
+
+        return False
         
     def synch_all(self, 
             read: bool = True, 
@@ -376,10 +408,9 @@ class SharedTWrapper:
         # synch whole view from shared memory
         if retry:
 
-            self.synch_retry(row_index=0, col_index=0, 
+            return self.synch_retry(row_index=0, col_index=0, 
                         n_rows=self.n_rows, n_cols=self.n_cols, 
                         read=read)
-            return True
 
         else:
             
-- 
2.43.0


From 278ee8c21720529d57c4843d199f160bb4159277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 29/42] fix: retrying reads and writes of a shared view did not
 report whether they succeeded

---
 .../bindings/PyEigenIPC/wrappers/shared_data_view.py     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 96771be..199c379 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -268,11 +268,14 @@ class SharedTWrapper:
             col_index: int):
 
         # tries writing until success
-        while self._shared_mem.isRunning() and not self.write(data=data,
+        while self._shared_mem.isRunning():
+            
+            if self.write(data=data,
                     row_index=row_index,
                     col_index=col_index):
+                return True
             
-            continue
+        return False
 
     def read(self, 
             row_index: int, 
@@ -354,6 +357,8 @@ class SharedTWrapper:
             else:
                 continue
 
+        return None, False
+
     def synch(self, 
         row_index: int, 
         col_index: int, 
-- 
2.43.0


From b3f8664af5ece8a54e2b03fc4b067111ab6547bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 30/42] fix: a closed shared view still claimed to be running

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 199c379..645d6e8 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -506,6 +506,8 @@ class SharedTWrapper:
     
     def close(self):
 
+        self._is_running = False
+
         if self._shared_mem is not None:
 
             self._shared_mem.close()
\ No newline at end of file
-- 
2.43.0


From bb61f56a46e6c09ded3a2280cd3cd0622c00b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 31/42] fix: what clients wrote while a dictionary server was
 starting could be lost

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index c042e2f..8773b7a 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -8,6 +8,8 @@ from EigenIPC.PyEigenIPC import Journal, LogType
 
 import numpy as np
 
+import time
+
 from typing import List
 
 class SharedTensorDict():
@@ -222,14 +224,14 @@ class SharedTensorDict():
         
         if self.is_server:
 
-            # data is what clients wait for first: names and dimensions
-            # have to be there already when it becomes available
+            # clients are not ready before they have got the dimensions: everything
+            # else (also the initialization of the data) has to be done by then
             self.shared_names.run()
 
-            self.shared_dims.run()
-
             self.data.run()
 
+            self.shared_dims.run()
+
         else:
 
             self.data.run()
@@ -242,10 +244,23 @@ class SharedTensorDict():
 
             self.names = self.shared_names.names
             
-            # updates shared dims
-            self.shared_dims.synch_all(read=True, retry=True)
+            # updates shared dims. They are written after the dimensions' memory 
+            # has become available
+            while True:
+
+                if not self.shared_dims.synch_all(read=True, retry=True):
+
+                    raise Exception("Could not read dimensions on shared memory!")
+                
+                self.dimensions = self.shared_dims.get_numpy_mirror().flatten().tolist()
+
+                if min(self.dimensions) >= 0 and sum(self.dimensions) == self.data.n_rows:
+
+                    break
+
+                time.sleep(0.001)
 
-            self.dimensions = self.shared_dims.dims.flatten().tolist()
+            self.shared_dims.dims = self.shared_dims.get_numpy_mirror()[:, :].copy()
 
             self.n_dims = self.data.n_rows
             self.n_nodes = self.data.n_cols
-- 
2.43.0


From c0c06a24e3bdbe802058ad538aa24222a9139083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 32/42] fix: writing too many rows to a block of a dictionary
 overwrote the next block

---
 .../bindings/PyEigenIPC/wrappers/shared_tensor_dict.py   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 8773b7a..4eee460 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -285,6 +285,15 @@ class SharedTensorDict():
 
         data_2D = np.atleast_2d(data)
 
+        if data_2D.shape[0] > self.dimensions[data_idx]:
+
+            # would overwrite the following blocks
+            Journal.log(self.__class__.__name__,
+                "write",
+                f"Provided data does not fit in block {name}!!",
+                LogType.EXCEP,
+                throw_when_excep = True)
+
         if retry: 
 
             self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-- 
2.43.0


From 018a4f4b235406aed06ade997ff435b5f7cffbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 33/42] fix: writing to a closed dictionary was reported as
 done

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 4eee460..4bed33a 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -296,9 +296,7 @@ class SharedTensorDict():
 
         if retry: 
 
-            self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-            
-            return True
+            return self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
         
         else:
 
-- 
2.43.0


From fe80fb7fe47eeca1e3a11ef88b8e5572a268558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 34/42] fix: Ros2Subscriber never destroyed its subscriptions

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py
index 77225d3..df2ebf5 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/ros2_utils.py
@@ -99,6 +99,8 @@ class Ros2Subscriber(RosSubscriber):
                         # raw=False
                         )
 
+        return subscriber
+
     def _close(self):
 
         # called in the close()
-- 
2.43.0


From ae5c4e91a73b576bcd74d300d001d06f57e837fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 35/42] fix: a message of unexpected size left RosSubscriber
 locked forever

---
 .../PyEigenIPC/extensions/ros_bridge/abstractions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
index 00dd098..2713e2f 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
@@ -491,12 +491,16 @@ class RosSubscriber(ABC):
         
         self._writing_data = True
 
-        # write data (also updated numpy view)
+        try:
 
-        self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
+            # write data (also updated numpy view)
 
-        # "release" data 
-        self._writing_data = False
+            self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
+
+        finally:
+
+            # "release" data (also if the message is not of the expected size)
+            self._writing_data = False
                 
     def _got_metadata(self):
         
-- 
2.43.0


From c2902f9d6b3e0286054cdebb3bf0c3654c1ab00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 36/42] fix: boolean tensors could not be published on topics

---
 .../extensions/ros_bridge/abstractions.py     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
index 2713e2f..2ec54b4 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
@@ -84,9 +84,8 @@ class RosPublisher(ABC):
             self.np_data = np.full(shape=(self._n_rows, self._n_cols), fill_value=0, 
                                                 dtype=self._dtype)
             
-        self.ros_msg_view = toRosDType(numpy_dtype=self._dtype, 
-                                    is_array=True)(data=self.np_data.reshape(-1)) # changes in np_data
-        # also reflectin ros msg. Reshape needed because ros msg type need a 1D array
+        self.ros_msg_view = self._to_ros_msg() # changes in np_data
+        # also reflectin ros msg (not for booleans, which are published as integers)
 
         self._terminated = False
 
@@ -158,6 +157,17 @@ class RosPublisher(ABC):
                         LogType.EXCEP,
                         throw_when_excep = True)
                
+    def _to_ros_msg(self):
+
+        data = self.np_data.reshape(-1) # reshape needed because ros msg type need a 1D array
+
+        if self._dtype == np.bool_: # goes into an integer msg
+
+            data = data.astype(np.int32)
+
+        return toRosDType(numpy_dtype=self._dtype, 
+                        is_array=True)(data=data)
+
     def _write_metadata(self):
         
         int32_msg_rows = Int32()
@@ -183,14 +193,13 @@ class RosPublisher(ABC):
         # writes latest value in np_data
         # (ros_msg_view is a view)
 
-        if not copy:
+        if not copy and not self._dtype == np.bool_:
 
             self._ros_publishers[0].publish(self.ros_msg_view)
         
         else:
             
-            self._ros_publishers[0].publish(toRosDType(numpy_dtype=self._dtype, 
-                            is_array=True)(data=self.np_data.reshape(-1)))
+            self._ros_publishers[0].publish(self._to_ros_msg())
 
     def run(self):
         
-- 
2.43.0


From efe267150a3956eb11e60c732720e73c085ca598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 37/42] fix: FromRos appended a debugging suffix to the name of
 its server

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..92c4514 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -170,7 +170,7 @@ class FromRos():
                 # creating a shared mem server
                 self._server = ServerFactory(n_rows = self._subscriber.n_rows(), 
                             n_cols = self._subscriber.n_cols(),
-                            basename = self._basename + "AAAAAA",
+                            basename = self._basename,
                             namespace = self._namespace, 
                             verbose = self._verbose, 
                             vlevel = self._vlevel, 
-- 
2.43.0


From 4adebb18667bfdb318427b4246263bbba5cc99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 38/42] fix: running FromRos a second time raised
 UnboundLocalError

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 92c4514..7b5fd75 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -182,7 +182,7 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
-- 
2.43.0


From 0875117dc499f7539488d1ac16260c99c144e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 39/42] fix: FromRos could not be closed before running, and
 its update hung once closed

---
 .../PyEigenIPC/extensions/ros_bridge/from_ros.py   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 7b5fd75..7835a24 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -47,6 +47,8 @@ class FromRos():
 
         self._is_running = False
 
+        self._closed = False
+
         self._ros_backend = ros_backend
 
         self._check_backend()
@@ -158,7 +160,7 @@ class FromRos():
     
     def run(self):
 
-        if not self._is_running:
+        if not self._is_running and not self._closed:
 
             sub_success = self._subscriber.run() # tried to get metadata and initialize
             # data subscription
@@ -186,7 +188,15 @@ class FromRos():
 
     def close(self):
 
-        self._server.close()
+        self._is_running = False
+
+        self._closed = True
+
+        self._subscriber.close()
+
+        if self._server is not None:
+
+            self._server.close()
 
     def update(self):
         
-- 
2.43.0


From 810b087efed4a8f8c5a0cf8bf8e6cd7a27b4cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 40/42] fix: ToRos.update never returned once its client was
 closed

---
 .../PyEigenIPC/extensions/ros_bridge/to_ros.py     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..a60daab 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -85,7 +85,9 @@ class ToRos():
 
                 while not self._client.read(self._publisher.np_data[:, :], 0, 0):
                     
-                    continue
+                    if not self._client.isRunning(): # closed, will never succeed
+
+                        return False
 
             else:
 
@@ -95,7 +97,9 @@ class ToRos():
                     
                     if not read:
 
-                        continue
+                        if not self._client.isRunning(): # closed, will never succeed
+
+                            return False
                     
                     else:
                         
@@ -122,6 +126,8 @@ class ToRos():
                 else:
 
                     self._publisher.np_data[:, :] = self._client.get_raw_buffer()
+
+                    return True
             
     def _init_publisher(self):
 
@@ -238,6 +244,10 @@ class ToRos():
         
         success = self._synch_from_shared_mem() # updated publisher np view with shared memory
 
+        if not success:
+
+            return False
+
         if self._ros_backend == "ros2":
             
             self._publisher.pub_data(copy=True)
-- 
2.43.0


From 54d741d6ad031636ffe131fe81a3e75ff9a6c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 41/42] fix: ToRos.update never returned with a column-major
 client

---
 .../extensions/ros_bridge/to_ros.py           | 29 +++++++++++++++++--
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 12 ++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index a60daab..ec9296a 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -7,6 +7,9 @@ from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.defs import NamingConventions
 
 from EigenIPC.PyEigenIPC import Journal, VLevel, LogType
 from EigenIPC.PyEigenIPC import toNumpyDType, dtype
+from EigenIPC.PyEigenIPC import ColMajor
+
+import numpy as np
 
 class ToRos():
 
@@ -43,6 +46,8 @@ class ToRos():
         if isinstance(client, StringTensorClient):
             self._is_string_tensor = True
 
+        self._colmaj_buffer = None # only used with column-major clients
+
         self._strigtensor_length = None
         self._stringtensor_data = None
         self._stringtensor_raw_buffer = None
@@ -76,6 +81,26 @@ class ToRos():
                         LogType.EXCEP,
                         throw_when_excep = True)
     
+    def _read_tensor(self):
+
+        if self._client.getMemLayout() != ColMajor:
+
+            return self._client.read(self._publisher.np_data[:, :], 0, 0)
+
+        # column-major clients can only read into column-major arrays
+
+        if self._colmaj_buffer is None:
+
+            self._colmaj_buffer = np.zeros_like(self._publisher.np_data, order="F")
+
+        if not self._client.read(self._colmaj_buffer, 0, 0):
+
+            return False
+
+        self._publisher.np_data[:, :] = self._colmaj_buffer
+
+        return True
+
     def _synch_from_shared_mem(self,
                     retry: bool = True):
 
@@ -83,7 +108,7 @@ class ToRos():
             
             if not self._is_string_tensor:
 
-                while not self._client.read(self._publisher.np_data[:, :], 0, 0):
+                while not self._read_tensor():
                     
                     if not self._client.isRunning(): # closed, will never succeed
 
@@ -113,7 +138,7 @@ class ToRos():
             
             if not self._is_string_tensor:
 
-                return self._client.read(self._publisher.np_data[:, :], 0, 0)
+                return self._read_tensor()
 
             else:
                 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index ba92f1f..ef9f6ad 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -105,6 +105,8 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
         .def("getNRows", &EigenIPC::Client<Scalar, Layout>::getNRows)
 
         .def("getNCols", &EigenIPC::Client<Scalar, Layout>::getNCols)
+
+        .def("getMemLayout", &EigenIPC::Client<Scalar, Layout>::getMemLayout)
         
         .def("getNamespace", &EigenIPC::Client<Scalar, Layout>::getNamespace)
         .def("getBasename", &EigenIPC::Client<Scalar, Layout>::getBasename)
@@ -290,6 +292,16 @@ void PyEigenIPC::PyClient::bind_ClientWrapper(pybind11::module& m) {
 
     });
 
+    cls.def("getMemLayout", [](PyEigenIPC::ClientWrapper& wrapper) {
+
+        return wrapper.execute([&](pybind11::object& client) {
+
+            return client.attr("getMemLayout")().cast<int>();
+
+        });
+
+    });
+
     cls.def("getScalarType", [](PyEigenIPC::ClientWrapper& wrapper) {
 
         return wrapper.execute([&](pybind11::object& client) {
-- 
2.43.0


From 8f6a85072d9cc91bfe616fad76eb8f72729d5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 42/42] fix: ToRos.run failed with a client which was not yet
 attached

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index ec9296a..41df03e 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -257,7 +257,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0

