From 9e704e83b65b3cab4b7dcd9a8863ed0af78b09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 01/30] fix: print <unfinished> after a continued_cf statement
 with nested output

A nested debug statement inside the first (continued_cf) statement of a
continued message left unfinished_expected false, so that the next,
interrupting, statement did not flush the continued message first.
---
 src/debug.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..1bc30d3 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1037,8 +1037,9 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
   {
     // Allow a subsequent Dout(dc::continued (or dc::finish), ...).
     current->mask |= continued_expected_maskbit;
-    if ((current->mask & continued_maskbit))
-      unfinished_expected = true;
+    // If this is not the last part, then we want to print "<unfinished>" if next we see a start().
+    // Debug output that was nested inside this statement cleared it.
+    unfinished_expected = true;
     // If the `flush_cf' control flag is set, flush the ostream at every `finish()' though.
     if (debug_object.always_flush_is_on() || (current->mask & flush_cf) != 0)
     {
-- 
2.43.0


From 980ec1833dd6cbb2f11de3e968f44247af479426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 02/30] fix: write an interrupted continued message to its own
 stream

The text of an interrupted message was written to the stream selected by
the flags of the interrupting message.
---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 1bc30d3..9d43fd2 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -922,7 +922,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 #endif
     int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
-- 
2.43.0


From 285d9da9b2705b3c79caf0f885e33af950283d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 03/30] fix: do not hang in wait_cf when standard input is at
 end-of-file

---
 src/debug.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 9d43fd2..9bd47b2 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1125,7 +1125,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
       if (debug_object.interactive_)
       {
         *locked_os << std::flush;
-        while (std::cin.get() != '\n')
+        int c;
+        while ((c = std::cin.get()) != '\n' && c != std::char_traits<char>::eof())
           ;
       }
       if (locked_mutex)
-- 
2.43.0


From f7a7a71d6c186c046907884c2f987fbd16950e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 04/30] fix: do not write a stray character for an empty
 <continued> prefix

---
 src/debug.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 9bd47b2..3d0910e 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -58,10 +58,9 @@ class Buffer : public std::stringbuf
   {
     streampos_t old_in_pos = this->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
     this->pubseekpos(0, std::ios_base::in);
-    os->put(this->sgetc());
     int size = position_ - std::streampos(0);
-    for (int c = 1; c < size; ++c)
-      os->put(this->snextc());
+    for (int c = 0; c < size; ++c)
+      os->put(this->sbumpc());
     this->pubseekpos(old_in_pos, std::ios_base::in);
   }
 };
-- 
2.43.0


From d816e475052e4e0ff674c7b600951eeb9e8d0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 05/30] fix: do not use the thread specific data of another
 thread in writeto

The thread specific data of the thread that left an incomplete line was
accessed by whatever thread wrote next, unsynchronized with that thread
changing its color_off, and even after that thread terminated.
---
 include/libcwd/DebugObject.h |  5 ++++-
 src/debug.cxx                | 38 +++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 913b9cc..1d12d83 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -130,7 +130,10 @@ class DebugObject
   // Ostream destination and matching external lock, protected as one unit.
 
   Buffer* unfinished_oss_;
-  void const* newlineless_tsd_;
+  unsigned long newlineless_id_;            // The output id of the thread that wrote the current, incomplete, line, or 0.
+  char* newlineless_color_off_;             // A copy of the color_off string of that thread (malloc-ed).
+  std::size_t newlineless_color_off_size_;  // The size of that string.
+  // The above members are protected by the ostream lock of this debug object.
 
  private:
   //-------------------------------------------------------------------------------------------------
diff --git a/src/debug.cxx b/src/debug.cxx
index 3d0910e..23ca2d2 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -69,6 +69,21 @@ namespace _private_ {
 extern std::atomic_bool WST_multi_threaded;
 } // namespace _private_
 
+namespace {
+
+// Return a non-zero id for the current thread that is never reused.
+//
+// The address of the thread specific data isn't usable for this purpose: a debug object remembers which
+// thread wrote an incomplete line after that thread might have terminated.
+unsigned long output_thread_id()
+{
+  static std::atomic<unsigned long> last_id{0};
+  thread_local unsigned long const id = ++last_id;
+  return id;
+}
+
+} // namespace
+
 void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_object, bool request_unfinished,
                      bool do_flush, bool ends_on_newline, bool possible_nonewline_cf)
 {
@@ -114,14 +129,10 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
                 "documentation/group__group__destination.html).");
     }
   }
-  if (debug_object.newlineless_tsd_ && debug_object.newlineless_tsd_ != &__libcwd_tsd)
+  if (debug_object.newlineless_id_ && debug_object.newlineless_id_ != output_thread_id())
   {
-    _private_::ThreadSpecificData const* newlineless_tsd =
-        static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
-    DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
-    size_t color_off_size = color_off.size();
-    if (color_off_size > 0)
-      locked_os->write(color_off.c_str(), color_off_size);
+    if (debug_object.newlineless_color_off_size_ > 0)
+      locked_os->write(debug_object.newlineless_color_off_, debug_object.newlineless_color_off_size_);
     if (debug_object.unfinished_oss_)
     {
       if (debug_object.unfinished_oss_ != this)
@@ -167,11 +178,17 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   if (ends_on_newline)
   {
     debug_object.unfinished_oss_ = NULL;
-    debug_object.newlineless_tsd_ = NULL;
+    debug_object.newlineless_id_ = 0;
   }
   else if (curlen > 0)
   {
-    debug_object.newlineless_tsd_ = &__libcwd_tsd;
+    debug_object.newlineless_id_ = output_thread_id();
+    // Make a copy, because the current thread might be gone by the time that another thread needs it.
+    free(debug_object.newlineless_color_off_);
+    debug_object.newlineless_color_off_ = color_off_size > 0 ? (char*)malloc(color_off_size) : NULL;
+    debug_object.newlineless_color_off_size_ = debug_object.newlineless_color_off_ ? color_off_size : 0;
+    if (debug_object.newlineless_color_off_)
+      std::memcpy(debug_object.newlineless_color_off_, color_off.c_str(), color_off_size);
     if (possible_nonewline_cf)
       debug_object.unfinished_oss_ = NULL;
     else
@@ -1205,6 +1222,9 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
   being_initialized_ = true;
 
   unfinished_oss_ = NULL;
+  newlineless_id_ = 0;
+  newlineless_color_off_ = NULL;
+  newlineless_color_off_size_ = 0;
 
 #if CWDEBUG_DEBUG
   if (!WST_debug_object_init_magic)
-- 
2.43.0


From 7beb3a572285ccb74a7a0f2abbc6b62aa2bac6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 06/30] fix: do not keep a pointer to the buffer of a finished
 message

Finishing an already flushed continued message with an empty part and
nonewline_cf left DebugObject::unfinished_oss_ dangling.
---
 src/debug.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 23ca2d2..7d637de 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -194,6 +194,8 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     else
       debug_object.unfinished_oss_ = this;
   }
+  else if (possible_nonewline_cf && debug_object.unfinished_oss_ == this)
+    debug_object.unfinished_oss_ = NULL; // The message is finished; this buffer is about to be deleted.
   if (locked_mutex)
   {
     __libcwd_tsd.lock_interface_is_locked = false;
-- 
2.43.0


From dcc762dcdfd342f5731ec3ff6876ca42d7e22934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 07/30] fix: interpret the result of try_lock correctly for
 standard mutexes

---
 include/libcwd/private/LockInterface.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/private/LockInterface.h b/include/libcwd/private/LockInterface.h
index 3dd9c95..715fc87 100644
--- a/include/libcwd/private/LockInterface.h
+++ b/include/libcwd/private/LockInterface.h
@@ -10,6 +10,8 @@
 #ifndef LIBCWD_PRIVATE_LOCK_INTERFACE_H
 #define LIBCWD_PRIVATE_LOCK_INTERFACE_H
 
+#include <type_traits>
+
 #ifndef HIDE_FROM_DOXYGEN
 namespace libcwd::_private_ {
 
@@ -27,7 +29,15 @@ class LockInterface : public LockInterfaceBase
 {
  private:
   T* mutex_;
-  virtual int try_lock() { return mutex_->try_lock(); }
+  // Returns zero when the lock was obtained (like pthread_mutex_trylock).
+  // A try_lock that returns a bool follows the convention of std::mutex: it returns true upon success.
+  virtual int try_lock()
+  {
+    if constexpr (std::is_same_v<decltype(mutex_->try_lock()), bool>)
+      return mutex_->try_lock() ? 0 : 1;
+    else
+      return mutex_->try_lock();
+  }
   virtual void lock() { mutex_->lock(); }
   virtual void unlock() { mutex_->unlock(); }
 
-- 
2.43.0


From f301c209601695dd8f55100e9e3728bfda7866f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 08/30] fix: free margins and markers that are still pushed
 when a thread ends

---
 src/debug.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 7d637de..0f7ca91 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1320,6 +1320,14 @@ DebugObject_ThreadSpecificData::~DebugObject_ThreadSpecificData()
   color_off.deinitialize();
   margin.deinitialize();
   marker.deinitialize();
+  for (DebugStringStackElement* stack : {margin_stack, marker_stack})
+    while (stack)
+    {
+      DebugStringStackElement* next = stack->next;
+      stack->debug_string.deinitialize();
+      free(stack);
+      stack = next;
+    }
   if (!tsd_initialized) // Skip the rest when it wasn't initialized.
     return;
   // Sanity checks:
-- 
2.43.0


From 72d3165bb3a9acb0fcd080aed43266d10513767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 09/30] fix: only turn the WARNING channel on by default

Custom channels whose label is a prefix of WARNING were turned on too.
---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 0f7ca91..d4f74cd 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -532,7 +532,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From 5ca9ca8c9f12ec08953844cdcff7f2f01f3e9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 10/30] fix: remove data race on first_thread in init_thread

---
 src/init_functions.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 4c5a344..fea4a1a 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -152,7 +152,8 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
   if (!libcwd::libcw_do.has_mutex())
     libcwd::libcw_do.set_ostream(libcwd::libcw_do.get_ostream(), &libcwd::cout_mutex);
 
-  static bool first_thread = true;
+  static std::atomic_bool s_first_thread = true;
+  bool const first_thread = s_first_thread.exchange(false);
   if (!thread_name.empty())
   {
     std::string margin = thread_name.substr(0, 15) + std::string(16 - std::min(15UL, thread_name.length()), ' ');
@@ -174,7 +175,6 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
     __Debug(libcw_do.margin().assign(margin.str()));
     threads_created = true;
   }
-  first_thread = false;
 }
 
 /**
-- 
2.43.0


From b78247c35af260b0fb4771134143e5ea052026d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 11/30] fix: DebugObject::is_on returned false when on() was
 called twice

The output macros treat every negative count as on.
---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..c6ebe33 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -278,7 +278,7 @@ inline void DebugObject::on()
 
 inline bool DebugObject::is_on(LIBCWD_TSD_PARAM) const
 {
-  return __libcwd_tsd.debug_object_off_array[index_] == -1;
+  return __libcwd_tsd.debug_object_off_array[index_] < 0;
 }
 
 /**
-- 
2.43.0


From 016321dcd59f6cfd08f50615561d29305e33b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 12/30] fix: do not turn the ELFUTILS channel off twice while
 reading the rcfile

---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..7917432 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,8 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        if (debugChannel.is_on()) // Turning it on is delayed till the end of read().
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0


From 95e3a94f3139156c2cbb775f3a3e6fa753fc20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 13/30] fix: read_rcfile refused the default rcfile after a
 previous call used LIBCWD_RCFILE_OVERRIDE_NAME

---
 src/utils/rcfile.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 7917432..b25d866 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -41,6 +41,7 @@ void RcFile::print_delayed_msg(int env_var, std::string const& value) const
 
 std::string RcFile::determine_rcfile_name()
 {
+  env_set_ = false; // Forget about the environment variables of a previous call to read().
   // Can be overridden with the environment variable LIBCWD_RCFILE_NAME
   if (!(rcname_ = getenv("LIBCWD_RCFILE_NAME")))
     rcname_ = ".libcwdrc"; // Default rcfile name.
-- 
2.43.0


From 1c632b9372925f2ffbd80593e9e7818eec26143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:03 +0000
Subject: [PATCH 14/30] fix: serialize the use of libdw by concurrent location
 lookups

libdw caches what it reads in the Dwarf handle, which is shared by all threads, without locking.
---
 src/dwarf.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..d091476 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -29,9 +29,7 @@
 #include <elfutils/libdwfl.h>
 #include <fcntl.h>
 #include <link.h>
-#ifdef HAVE_DLOPEN
 #include <mutex>
-#endif
 
 namespace libcwd {
 namespace _private_ {
@@ -337,6 +335,10 @@ LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbas
   LocationLookupResult result;
   result.physical_function_name = name_;
 
+  // The Dwarf handle is shared by all threads, but libdw is not thread-safe.
+  static std::mutex libdw_mutex;
+  std::lock_guard<std::mutex> lock(libdw_mutex);
+
   Dwarf_Die cu_die;
   if (!die_.addr || dwarf_diecu(const_cast<Dwarf_Die*>(&die_), &cu_die, NULL, NULL) == nullptr)
     return result;
-- 
2.43.0


From eb8413d37d97b5affc9e9daad6f8407288e2d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:03 +0000
Subject: [PATCH 15/30] fix: preserve errno while loading ELF symbols and
 looking up a location

---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index d091476..501836a 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -332,6 +332,8 @@ InlineScopeLookupResult lookup_innermost_inline_scope(Dwarf_Die* cu_die, Dwarf_D
 #ifndef HIDE_FROM_DOXYGEN
 LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbase) const
 {
+  ScopedPreserveErrno scoped_(errno);
+
   LocationLookupResult result;
   result.physical_function_name = name_;
 
@@ -1106,6 +1108,8 @@ bool ObjectFileData::add_function_symbol_range(Dwarf_Addr start_pc, Dwarf_Addr e
 // pointers and the Elf handle is closed before location lookups use the cache.
 void ObjectFileData::load_elf_function_symbols(uintptr_t lbase, std::string const& object_file_path)
 {
+  ScopedPreserveErrno scoped_(errno);
+
   // Only attempt this once.
   elf_symbols_loaded_ = true;
 
-- 
2.43.0


From 13ffc6f403ca1a0c93f3cd888c88780fab31632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:03 +0000
Subject: [PATCH 16/30] fix: serialize dlopen and dlclose including their
 bookkeeping

Concurrent calls lost reference counts, and a handle or load address that was reused before
the bookkeeping of a dlclose was done got confused with the object that was just unloaded.
---
 src/dwarf.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 501836a..06fa525 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1312,6 +1312,14 @@ dynamic_loader_records_ts& dlopen_map()
   return *map;
 }
 
+// Held during dlopen and dlclose, so that the bookkeeping happens in the same order as what the dynamic
+// loader does. It is recursive because constructors and destructors of a DSO can call dlopen and dlclose.
+std::recursive_mutex& dynamic_loader_mutex()
+{
+  static std::recursive_mutex* mutex = new std::recursive_mutex; // Intentionally leaked for late DSO teardown.
+  return *mutex;
+}
+
 } // namespace
 #endif // HAVE_DLOPEN
 
@@ -1337,6 +1345,8 @@ void* dlopen(char const* name, int flags)
   // Initialize real_dlopen if that wasn't done yet.
   std::call_once(initialize_real_dlopen, []() { real_dlopen.symptr = dlsym(RTLD_NEXT, "dlopen"); });
 
+  std::lock_guard<std::recursive_mutex> lock(dynamic_loader_mutex());
+
   void* handle = real_dlopen.func(name, flags);
   if (statically_linked)
   {
@@ -1398,6 +1408,8 @@ int dlclose(void* handle)
   // Initialize real_dlclose if that wasn't done yet.
   std::call_once(initialize_real_dlclose, []() { real_dlclose.symptr = dlsym(RTLD_NEXT, "dlclose"); });
 
+  std::lock_guard<std::recursive_mutex> lock(dynamic_loader_mutex());
+
   int error = real_dlclose.func(handle);
   if (error != 0 || statically_linked)
     return error;
-- 
2.43.0


From 706307944d3cddea05b22e3fe60916c95a1860ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 17/30] fix: keep the registered object files in step with the
 dynamic loader

The bookkeeping in dlopen and dlclose missed the objects that were loaded as dependency and successful
RTLD_NOLOAD calls, and dlclose unregistered objects that stayed loaded: those that were already loaded
at startup, that once were opened with RTLD_NODELETE, that are needed by another object or that
can't be unloaded. Instead of counting references, look at what the dynamic loader has loaded.
---
 src/dwarf.cxx | 171 ++++++++++++++++----------------------------------
 1 file changed, 54 insertions(+), 117 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 06fa525..2f0339b 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -30,6 +30,7 @@
 #include <fcntl.h>
 #include <link.h>
 #include <mutex>
+#include <set>
 
 namespace libcwd {
 namespace _private_ {
@@ -177,24 +178,20 @@ class ObjectFileRegistry
   struct CallBackData
   {
     std::string executable_path_; // The full path to the current executable.
-    // Used for targeted dlopen-driven object discovery:
-    uintptr_t target_lbase_; // When non-zero, create an ObjectFile only for the DSO with this load base.
-    mutable ObjectFile const* object_file_{}; // Set to the ObjectFile aggregate for target_lbase_.
 
-    CallBackData(std::string const& executable_path, uintptr_t target_lbase = 0) :
-        executable_path_(executable_path), target_lbase_(target_lbase)
-    {
-    }
+    CallBackData(std::string const& executable_path) : executable_path_(executable_path) { }
   };
 
   friend bool ensure_initialization(LIBCWD_TSD_PARAM);
   static void register_initial_object_files();
-  static ObjectFile const* iterate_program_headers(CallBackData const& data);
+  static void iterate_program_headers(CallBackData const& data);
   static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
   static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
 
   // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  static void register_loaded_object_files();
+  // Called from dlclose.
+  static void unregister_unloaded_object_files();
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
 };
@@ -743,7 +740,7 @@ void ObjectFileRegistry::register_initial_object_files()
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
+void ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
 {
   // From https://man7.org/linux/man-pages/man3/dl_iterate_phdr.3.html:
   //
@@ -751,11 +748,7 @@ ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const
   // calls the function cb_dl_iterate_phdr once for each object, until either all shared objects
   // have been processed or cb_dl_iterate_phdr returns a nonzero value.
   //
-  // A non-zero data.target_lbase_ makes the callback stop after the matching object;
-  // zero means enumerate all currently loaded objects.
-  //
   dl_iterate_phdr(cb_dl_iterate_phdr, const_cast<CallBackData*>(&data));
-  return data.object_file_;
 }
 
 //static
@@ -763,11 +756,6 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
 {
   CallBackData const* data = static_cast<CallBackData const*>(call_back_data);
   uintptr_t const lbase = static_cast<uintptr_t>(info->dlpi_addr);
-  bool const target_lbase_only = data->target_lbase_ != 0;
-
-  // If this is not the target object; advance to the next.
-  if (target_lbase_only && lbase != data->target_lbase_)
-    return 0;
 
   // dl_iterate_phdr reports an empty name for the main executable.
   // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
@@ -782,11 +770,8 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   {
     object_files_ts::wat object_files_w(object_files_map());
     ScopedTracker scoped_{s_object_files_is_locked_};
-    if (ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_w))
-    {
-      data->object_file_ = existing_object_file;
-      return target_lbase_only;
-    }
+    if (find_registered_object_file(lbase, object_files_w))
+      return 0;
   }
 
   // Create a new ObjectFileData wrapper.  The wrapper address, not the protected
@@ -833,13 +818,10 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   }
 
   // If no PTLoadSegment was inserted, then we want to ignore this object file.
-  if (have_pt_load_segment)
-    data->object_file_ = object_file;
-  else
+  if (!have_pt_load_segment)
     delete object_file;
 
-  // Stop iterating iff there was only one target.
-  return target_lbase_only;
+  return 0;
 }
 
 //static
@@ -860,17 +842,46 @@ ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbas
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
+void ObjectFileRegistry::register_loaded_object_files()
 {
-  // Locks object_files_map().
-  CallBackData const data{current_executable_path(), lbase};
+  // Iterate over all currently loaded object files to find those that were just dynamically
+  // loaded, and create a new ObjectFile for each of them.
+  CallBackData const data{current_executable_path()};
+  iterate_program_headers(data);
+}
 
-  // If this object file was already loaded before, then return that instead of creating a new ObjectFile.
-  ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_ts::wat{object_files_map()});
+//static
+void ObjectFileRegistry::unregister_unloaded_object_files()
+{
+  // The load bases of all currently loaded object files.
+  std::set<uintptr_t> loaded;
+  dl_iterate_phdr(
+      [](dl_phdr_info* info, size_t /*UNUSED*/, void* data) {
+        static_cast<std::set<uintptr_t>*>(data)->insert(static_cast<uintptr_t>(info->dlpi_addr));
+        return 0;
+      },
+      &loaded);
+
+  // The registered object files that are no longer loaded.
+  std::set<ObjectFile const*> unloaded;
+  {
+    object_files_ts::rat object_files_r(object_files_map());
+    ScopedTracker scoped_{s_object_files_is_locked_};
+    for (auto const& [segment_end, segment] : *object_files_r)
+    {
+      if (loaded.find(segment.object_file()->get_lbase()) == loaded.end())
+        unloaded.insert(segment.object_file());
+    }
+  }
 
-  // Otherwise iterate over all currently loaded object files to find the just dynamically
-  // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
-  return existing_object_file ? existing_object_file : iterate_program_headers(data);
+  for (ObjectFile const* object_file : unloaded)
+  {
+    ObjectFile const* obsolete_object_file =
+        object_file->write_locked_data()->unregister_object_file_ranges(object_file);
+    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
+    // in use.
+    delete obsolete_object_file;
+  }
 }
 
 //static
@@ -1292,26 +1303,6 @@ static union
 std::once_flag initialize_real_dlopen;
 std::once_flag initialize_real_dlclose;
 
-struct DynamicLoaderRecord
-{
-  int refcount_;
-  int flags_;
-  ObjectFile const* object_file_;
-
-  DynamicLoaderRecord(ObjectFile const* object_file, int flags) : refcount_(1), flags_(flags), object_file_(object_file)
-  {
-  }
-};
-
-using dynamic_loader_records_ts = threadsafe::Unlocked<std::map<void*, DynamicLoaderRecord, std::less<void*>>,
-                                                       threadsafe::policy::Primitive<std::mutex>>;
-
-dynamic_loader_records_ts& dlopen_map()
-{
-  static dynamic_loader_records_ts* map = new dynamic_loader_records_ts; // Intentionally leaked for late DSO teardown.
-  return *map;
-}
-
 // Held during dlopen and dlclose, so that the bookkeeping happens in the same order as what the dynamic
 // loader does. It is recursive because constructors and destructors of a DSO can call dlopen and dlclose.
 std::recursive_mutex& dynamic_loader_mutex()
@@ -1357,47 +1348,14 @@ void* dlopen(char const* name, int flags)
   }
   if (handle == nullptr)
     return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
-
-  // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-    {
-      auto iter = dynamic_loader_records_w->find(handle);
-      if (iter != dynamic_loader_records_w->end())
-      {
-        ++iter->second.refcount_;
-        iter->second.flags_ |= flags;
-        return handle;
-      }
-    }
-  }
 
+  // Register the object files that were loaded: the DSO itself and the DSO's that it depends on.
   if (need_register_object_file)
   {
-    struct link_map* link_map;
-    if (::dlinfo(handle, RTLD_DI_LINKMAP, &link_map) == 0)
-    {
-      uintptr_t const lbase = static_cast<uintptr_t>(link_map->l_addr);
-      ObjectFile const* object_file = nullptr;
-      bool skip_dlopen_map = false;
-      ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
-      // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
-      // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
-      // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
-      // segments, in which case we just want to ignore the DSO.
-      if (!object_file)
-        skip_dlopen_map = true;
-      if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
-    }
+    ForceLoadingDebugOutput scoped_;
+    ObjectFileRegistry::register_loaded_object_files();
   }
 
-  // Unlock dlopen_map and return handle.
   return handle;
 }
 
@@ -1414,34 +1372,13 @@ int dlclose(void* handle)
   if (error != 0 || statically_linked)
     return error;
 
-  ObjectFile const* object_file_to_unregister = nullptr;
-
-  // Remove the corresponding DynamicLoaderRecord from the dlopen_map if this was the last reference.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-
-    auto iter = dynamic_loader_records_w->find(handle);
-    if (iter != dynamic_loader_records_w->end() && --iter->second.refcount_ == 0)
-    {
-#ifdef RTLD_NODELETE
-      if (!(iter->second.flags_ & RTLD_NODELETE))
-#endif
-        object_file_to_unregister = iter->second.object_file_;
-      dynamic_loader_records_w->erase(iter);
-    }
-  }
-
-  if (object_file_to_unregister)
+  // Unregister the object files that were unloaded. That can be none, for example if this was not the last reference
+  // or if the DSO can't be unloaded, or more than one when other DSO's were only loaded because this one needed them.
   {
     ForceLoadingDebugOutput scoped_;
-    ObjectFile const* obsolete_object_file =
-        object_file_to_unregister->write_locked_data()->unregister_object_file_ranges(object_file_to_unregister);
-    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
-    // in use.
-    delete obsolete_object_file;
+    ObjectFileRegistry::unregister_unloaded_object_files();
   }
 
-  // Unlock dlopen_map and return success.
   return 0;
 }
 
-- 
2.43.0


From 8b11b87114c7b7d64edb98b15271e36c52e59e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 18/30] fix: assigning to a location that owns the path of a
 copy released that path

---
 include/libcwd/lockable_auto_ptr.h | 10 ++++++++++
 src/location.cxx                   |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/lockable_auto_ptr.h b/include/libcwd/lockable_auto_ptr.h
index 9ce1b06..dd61945 100644
--- a/include/libcwd/lockable_auto_ptr.h
+++ b/include/libcwd/lockable_auto_ptr.h
@@ -170,6 +170,16 @@ lockable_auto_ptr<X, array>& lockable_auto_ptr<X, array>::operator=(lockable_aut
 {
   if ((void*)&r != (void*)this)
   {
+    if (ptr_ == r.ptr_)
+    {
+      // Both point to the same object already: it isn't deleted, and if one of them owns it then that remains so.
+      if (!r.locked_ && r.owner_)
+      {
+        owner_ = true;
+        r.owner_ = 0;
+      }
+      return *this;
+    }
     if (owner_)
     {
       if (array)
diff --git a/src/location.cxx b/src/location.cxx
index 1614c73..9c5996c 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -195,7 +195,9 @@ Location& Location::operator=(Location const& prototype)
 {
   if (this != &prototype)
   {
-    clear();
+    // Don't release the path when the prototype is a copy that refers to the same path.
+    if (!(known_ && prototype.known_ && filepath_.get() == prototype.filepath_.get()))
+      clear();
     if ((known_ = prototype.known_))
     {
       filepath_ = prototype.filepath_;
-- 
2.43.0


From d74a8c083fa96acb1c80200712dd79d7d9a73fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 19/30] fix: attach_gdb reported exit code 0 when the terminal
 was killed by a signal

---
 src/utils/attach_gdb.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f81f711..f0fb01f 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -62,7 +62,7 @@ void attach_gdb()
     {
       int ret = system(command2);
       _exit(ret == -1 ? 255 // system failed (ie, fork failed).
-            : WIFSIGNALED(ret) && (WTERMSIG(ret) == SIGINT || WTERMSIG(ret) == SIGQUIT)
+            : WIFSIGNALED(ret)
                 ? 126 // Terminated by signal (127 means that /bin/sh failed).
                 : WEXITSTATUS(ret)); // Return value of command2.
     }
-- 
2.43.0


From 6794942f0dcdc7cc5e78d1c7b4b2a8dee0dc0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 20/30] fix: attach_gdb judged an unknown exit status when the
 child could not be waited for

---
 src/utils/attach_gdb.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f0fb01f..ddbcfb7 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -83,6 +83,8 @@ void attach_gdb()
           if (pid3 == pid2 || ((int)pid3 == -1 && errno == ECHILD))
           {
             libcwd_attach_gdb_hook = 0;
+            if (pid3 != pid2)
+              __DoutFatal(dc::core, "Failed to start gdb: 'xterm' terminated before attaching to the process.");
             if (WIFEXITED(status))
               __DoutFatal(dc::core,
                         "Failed to start gdb: 'xterm' terminated with exit code "
-- 
2.43.0


From 89df8b797cac9f34fea7451d443dec76c2c6ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 21/30] fix: attach_gdb failed when the child finished right
 after the debugger attached

---
 src/utils/attach_gdb.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index ddbcfb7..d07fb9c 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -82,6 +82,9 @@ void attach_gdb()
           pid_t pid3 = waitpid(pid2, &status, WNOHANG);
           if (pid3 == pid2 || ((int)pid3 == -1 && errno == ECHILD))
           {
+            // The debugger might have attached, and the child finished, since the loop condition was tested.
+            if (!libcwd_attach_gdb_hook)
+              break;
             libcwd_attach_gdb_hook = 0;
             if (pid3 != pid2)
               __DoutFatal(dc::core, "Failed to start gdb: 'xterm' terminated before attaching to the process.");
-- 
2.43.0


From c4fe786bc9182f4208c90506adb05e5de3c5e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 22/30] fix: what was set before the constructor of a debug
 object was lost

The constructor of libcw_do runs after NS_init() when libcwd is used by the
constructors of other global objects. It then initialised the destination
and the flush counter again: the first debug output after that crashed.
---
 include/libcwd/DebugObject.h | 12 ++++++++++--
 src/debug.cxx                |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 1d12d83..ce9fe6f 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -126,8 +126,12 @@ class DebugObject
   //
 
   friend class libcwd::Buffer; // Buffer::writeto() needs access.
-  _private_::OstreamState ostream_state_;
+  union
+  {
+    _private_::OstreamState ostream_state_;
+  };
   // Ostream destination and matching external lock, protected as one unit.
+  // In a union because it is constructed by NS_init(), possibly before the constructor of this object is called.
 
   Buffer* unfinished_oss_;
   unsigned long newlineless_id_;            // The output id of the thread that wrote the current, incomplete, line, or 0.
@@ -156,8 +160,12 @@ class DebugObject
   bool interactive_;
   // Set true if the last or current debug output is to cerr
 
-  std::atomic<int> always_flush_{0};
+  union
+  {
+    std::atomic<int> always_flush_;
+  };
   // Application-wide flush on/off counter for Debug Objects.
+  // In a union because it is constructed by NS_init(), possibly before the constructor of this object is called.
 
  public:
   /** @addtogroup format-of-the-debug-output */
diff --git a/src/debug.cxx b/src/debug.cxx
index d4f74cd..3965097 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1223,6 +1223,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
 
   being_initialized_ = true;
 
+  new (&ostream_state_) _private_::OstreamState;
+  new (&always_flush_) std::atomic<int>(0);
   unfinished_oss_ = NULL;
   newlineless_id_ = 0;
   newlineless_color_off_ = NULL;
-- 
2.43.0


From 45183a3ba87cc219ae0cf65f72bf7a416189486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 23/30] fix: channel states from the configuration were lost
 when a longer label was registered later

set_state() and is_on_in_rcfile() used the padded label as key, while the
padding grows when a channel with a longer label is registered. Use the label
without the padding.
---
 src/init_functions.cxx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index fea4a1a..58bc4f8 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -38,6 +38,21 @@ using rcfile_dc_states_type = std::map<std::string, bool>;
  */
 rcfile_dc_states_type rcfile_dc_states;
 
+/**
+ * Returns @a dc_label without the spaces that it is padded with.
+ *
+ * @internal
+ *
+ * All labels are padded to the length of the longest label, which can still
+ * grow when a channel with a longer label is registered.
+ */
+std::string unpadded(char const* dc_label)
+{
+  std::string label(dc_label);
+  label.erase(label.find_last_not_of(' ') + 1);
+  return label;
+}
+
 /**
  * Set the default state of debug channel @a dc_label.
  *
@@ -48,7 +63,7 @@ rcfile_dc_states_type rcfile_dc_states;
 void set_state(char const* dc_label, bool is_on)
 {
   std::pair<rcfile_dc_states_type::iterator, bool> res =
-      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(std::string(dc_label), is_on));
+      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(unpadded(dc_label), is_on));
   if (!res.second)
     __Dout(dc::warning, "Calling set_state() more than once for the same label!");
   return;
@@ -94,7 +109,7 @@ void save_dc_states()
  */
 bool is_on_in_rcfile(char const* dc_label)
 {
-  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(std::string(dc_label));
+  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(unpadded(dc_label));
   if (iter == rcfile_dc_states.end())
   {
     __Dout(dc::warning, "is_on_in_rcfile(\"" << dc_label << "\"): \"" << dc_label << "\" is an unknown label!");
-- 
2.43.0


From e596562189dfeb9a1bb48143c1f39c41404ad47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 24/30] fix: type information was initialised by several
 threads at the same time

The flag that guarded the lazy initialisation was not synchronised: a data
race between threads that use the type information of a type for the first
time.
---
 include/libcwd/type_info.h | 52 ++++++++------------------------------
 src/type_info.cxx          | 22 +++++-----------
 2 files changed, 17 insertions(+), 57 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..17f4197 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -104,7 +104,6 @@ struct type_info
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -117,7 +116,6 @@ struct type_info<T*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -130,7 +128,6 @@ struct type_info<void*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -140,19 +137,12 @@ struct type_info<void*>
 template <typename T>
 TypeInfo type_info<T>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T).name(), sizeof(T), 0);
-    s_initialized_ = true;
-  }
+  // Initialize s_value_ once, also when several threads get here at the same time.
+  [[maybe_unused]] static bool const s_initialized = (s_value_.init(typeid(T).name(), sizeof(T), 0), true);
   return s_value_;
 }
 
@@ -160,19 +150,12 @@ TypeInfo const& type_info<T>::value()
 template <typename T>
 TypeInfo type_info<T*>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T*>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+  // Initialize s_value_ once, also when several threads get here at the same time.
+  [[maybe_unused]] static bool const s_initialized = (s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>), true);
   return s_value_;
 }
 
@@ -187,7 +170,6 @@ struct libcwd_type_info_exact
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -199,7 +181,6 @@ struct libcwd_type_info_exact<T*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -211,7 +192,6 @@ struct libcwd_type_info_exact<void*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -220,42 +200,30 @@ struct libcwd_type_info_exact<void*>
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
+  // Initialize s_value_ once, also when several threads get here at the same time.
+  [[maybe_unused]] static bool const s_initialized = (s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        0);
-    s_initialized_ = true;
-  }
+        0), true);
   return s_value_;
 }
 
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T*>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T*>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
+  // Initialize s_value_ once, also when several threads get here at the same time.
+  [[maybe_unused]] static bool const s_initialized = (s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T*>).name(),
           typeid(T*).name()),
         sizeof(T*),
-        ::libcwd::_private_::sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+        ::libcwd::_private_::sizeof_ref_v<T>), true);
   return s_value_;
 }
 
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..e40d518 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -103,15 +103,10 @@ char const* make_label(char const* mangled_name)
 
 TypeInfo type_info<void*>::s_value_;
 
-bool type_info<void*>::s_initialized_;
-
 TypeInfo const& type_info<void*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
+  // Initialize s_value_ once, also when several threads get here at the same time.
+  [[maybe_unused]] static bool const s_initialized = (s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */), true);
   return s_value_;
 }
 
@@ -121,22 +116,19 @@ TypeInfo const& type_info<void*>::value()
 
 libcwd::TypeInfo libcwd_type_info_exact<void*>::s_value_;
 
-bool libcwd_type_info_exact<void*>::s_initialized_;
-
 libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  // Initialize s_value_ once, also when several threads get here at the same time.
+  [[maybe_unused]] static bool const s_initialized = (
 #if __GXX_ABI_VERSION == 0
     s_value_.init(
         ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
-        sizeof(void*), 0 /* unknown */);
+        sizeof(void*), 0 /* unknown */)
 #else
     s_value_.init(::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name(),
                                                           typeid(void*).name()),
-                  sizeof(void*), 0 /* unknown */);
+                  sizeof(void*), 0 /* unknown */)
 #endif
-    s_initialized_ = true;
-  }
+    , true);
   return s_value_;
 }
-- 
2.43.0


From 1444a4084d0e39c266c0ec810f492aff1065fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 25/30] fix: unknown_type_info_c could be used before it was
 constructed

Its constructor is now a constant expression, so that it is usable by the
constructors of global objects.
---
 include/libcwd/type_info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 17f4197..5542a0a 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -68,7 +68,7 @@ class TypeInfo
    * @brief Constructor used for unknown_type_info_c.
    * @internal
    */
-  TypeInfo(int) : type_size_(0), dereferenced_type_size_(0), name_(NULL), demangled_name_("<unknown type>") { }
+  constexpr TypeInfo(int) : type_size_(0), dereferenced_type_size_(0), name_(NULL), demangled_name_("<unknown type>") { }
   /**
    * @brief Construct a TypeInfo object for a type (T) with encoding @p type_encoding, size @p s and size of reference
    * @p rs.
-- 
2.43.0


From cf41f3fec255732c7903e5ac95ae9e63d5ec4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 26/30] fix: the demangler read beyond the end of malformed
 names

The length of the name was not passed on, so that malformed names (of corrupt
object files) made it skip the terminating zero. The length of an identifier
was not checked either.
---
 include/cwd_demangle.h | 6 ++++++
 src/demangle.cxx       | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..55b8524 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2164,7 +2164,13 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
+  {
     length = 10 * length + current() - '0';
+    if (length > maxpos_) // Rather than overflow.
+      _GLIBCXX_DEMANGLER_FAILURE;
+  }
+  if (length > maxpos_ - pos_ + 1) // Not that many characters left.
+    _GLIBCXX_DEMANGLER_FAILURE;
   char const* ptr = &str_[pos_];
   if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..16991c2 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -717,7 +717,7 @@ void demangle_symbol(char const* input, std::string& output)
     {
       // C++ name?
       implementation_details id(0);
-      int cnt = session_type::decode_encoding(output, input + 2, INT_MAX, id);
+      int cnt = session_type::decode_encoding(output, input + 2, std::strlen(input + 2) + 1, id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -773,7 +773,7 @@ void demangle_type(char const* input, std::string& output)
     return;
   }
   implementation_details id(0);
-  session_type demangler_session(input, INT_MAX, id);
+  session_type demangler_session(input, std::strlen(input) + 1, id);
   if (!demangler_session.decode_type(output) || demangler_session.remaining_input_characters())
     output.assign(input, strlen(input)); // Failure to demangle, return the mangled type name.
 #ifdef STANDALONE
-- 
2.43.0


From a23205aa78cc998b14989e3e8d300259dd2ba6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 27/30] fix: the demangler overflowed the stack on a template
 argument that refers to itself

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 55b8524..dbd7509 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -812,7 +812,7 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     _GLIBCXX_DEMANGLER_FAILURE;
   int saved_pos = pos_;
   pos_ = template_arg_pos_[value];
-  if (inside_type_ > 20) // Rather than core dump.
+  if (inside_type_ > 20 || inside_substitution_ > 20) // Rather than core dump.
     _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_substitution_;
   if (current() == 'X')
-- 
2.43.0


From 81d4f24a6c998e4c681175e6f2fbfd92e6434dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 28/30] fix: release the names of ELF symbols with the object
 file that they belong to

They were lost each time that a library was closed in which a function was looked up.
---
 src/dwarf.cxx | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 2f0339b..5d570a2 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -19,6 +19,7 @@
 #include <cstring>
 #include <exception>
 #include <filesystem>
+#include <forward_list>
 #include <limits>
 #include <map>
 #include <string>
@@ -390,6 +391,7 @@ class ObjectFileData : public ObjectFileRegistry
 
   using function_symbols_type = FunctionSymbolRanges;
   function_symbols_type function_symbols_; // End-address index of SymbolRange's.
+  std::forward_list<std::string> elf_symbol_names_; // The names that ELF symbols in function_symbols_ refer to.
 
  public:
   // Accessors.
@@ -1206,14 +1208,11 @@ void ObjectFileData::add_elf_function_symbol(GElf_Sym const& sym, char const* na
       sym.st_value + sym.st_size > std::numeric_limits<uintptr_t>::max() - lbase)
     return;
 
-  char* stable_name = static_cast<char*>(std::malloc(std::strlen(name) + 1));
-  if (!stable_name)
-    return;
-  std::strcpy(stable_name, name);
-
+  elf_symbol_names_.emplace_front(name);
   if (!add_function_symbol_range(static_cast<Dwarf_Addr>(sym.st_value),
-                                 static_cast<Dwarf_Addr>(sym.st_value + sym.st_size), stable_name, nullptr, lbase))
-    std::free(stable_name);
+                                 static_cast<Dwarf_Addr>(sym.st_value + sym.st_size), elf_symbol_names_.front().c_str(),
+                                 nullptr, lbase))
+    elf_symbol_names_.pop_front();
 }
 
 // ObjectFileData::function_symbol_name
-- 
2.43.0


From 681b470551f926bf32be195ed9ae371e5b240afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:30 +0000
Subject: [PATCH 29/30] fix: preserve errno while loading function symbols from
 debug information

---
 src/dwarf.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 5d570a2..af962c4 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1018,6 +1018,9 @@ struct ObjectFileData::LoadFunctionSymbolRangesContext
 // this ObjectFileData instance.
 void ObjectFileData::load_function_symbols(uintptr_t lbase)
 {
+  // libdw might open other files (for example a .dwo file or the alternate file of dwz).
+  ScopedPreserveErrno scoped_(errno);
+
   LIBCWD_ASSERT(is_initialized() && dwarf_handle_);
 
   LoadFunctionSymbolRangesContext context{this, lbase};
-- 
2.43.0


From 6f19ef4174badd0dacec5d97cbcb0db8c3a2453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 30/30] fix: release thread specific data that is created while
 a thread ends

When the destructor of a thread_local object that was constructed before the
first use of libcwd by its thread (or the destructor of a pthread key) uses
libcwd, then current_tsd_cleanup_guard is already destroyed and the new thread
specific data was never deleted.
---
 src/threading.cxx | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..0ce1b21 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <mutex>
+#include <pthread.h>
 
 #ifndef HIDE_FROM_DOXYGEN
 namespace libcwd::_private_ {
@@ -48,6 +49,27 @@ struct TSD_cleanup_guard
 
 thread_local TSD_cleanup_guard current_tsd_cleanup_guard;
 
+// Clean up a TSD that was created after the guard of its thread was destroyed.
+//
+// That happens when the destructor of a thread_local object that was constructed before the first use of libcwd
+// by its thread, or the destructor of a pthread key, uses libcwd. A thread_local object can't be constructed again,
+// but pthread keys are destroyed last and a key that is set from the destructor of a key is destroyed again.
+class TSD_cleanup_key
+{
+ private:
+  pthread_key_t key_;
+  bool created_;
+
+ public:
+  TSD_cleanup_key() : created_(pthread_key_create(&key_, [](void*) { TSD_cleanup_guard cleanup; }) == 0) { }
+
+  void arm() const
+  {
+    if (created_)
+      pthread_setspecific(key_, &current_tsd);
+  }
+};
+
 } // namespace
 
 // Return the TSD for the current thread, allocating and initializing it on first use.
@@ -66,7 +88,11 @@ ThreadSpecificData& ThreadSpecificData::instance()
   // Under the main-thread-first assumption, a first-use access after main_thread_tsd was set belongs to a
   // worker thread and therefore needs the cleanup guard to delete its TSD at thread exit.
   if (main_thread_tsd)
+  {
     (void)current_tsd_cleanup_guard;
+    static TSD_cleanup_key const late_cleanup;
+    late_cleanup.arm();
+  }
 
   current_tsd = new ThreadSpecificData;
   return S_create(*current_tsd);
-- 
2.43.0

