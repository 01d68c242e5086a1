From 534533775908e0d65f52af4d6373ce9a7a2a088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 01/46] fix: ucontext: do not execute the context-function of a
 never resumed context on destruction

---
 include/boost/context/continuation_ucontext.hpp | 10 +++++++---
 include/boost/context/fiber_ucontext.hpp        | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..bf988b0 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -259,12 +259,16 @@ public:
 #endif
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was resumed the first time
+            // must not execute its context-function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..b3cdcb5 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -284,12 +284,16 @@ public:
 #endif
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was resumed the first time
+            // must not execute its context-function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From 5eee76aca01432975212a88763ad127cb3b8b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 02/46] fix: ucontext: resume_with() executes the function on
 top of a not yet started context

---
 include/boost/context/continuation_ucontext.hpp | 8 ++++++++
 include/boost/context/fiber_ucontext.hpp        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index bf988b0..e681933 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -262,6 +262,14 @@ public:
             // a context destroyed before it was resumed the first time
             // must not execute its context-function
             if ( BOOST_LIKELY( ! force_unwind) ) {
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // resumed the first time by resume_with()
+                    std::function< activation_record*(activation_record*&) > fn = std::move( ontop);
+                    ontop = nullptr;
+                    activation_record * ptr = c.ptr_;
+                    c.ptr_ = nullptr;
+                    c = Ctx{ fn( ptr) };
+                }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
                 c = boost::context::detail::invoke( fn_, std::move( c) );
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index b3cdcb5..0bdfb9c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -287,6 +287,14 @@ public:
             // a context destroyed before it was resumed the first time
             // must not execute its context-function
             if ( BOOST_LIKELY( ! force_unwind) ) {
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // resumed the first time by resume_with()
+                    std::function< fiber_activation_record*(fiber_activation_record*&) > fn = std::move( ontop);
+                    ontop = nullptr;
+                    fiber_activation_record * ptr = c.ptr_;
+                    c.ptr_ = nullptr;
+                    c = Ctx{ fn( ptr) };
+                }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
                 c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From 7d2de85f3092430c7734bd9877874ffd21d7ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 03/46] fix: ucontext: execute the function passed to
 resume_with() only once

---
 .../boost/context/continuation_ucontext.hpp    | 18 +++++++++++-------
 include/boost/context/fiber_ucontext.hpp       | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index e681933..df20ba1 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -207,6 +207,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // the function passed to resume_with() is executed only once, even
+    // if it throws or if it resumes another context
+    activation_record * invoke_ontop( activation_record * ptr) {
+        std::function< activation_record*(activation_record*&) > fn = std::move( ontop);
+        ontop = nullptr;
+        return fn( ptr);
+    }
+
     virtual void deallocate() noexcept {
     }
 };
@@ -264,11 +272,9 @@ public:
             if ( BOOST_LIKELY( ! force_unwind) ) {
                 if ( BOOST_UNLIKELY( nullptr != ontop) ) {
                     // resumed the first time by resume_with()
-                    std::function< activation_record*(activation_record*&) > fn = std::move( ontop);
-                    ontop = nullptr;
                     activation_record * ptr = c.ptr_;
                     c.ptr_ = nullptr;
-                    c = Ctx{ fn( ptr) };
+                    c = Ctx{ this->invoke_ontop( ptr) };
                 }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -448,8 +454,7 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            ptr = detail::activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
@@ -471,8 +476,7 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            ptr = detail::activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 0bdfb9c..3a57a25 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -232,6 +232,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // the function passed to resume_with() is executed only once, even
+    // if it throws or if it resumes another context
+    fiber_activation_record * invoke_ontop( fiber_activation_record * ptr) {
+        std::function< fiber_activation_record*(fiber_activation_record*&) > fn = std::move( ontop);
+        ontop = nullptr;
+        return fn( ptr);
+    }
+
     virtual void deallocate() noexcept {
     }
 };
@@ -289,11 +297,9 @@ public:
             if ( BOOST_LIKELY( ! force_unwind) ) {
                 if ( BOOST_UNLIKELY( nullptr != ontop) ) {
                     // resumed the first time by resume_with()
-                    std::function< fiber_activation_record*(fiber_activation_record*&) > fn = std::move( ontop);
-                    ontop = nullptr;
                     fiber_activation_record * ptr = c.ptr_;
                     c.ptr_ = nullptr;
-                    c = Ctx{ fn( ptr) };
+                    c = Ctx{ this->invoke_ontop( ptr) };
                 }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -502,8 +508,7 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
@@ -521,8 +526,7 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 1ebf6ad93038a0365519a553b6ece57c95bc1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 04/46] fix: ucontext: allow destructors to resume contexts
 during forced unwinding

---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index df20ba1..2bdee90 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -452,6 +452,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             ptr = detail::activation_record::current()->invoke_ontop( ptr);
@@ -474,6 +476,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             ptr = detail::activation_record::current()->invoke_ontop( ptr);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 3a57a25..ddb3e99 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -506,6 +506,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
@@ -524,6 +526,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
-- 
2.43.0


From 5b8ac204f560636ea39221542dc63c5f9a88d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 05/46] fix: ucontext: release ASAN fake stack of a terminating
 context

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 2bdee90..2c8b776 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index ddb3e99..e8b356c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From d241a34b88f266333949081cc06208e57cbd90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 06/46] fix: ucontext: accept mutable function objects in
 resume_with()

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 2c8b776..b7c5e3d 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -172,7 +172,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index e8b356c..e264924 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -194,7 +194,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From 9bb211c6eb4ae12d28e69259918fdd871bd1f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 07/46] fix: x86_64 sysv: store the TLS stack guard in the
 context-data instead of the caller's frame

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From 213c571fcfe877b4751685d404667abbb8e3979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 08/46] fix: pooled_fixedsize_stack: do not remap memory beyond
 the allocated block (BOOST_CONTEXT_USE_MAP_STACK)

---
 include/boost/context/pooled_fixedsize_stack.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..4ac3946 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -47,11 +47,17 @@ struct map_stack_allocator {
     typedef std::ptrdiff_t difference_type;
 
     static char * malloc( const size_type bytes) {
+        // mmap() replaces whole pages
+        const size_type page_size = traitsT::page_size();
+        const size_type size = ( bytes + page_size - 1) / page_size * page_size;
+        if ( size < bytes) {
+            return 0;
+        }
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        if ( ::posix_memalign( &block, page_size, size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0


From f32cf91a4750852284586096847e7ce8e906f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 09/46] fix: continuation::resume_with(): accept function
 objects passed as lvalue

---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..c671e1a 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -330,7 +330,7 @@ public:
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::make_tuple( std::forward< Fn >( fn) );
+        std::tuple< typename std::decay< Fn >::type > p( std::forward< Fn >( fn) );
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, typename std::decay< Fn >::type >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From 9f4ff0e91583369f329324a8a30388e0328244f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 10/46] fix: protected_fixedsize_stack: throw std::bad_alloc if
 the size overflows

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..2e62190 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -50,6 +50,8 @@ public:
     }
 
     stack_context allocate() {
+        // size of stack and guard-page must not exceed the address space
+        if ( size_ > static_cast< std::size_t >( -1) - 2 * traits_type::page_size() ) throw std::bad_alloc();
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From 895f417c0096f10e1dfa27cf18b34c841df6d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 11/46] fix: protected_fixedsize_stack: throw std::bad_alloc if
 the guard page can not be installed

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index 2e62190..88f82f8 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -67,9 +67,11 @@ public:
         if ( MAP_FAILED == vp) throw std::bad_alloc();
 
         // conforming to POSIX.1-2001
-        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != ::mprotect( vp, traits_type::page_size(), PROT_NONE) ) {
+            // e.g. maximum number of mappings exceeded
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From b0309a65ed733dac5c7e1c6b55c629db63f4da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/46] fix: ucontext: keep the main context until its thread's
 storage is released

Destructors of objects with static or thread storage duration that resume or
unwind contexts used the main context after it had been deleted.
---
 src/continuation.cpp | 14 ++++++++++++++
 src/fiber.cpp        | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..3a37cd6 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -10,6 +10,8 @@
 #include "boost/context/continuation_winfib.hpp"
 #endif
 
+#include <new>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -24,18 +26,30 @@ namespace detail {
 thread_local activation_record * current_rec;
 thread_local static std::size_t counter;
 
+#if defined(BOOST_USE_UCONTEXT)
+// main context; released together with the storage of the thread because destructors
+// of objects with thread or static storage duration might still resume contexts
+alignas( activation_record) thread_local static unsigned char main_rec[sizeof( activation_record)];
+#endif
+
 // schwarz counter
 activation_record_initializer::activation_record_initializer() noexcept {
     if ( 0 == counter++) {
+#if defined(BOOST_USE_UCONTEXT)
+        current_rec = new ( main_rec) activation_record();
+#else
         current_rec = new activation_record();
+#endif
     }
 }
 
 activation_record_initializer::~activation_record_initializer() {
+#if ! defined(BOOST_USE_UCONTEXT)
     if ( 0 == --counter) {
         BOOST_ASSERT( current_rec->is_main_context() );
         delete current_rec;
     }
+#endif
 }
 
 }
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..8a3b458 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -10,6 +10,8 @@
 #include "boost/context/fiber_winfib.hpp"
 #endif
 
+#include <new>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -24,18 +26,30 @@ namespace detail {
 thread_local fiber_activation_record * fib_current_rec;
 thread_local static std::size_t counter;
 
+#if defined(BOOST_USE_UCONTEXT)
+// main context; released together with the storage of the thread because destructors
+// of objects with thread or static storage duration might still resume contexts
+alignas( fiber_activation_record) thread_local static unsigned char main_rec[sizeof( fiber_activation_record)];
+#endif
+
 // schwarz counter
 fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
     if ( 0 == counter++) {
+#if defined(BOOST_USE_UCONTEXT)
+        fib_current_rec = new ( main_rec) fiber_activation_record();
+#else
         fib_current_rec = new fiber_activation_record();
+#endif
     }
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
+#if ! defined(BOOST_USE_UCONTEXT)
     if ( 0 == --counter) {
         BOOST_ASSERT( fib_current_rec->is_main_context() );
         delete fib_current_rec;
     }
+#endif
 }
 
 }
-- 
2.43.0


From ede7fd4015be167da9d53e84a7b9532f6dbac56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 13/46] fix: ucontext: accept bind expressions and reference
 wrappers in resume_with() (C++11)

---
 include/boost/context/continuation_ucontext.hpp | 12 +++++++-----
 include/boost/context/fiber_ucontext.hpp        | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index b7c5e3d..f1015b2 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -156,8 +156,10 @@ struct BOOST_CONTEXT_DECL activation_record {
         // returned by continuation::current()
         current() = this;
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
+        // no std::bind(): it would treat bind expressions and reference wrappers specially
+        struct ontop_t {
+                typename std::decay< Fn >::type fn;
+                activation_record * operator()( activation_record *& ptr) {
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
                     if ( ! c) {
@@ -168,9 +170,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #else
                     return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+                }
+        };
+        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
         current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index e264924..ea0de37 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -178,8 +178,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         // returned by fiber::current()
         current() = this;
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
+        // no std::bind(): it would treat bind expressions and reference wrappers specially
+        struct ontop_t {
+                typename std::decay< Fn >::type fn;
+                fiber_activation_record * operator()( fiber_activation_record *& ptr) {
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
                     if ( ! c) {
@@ -190,9 +192,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #else
                     return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+                }
+        };
+        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
         current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
-- 
2.43.0


From 7ee5f3887c2a1b9e2636e85bd8d1c04f3dd9b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 14/46] fix: ucontext: allow to include fiber.hpp and
 continuation.hpp together

---
 include/boost/context/continuation_ucontext.hpp | 10 +++++++---
 include/boost/context/fiber_ucontext.hpp        | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index f1015b2..3d64eb4 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -226,13 +226,17 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
+// shared by fiber and continuation, both might be included
+#if ! defined(BOOST_CONTEXT_DETAIL_FORCED_UNWIND_UCONTEXT)
+#define BOOST_CONTEXT_DETAIL_FORCED_UNWIND_UCONTEXT
 struct forced_unwind {
-    activation_record   *   from{ nullptr };
+    void    *   from{ nullptr };
 
-    forced_unwind( activation_record * from_) noexcept :
+    forced_unwind( void * from_) noexcept :
         from{ from_ } {
     }
 };
+#endif
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
@@ -286,7 +290,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index ea0de37..98734b2 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -251,13 +251,17 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
+// shared by fiber and continuation, both might be included
+#if ! defined(BOOST_CONTEXT_DETAIL_FORCED_UNWIND_UCONTEXT)
+#define BOOST_CONTEXT_DETAIL_FORCED_UNWIND_UCONTEXT
 struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
+    void    *   from{ nullptr };
 
-    forced_unwind( fiber_activation_record * from_) noexcept :
+    forced_unwind( void * from_) noexcept :
         from{ from_ } {
     }
 };
+#endif
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
@@ -311,7 +315,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
-- 
2.43.0


From 980b6a6b8a46ff51ca4c1302583ec2b70dba8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 15/46] fix: ucontext: unpoison the stack of a finished context
 before it is released (ASAN)

---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/detail/externc.hpp        | 1 +
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 3d64eb4..6f20c86 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -249,6 +249,10 @@ private:
         stack_context sctx = p->sctx;
         // deallocate activation record
         p->~capture_record();
+#if defined(BOOST_USE_ASAN)
+        // frames that never returned have left poisoned memory
+        __asan_unpoison_memory_region( static_cast< char * >( sctx.sp) - sctx.size, sctx.size);
+#endif
         // destroy stack with stack allocator
         salloc.deallocate( sctx);
     }
diff --git a/include/boost/context/detail/externc.hpp b/include/boost/context/detail/externc.hpp
index 850bc1a..5d7ef6d 100644
--- a/include/boost/context/detail/externc.hpp
+++ b/include/boost/context/detail/externc.hpp
@@ -12,6 +12,7 @@
 extern "C" {
 void __sanitizer_start_switch_fiber( void **, const void *, size_t);
 void __sanitizer_finish_switch_fiber( void *, const void **, size_t *);
+void __asan_unpoison_memory_region( void const volatile *, size_t);
 }
 #endif
 
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 98734b2..dd0f3d9 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -274,6 +274,10 @@ private:
         stack_context sctx = p->sctx;
         // deallocate activation record
         p->~fiber_capture_record();
+#if defined(BOOST_USE_ASAN)
+        // frames that never returned have left poisoned memory
+        __asan_unpoison_memory_region( static_cast< char * >( sctx.sp) - sctx.size, sctx.size);
+#endif
         // destroy stack with stack allocator
         salloc.deallocate( sctx);
     }
-- 
2.43.0


From 106468401cb5eef595f5e517c7cf1ebc8e65354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 16/46] fix: pooled_fixedsize_stack: make chunks addressable
 for valgrind when they return to the pool

---
 include/boost/context/pooled_fixedsize_stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index 4ac3946..321aba4 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -29,6 +29,7 @@ extern "C" {
 #endif
 
 #if defined(BOOST_USE_VALGRIND)
+#include <valgrind/memcheck.h>
 #include <valgrind/valgrind.h>
 #endif
 
@@ -113,6 +114,10 @@ private:
             VALGRIND_STACK_DEREGISTER( sctx.valgrind_stack_id);
 #endif
             void * vp = static_cast< char * >( sctx.sp) - sctx.size;
+#if defined(BOOST_USE_VALGRIND)
+            // frames popped from the stack are not addressable, but the chunk will be reused
+            VALGRIND_MAKE_MEM_UNDEFINED( vp, sctx.size);
+#endif
             storage_.free( vp);
         }
 
-- 
2.43.0


From dff6e3b118d3014355621738fb7aba6defd62377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 17/46] fix: ucontext: a function object that throws while it
 is copied by resume_with() left current() and the handle changed

---
 .../boost/context/continuation_ucontext.hpp   | 25 +++++++++++--------
 include/boost/context/fiber_ucontext.hpp      | 25 +++++++++++--------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 6f20c86..a9011cc 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -148,13 +148,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // copying the function might throw: done before anything else is changed
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         // no std::bind(): it would treat bind expressions and reference wrappers specially
         struct ontop_t {
@@ -172,9 +168,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
                 }
         };
-        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -187,6 +183,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+    }
+
+    activation_record * resume_with() {
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -478,12 +482,13 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        ptr_->set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index dd0f3d9..fdbafe1 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -170,13 +170,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // copying the function might throw: done before anything else is changed
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         // no std::bind(): it would treat bind expressions and reference wrappers specially
         struct ontop_t {
@@ -194,9 +190,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
                 }
         };
-        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -209,6 +205,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+    }
+
+    fiber_activation_record * resume_with() {
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -528,12 +532,13 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        ptr_->set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
-- 
2.43.0


From 6801aacf5a114eaafd04eaa7d7cbf8b64394cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 18/46] fix: ucontext: failing getcontext() released the stack
 through the moved-from allocator

---
 include/boost/context/continuation_ucontext.hpp | 10 ++++++----
 include/boost/context/fiber_ucontext.hpp        | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index a9011cc..9de70cf 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -327,8 +327,9 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
@@ -370,8 +371,9 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index fdbafe1..9645de5 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -352,8 +352,9 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
@@ -403,8 +404,9 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
                 std::error_code( errno, std::system_category() ),
                 "getcontext() failed");
-- 
2.43.0


From 5b0ba206fe0c7e4461c53604370bf37e66cd3787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 19/46] fix: fcontext: resumer leaked if the function passed to
 resume_with() throws while it is copied onto the stack of the resumed context

---
 include/boost/context/continuation_fcontext.hpp | 3 ++-
 include/boost/context/fiber_fcontext.hpp        | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index c671e1a..e7a414d 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -108,9 +108,10 @@ template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
     auto p = static_cast< std::tuple< Fn > * >( t.data);
     BOOST_ASSERT( nullptr != p);
+    // owner of the resumer, even if the function can not be copied
+    Ctx c{ t.fctx };
     typename std::decay< Fn >::type fn = std::get< 0 >( * p);
     t.data = nullptr;
-    Ctx c{ t.fctx };
     // execute function, pass continuation via reference
     c = fn( std::move( c) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..504e6d4 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -107,10 +107,12 @@ void fiber_entry( transfer_t t) noexcept {
 template< typename Ctx, typename Fn >
 transfer_t fiber_ontop( transfer_t t) {
     BOOST_ASSERT( nullptr != t.data);
+    // owner of the resumer, even if the function can not be copied
+    Ctx from{ t.fctx };
     auto p = *static_cast< Fn * >( t.data);
     t.data = nullptr;
     // execute function, pass fiber via reference
-    Ctx c = p( Ctx{ t.fctx } );
+    Ctx c = p( std::move( from) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
     return { exchange( c.fctx_, nullptr), nullptr };
 #else
-- 
2.43.0


From c674214076d2d61e5beea9db3d5afb67c1735ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 20/46] fix: winfib: do not execute the context-function of a
 never resumed context on destruction

---
 include/boost/context/continuation_winfib.hpp | 10 +++++++---
 include/boost/context/fiber_winfib.hpp        | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..fcc45fc 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -222,12 +222,16 @@ public:
     void run() {
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was resumed the first time
+            // must not execute its context-function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..5c6b565 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -221,12 +221,16 @@ public:
     void run() {
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was resumed the first time
+            // must not execute its context-function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From fc9f90c626250303ada12210255ef8b1f84c68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 21/46] fix: winfib: resume_with() executes the function on top
 of a not yet started context

---
 include/boost/context/continuation_winfib.hpp | 7 +++++++
 include/boost/context/fiber_winfib.hpp        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index fcc45fc..3798ae2 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -225,6 +225,13 @@ public:
             // a context destroyed before it was resumed the first time
             // must not execute its context-function
             if ( BOOST_LIKELY( ! force_unwind) ) {
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // resumed the first time by resume_with()
+                    activation_record * ptr = c.ptr_;
+                    c.ptr_ = nullptr;
+                    c = Ctx{ ontop( ptr) };
+                    ontop = nullptr;
+                }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
                 c = boost::context::detail::invoke( fn_, std::move( c) );
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 5c6b565..b645d6a 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -224,6 +224,13 @@ public:
             // a context destroyed before it was resumed the first time
             // must not execute its context-function
             if ( BOOST_LIKELY( ! force_unwind) ) {
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // resumed the first time by resume_with()
+                    fiber_activation_record * ptr = c.ptr_;
+                    c.ptr_ = nullptr;
+                    c = Ctx{ ontop( ptr) };
+                    ontop = nullptr;
+                }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
                 c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From 5a5343919a31ab8313998108915136130eef2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 22/46] fix: winfib: execute the function passed to
 resume_with() only once

---
 include/boost/context/continuation_winfib.hpp | 17 +++++++++++------
 include/boost/context/fiber_winfib.hpp        | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 3798ae2..7743679 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -175,6 +175,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // the function passed to resume_with() is executed only once, even
+    // if it throws or if it resumes another context
+    activation_record * invoke_ontop( activation_record * ptr) {
+        std::function< activation_record*(activation_record*&) > fn = std::move( ontop);
+        ontop = nullptr;
+        return fn( ptr);
+    }
+
     virtual void deallocate() noexcept {
     }
 };
@@ -229,8 +237,7 @@ public:
                     // resumed the first time by resume_with()
                     activation_record * ptr = c.ptr_;
                     c.ptr_ = nullptr;
-                    c = Ctx{ ontop( ptr) };
-                    ontop = nullptr;
+                    c = Ctx{ this->invoke_ontop( ptr) };
                 }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -358,8 +365,7 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            ptr = detail::activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
@@ -381,8 +387,7 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            ptr = detail::activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index b645d6a..5c00a26 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -174,6 +174,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // the function passed to resume_with() is executed only once, even
+    // if it throws or if it resumes another context
+    fiber_activation_record * invoke_ontop( fiber_activation_record * ptr) {
+        std::function< fiber_activation_record*(fiber_activation_record*&) > fn = std::move( ontop);
+        ontop = nullptr;
+        return fn( ptr);
+    }
+
     virtual void deallocate() noexcept {
     }
 };
@@ -228,8 +236,7 @@ public:
                     // resumed the first time by resume_with()
                     fiber_activation_record * ptr = c.ptr_;
                     c.ptr_ = nullptr;
-                    c = Ctx{ ontop( ptr) };
-                    ontop = nullptr;
+                    c = Ctx{ this->invoke_ontop( ptr) };
                 }
                 // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -365,8 +372,7 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
@@ -384,8 +390,7 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From b8c88430229e5dd4b9196705c947c86e0306bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 23/46] fix: winfib: allow destructors to resume contexts
 during forced unwinding

---
 include/boost/context/continuation_winfib.hpp | 4 ++++
 include/boost/context/fiber_winfib.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 7743679..e6003e6 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -363,6 +363,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             ptr = detail::activation_record::current()->invoke_ontop( ptr);
@@ -385,6 +387,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             ptr = detail::activation_record::current()->invoke_ontop( ptr);
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 5c00a26..28eea20 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -370,6 +370,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
@@ -388,6 +390,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             ptr = detail::fiber_activation_record::current()->invoke_ontop( ptr);
-- 
2.43.0


From 933ac66d6e95a0216d972506833de2ae9d629862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 24/46] fix: winfib: accept mutable function objects, bind
 expressions and reference wrappers in resume_with()

---
 include/boost/context/continuation_winfib.hpp | 15 +++++++++------
 include/boost/context/fiber_winfib.hpp        | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index e6003e6..43436c8 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -137,8 +137,11 @@ struct BOOST_CONTEXT_DECL activation_record {
         // returned by continuation::current()
         current() = this;
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
+        // no std::bind(): it would treat bind expressions and reference wrappers specially
+        struct ontop_t {
+                typename std::decay< Fn >::type fn;
+
+                activation_record * operator()( activation_record *& ptr) {
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
                     if ( ! c) {
@@ -149,11 +152,11 @@ struct BOOST_CONTEXT_DECL activation_record {
 #else
                     return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+                }
+        };
+        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 28eea20..0002103 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -136,8 +136,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         // returned by fiber::current()
         current() = this;
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
+        // no std::bind(): it would treat bind expressions and reference wrappers specially
+        struct ontop_t {
+                typename std::decay< Fn >::type fn;
+
+                fiber_activation_record * operator()( fiber_activation_record *& ptr) {
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
                     if ( ! c) {
@@ -148,11 +151,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #else
                     return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+                }
+        };
+        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From da01fd989401bd150ea8614664f624214a763424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 25/46] fix: winfib: a function object that throws while it is
 copied by resume_with() left current() and the handle changed

---
 include/boost/context/continuation_winfib.hpp | 25 +++++++++++--------
 include/boost/context/fiber_winfib.hpp        | 25 +++++++++++--------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 43436c8..7e59df4 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -129,13 +129,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // copying the function might throw: done before anything else is changed
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         // no std::bind(): it would treat bind expressions and reference wrappers specially
         struct ontop_t {
@@ -154,9 +150,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
                 }
         };
-        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -169,6 +165,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+    }
+
+    activation_record * resume_with() {
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -382,12 +386,13 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        ptr_->set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 0002103..a6fc144 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -128,13 +128,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // copying the function might throw: done before anything else is changed
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         // no std::bind(): it would treat bind expressions and reference wrappers specially
         struct ontop_t {
@@ -153,9 +149,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
                 }
         };
-        current()->ontop = ontop_t{ std::forward< Fn >( fn) };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -168,6 +164,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+    }
+
+    fiber_activation_record * resume_with() {
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -385,12 +389,13 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        ptr_->set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
-- 
2.43.0


From abbfab5e4393516b6d3f39057e9bd0b3a26ccea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 26/46] fix: winfib: allow to include fiber.hpp and
 continuation.hpp together

---
 include/boost/context/continuation_winfib.hpp | 10 +++++++---
 include/boost/context/fiber_winfib.hpp        | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 7e59df4..de2a29a 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -199,13 +199,17 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
+// shared by fiber and continuation, both might be included
+#if ! defined(BOOST_CONTEXT_DETAIL_FORCED_UNWIND_WINFIB)
+#define BOOST_CONTEXT_DETAIL_FORCED_UNWIND_WINFIB
 struct forced_unwind {
-    activation_record   *   from{ nullptr };
+    void    *   from{ nullptr };
 
-    explicit forced_unwind( activation_record * from_) :
+    explicit forced_unwind( void * from_) :
         from{ from_ } {
     }
 };
+#endif
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
@@ -254,7 +258,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index a6fc144..382bb25 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -198,13 +198,17 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
+// shared by fiber and continuation, both might be included
+#if ! defined(BOOST_CONTEXT_DETAIL_FORCED_UNWIND_WINFIB)
+#define BOOST_CONTEXT_DETAIL_FORCED_UNWIND_WINFIB
 struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
+    void    *   from{ nullptr };
 
-    explicit forced_unwind( fiber_activation_record * from_) :
+    explicit forced_unwind( void * from_) :
         from{ from_ } {
     }
 };
+#endif
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
@@ -253,7 +257,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0


From 3c66d53970f26bfcce286052c6b030ecb5afd977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 27/46] fix: winfib: failing CreateFiber() was not recognised

---
 include/boost/context/continuation_winfib.hpp | 18 +++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index de2a29a..e2dd1af 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -103,7 +103,9 @@ struct BOOST_CONTEXT_DECL activation_record {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
         } else {
-            ::DeleteFiber( fiber);
+            if ( BOOST_LIKELY( nullptr != fiber) ) {
+                ::DeleteFiber( fiber);
+            }
         }
     }
 
@@ -285,6 +287,13 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -302,6 +311,13 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 382bb25..9ae7a9f 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -102,7 +102,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
         } else {
-            ::DeleteFiber( fiber);
+            if ( BOOST_LIKELY( nullptr != fiber) ) {
+                ::DeleteFiber( fiber);
+            }
         }
     }
 
@@ -284,6 +286,13 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -301,6 +310,13 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // allocator was moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 879b943defe1d1103624586ddbd0f3eb5d19d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 28/46] fix: winfib: fiber and continuation used together
 resumed the wrong Windows fiber

---
 include/boost/context/continuation_winfib.hpp | 13 +++++++++++--
 include/boost/context/fiber_winfib.hpp        | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index e2dd1af..a21b84a 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -63,7 +63,10 @@ static VOID WINAPI entry_func( LPVOID data) noexcept {
 }
 
 struct BOOST_CONTEXT_DECL activation_record {
+    // Windows fiber to be resumed
     LPVOID                                                      fiber{ nullptr };
+    // Windows fiber that belongs to this context
+    LPVOID                                                      own_fiber{ nullptr };
     stack_context                                               sctx{};
     bool                                                        main_ctx{ true };
     activation_record                                       *   from{ nullptr };
@@ -103,8 +106,8 @@ struct BOOST_CONTEXT_DECL activation_record {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
         } else {
-            if ( BOOST_LIKELY( nullptr != fiber) ) {
-                ::DeleteFiber( fiber);
+            if ( BOOST_LIKELY( nullptr != own_fiber) ) {
+                ::DeleteFiber( own_fiber);
             }
         }
     }
@@ -123,6 +126,8 @@ struct BOOST_CONTEXT_DECL activation_record {
         current() = this;
         // context switch from parent context to `this`-context
         // context switch
+        // (contexts of the other kind might run on top of the parent context)
+        from->fiber = ::GetCurrentFiber();
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
@@ -176,6 +181,8 @@ struct BOOST_CONTEXT_DECL activation_record {
         // returned by continuation::current()
         current() = this;
         // context switch
+        // (contexts of the other kind might run on top of the parent context)
+        from->fiber = ::GetCurrentFiber();
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
@@ -294,6 +301,7 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
         record->deallocate();
         throw std::system_error( ec, "CreateFiber() failed");
     }
+    record->own_fiber = record->fiber;
     return record;
 }
 
@@ -318,6 +326,7 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
         record->deallocate();
         throw std::system_error( ec, "CreateFiber() failed");
     }
+    record->own_fiber = record->fiber;
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 9ae7a9f..71725c4 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -63,7 +63,10 @@ static VOID WINAPI fiber_entry_func( LPVOID data) noexcept {
 }
 
 struct BOOST_CONTEXT_DECL fiber_activation_record {
+    // Windows fiber to be resumed
     LPVOID                                                      fiber{ nullptr };
+    // Windows fiber that belongs to this context
+    LPVOID                                                      own_fiber{ nullptr };
     stack_context                                               sctx{};
     bool                                                        main_ctx{ true };
     fiber_activation_record                                       *   from{ nullptr };
@@ -102,8 +105,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
         } else {
-            if ( BOOST_LIKELY( nullptr != fiber) ) {
-                ::DeleteFiber( fiber);
+            if ( BOOST_LIKELY( nullptr != own_fiber) ) {
+                ::DeleteFiber( own_fiber);
             }
         }
     }
@@ -122,6 +125,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         current() = this;
         // context switch from parent context to `this`-context
         // context switch
+        // (contexts of the other kind might run on top of the parent context)
+        from->fiber = ::GetCurrentFiber();
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
@@ -175,6 +180,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         // returned by fiber::current()
         current() = this;
         // context switch
+        // (contexts of the other kind might run on top of the parent context)
+        from->fiber = ::GetCurrentFiber();
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
@@ -293,6 +300,7 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
         record->deallocate();
         throw std::system_error( ec, "CreateFiber() failed");
     }
+    record->own_fiber = record->fiber;
     return record;
 }
 
@@ -317,6 +325,7 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
         record->deallocate();
         throw std::system_error( ec, "CreateFiber() failed");
     }
+    record->own_fiber = record->fiber;
     return record;
 }
 
-- 
2.43.0


From 2dfb1a029465fc6ee879c484141b4b2b73915864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 29/46] fix: winfib: destructors of static and thread-local
 objects might resume contexts

---
 src/continuation.cpp | 19 ++++++++++---------
 src/fiber.cpp        | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 3a37cd6..a75d21d 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -26,28 +26,23 @@ namespace detail {
 thread_local activation_record * current_rec;
 thread_local static std::size_t counter;
 
-#if defined(BOOST_USE_UCONTEXT)
 // main context; released together with the storage of the thread because destructors
 // of objects with thread or static storage duration might still resume contexts
 alignas( activation_record) thread_local static unsigned char main_rec[sizeof( activation_record)];
-#endif
 
 // schwarz counter
 activation_record_initializer::activation_record_initializer() noexcept {
     if ( 0 == counter++) {
-#if defined(BOOST_USE_UCONTEXT)
         current_rec = new ( main_rec) activation_record();
-#else
-        current_rec = new activation_record();
-#endif
     }
 }
 
 activation_record_initializer::~activation_record_initializer() {
 #if ! defined(BOOST_USE_UCONTEXT)
-    if ( 0 == --counter) {
-        BOOST_ASSERT( current_rec->is_main_context() );
-        delete current_rec;
+    // exit() might be called by a context
+    if ( 0 == --counter && current_rec->is_main_context() ) {
+        current_rec->~activation_record();
+        current_rec = nullptr;
     }
 #endif
 }
@@ -60,6 +55,12 @@ activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
+#if ! defined(BOOST_USE_UCONTEXT)
+    if ( BOOST_UNLIKELY( nullptr == current_rec) ) {
+        // resumed by the destructor of an object with thread or static storage duration
+        current_rec = new ( main_rec) activation_record();
+    }
+#endif
     return current_rec;
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index 8a3b458..f932247 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -26,28 +26,23 @@ namespace detail {
 thread_local fiber_activation_record * fib_current_rec;
 thread_local static std::size_t counter;
 
-#if defined(BOOST_USE_UCONTEXT)
 // main context; released together with the storage of the thread because destructors
 // of objects with thread or static storage duration might still resume contexts
 alignas( fiber_activation_record) thread_local static unsigned char main_rec[sizeof( fiber_activation_record)];
-#endif
 
 // schwarz counter
 fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
     if ( 0 == counter++) {
-#if defined(BOOST_USE_UCONTEXT)
         fib_current_rec = new ( main_rec) fiber_activation_record();
-#else
-        fib_current_rec = new fiber_activation_record();
-#endif
     }
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
 #if ! defined(BOOST_USE_UCONTEXT)
-    if ( 0 == --counter) {
-        BOOST_ASSERT( fib_current_rec->is_main_context() );
-        delete fib_current_rec;
+    // exit() might be called by a context
+    if ( 0 == --counter && fib_current_rec->is_main_context() ) {
+        fib_current_rec->~fiber_activation_record();
+        fib_current_rec = nullptr;
     }
 #endif
 }
@@ -60,6 +55,12 @@ fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
+#if ! defined(BOOST_USE_UCONTEXT)
+    if ( BOOST_UNLIKELY( nullptr == fib_current_rec) ) {
+        // resumed by the destructor of an object with thread or static storage duration
+        fib_current_rec = new ( main_rec) fiber_activation_record();
+    }
+#endif
     return fib_current_rec;
 }
 
-- 
2.43.0


From 8b28ec6913b239554401d9dc4f9d955294cce7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 30/46] fix: windows/protected_fixedsize_stack: size overflow
 and failing VirtualProtect() were not recognised

---
 .../context/windows/protected_fixedsize_stack.hpp    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..fbc8eae 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -17,7 +17,6 @@ extern "C" {
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
-#include <boost/core/ignore_unused.hpp>
 
 #include <boost/context/detail/config.hpp>
 #include <boost/context/stack_context.hpp>
@@ -43,6 +42,8 @@ public:
     }
 
     stack_context allocate() {
+        // size of stack and guard-page must not exceed the address space
+        if ( size_ > static_cast< std::size_t >( -1) - 2 * traits_type::page_size() ) throw std::bad_alloc();
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
@@ -52,10 +53,11 @@ public:
         if ( ! vp) throw std::bad_alloc();
 
         DWORD old_options;
-        const BOOL result = ::VirtualProtect(
-            vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == ::VirtualProtect(
+                vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options) ) {
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 072477deaca6ae56e11a368663aff8f7dc0d0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 31/46] fix: shadow stack: did not compile with assertions,
 used the wrong system call and did not recognise its failure

---
 doc/stack.qbk                                 |  2 +-
 .../boost/context/continuation_fcontext.hpp   | 19 ++++++++++++++++---
 include/boost/context/fiber_fcontext.hpp      | 19 ++++++++++++++++---
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/doc/stack.qbk b/doc/stack.qbk
index 171a796..816e0aa 100644
--- a/doc/stack.qbk
+++ b/doc/stack.qbk
@@ -375,7 +375,7 @@ Boost.Context headers if stack protection is enabled.
 [section:shadow_stack Support for shadow stack protection]
 
 Shadow stack is part of Intel's Control-Flow Enforcement Technology. Users must
-check if syscall 'map_shadow_stack' exists, which is no.451 and then define
+check if syscall 'map_shadow_stack' exists, which is no.453 and then define
 `SHADOW_STACK_SYSCALL` before including any Boost.Context headers
 if shadow stack protection is enabled.
 
diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index e7a414d..778c8fc 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -47,9 +47,14 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
+#  include <new>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#if ! defined(__NR_map_shadow_stack)
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
@@ -195,7 +200,11 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // releases the context-stack too
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -236,7 +245,11 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // releases the context-stack too
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 504e6d4..a1d41ac 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -47,9 +47,14 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
+#  include <new>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#if ! defined(__NR_map_shadow_stack)
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
@@ -193,7 +198,11 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // releases the context-stack too
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -234,7 +243,11 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // releases the context-stack too
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From 65c0796b49d1dd0d1d2ffbec37e134bb0742992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 32/46] fix: shadow stack: returning from a context-function
 entered it again instead of finishing the process

---
 src/asm/make_x86_64_sysv_elf_gas.S | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..a4b059a 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -106,9 +106,9 @@ make_fcontext:
     call  1f
     jmp  trampoline
 1:
-    /* save address of "jmp trampoline" as return-address */
-    /* for context-function */
-    pop 0x38(%rax)
+    /* remove the address of "jmp trampoline" from the stack, it is not the */
+    /* return-address of the context-function (finish, saved above) */
+    pop  %rcx
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From 2bc0f5bf9ee79ba0b1d7174c0487ca818da0bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 33/46] fix: shadow stack of 4kB was exhausted before the stack
 of the context

---
 include/boost/context/continuation_fcontext.hpp | 14 ++++++--------
 include/boost/context/fiber_fcontext.hpp        | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 778c8fc..fb82f79 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -193,11 +193,10 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
+    // each function call takes at least 8 bytes of the stack and 8 bytes of the shadow stack,
+    // a shadow stack of same size can not be exhausted before the stack
     // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
@@ -238,11 +237,10 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
+    // each function call takes at least 8 bytes of the stack and 8 bytes of the shadow stack,
+    // a shadow stack of same size can not be exhausted before the stack
     // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a1d41ac..c97474f 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -191,11 +191,10 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
+    // each function call takes at least 8 bytes of the stack and 8 bytes of the shadow stack,
+    // a shadow stack of same size can not be exhausted before the stack
     // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
@@ -236,11 +235,10 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
+    // each function call takes at least 8 bytes of the stack and 8 bytes of the shadow stack,
+    // a shadow stack of same size can not be exhausted before the stack
     // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
-- 
2.43.0


From 4c814c3c0b41bf61a5fbc60fc3e0779c1bb2529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 34/46] fix: save the callee-saved floating-point registers in
 the ppc64 ELF port

jump_fcontext() and ontop_fcontext() did not save F14 - F31, so a context
resumed with floating-point values of the one that resumed it.
---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 89 +++++++++++++++++++++++++++---
 src/asm/make_ppc64_sysv_elf_gas.S  | 51 ++++++++++++++---
 src/asm/ontop_ppc64_sysv_elf_gas.S | 89 +++++++++++++++++++++++++++---
 3 files changed, 205 insertions(+), 24 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..4fd27f7 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +156,25 @@ jump_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+    # save F14 - F31
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -164,6 +218,25 @@ jump_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+    # restore F14 - F31
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -181,7 +254,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..2e678de 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -106,7 +141,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, 392
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +159,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, 328(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..f1d0da0 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +156,25 @@ ontop_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+    # save F14 - F31
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -163,6 +217,25 @@ ontop_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+    # restore F14 - F31
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -204,7 +277,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From edfb22f8241ef0efd4efa2c0d17352aabedc9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 35/46] fix: keep the global pointer of finish out of reach in
 the mips64 n64 port

finish read the global pointer from the context-data, which lies below the
stack pointer and has been overwritten by the frames of the context-function
when it returns: _exit() was called through a garbage pointer.
---
 src/asm/make_mips64_n64_elf_gas.S | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..132b7c9 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -63,12 +63,14 @@ make_fcontext:
     and $v0, $v1, $a0
 
     # reserve space for context-data on context-stack
-    daddiu $v0, $v0, -160
+    # including 16 bytes above it for the global pointer used by finish
+    daddiu $v0, $v0, -176
 
     # third arg of make_fcontext() == address of context-function
     sd  $a2, 152($v0)
-    # save global pointer in context-data
-    sd  $gp, 136($v0)
+    # save global pointer above the context-data, where it is not
+    # overwritten by the frames of the context-function
+    sd  $gp, 160($v0)
 
     # psudo instruction compute abs address of label finish based on GP
     dla  $t9, finish
@@ -81,12 +83,9 @@ make_fcontext:
 
 finish:
     # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    ld $gp, 0($sp)
 
     # call _exit(0)
-    #  the previous function should have left the 16 bytes incoming argument
-    #  area on the stack which we reuse for calling _exit
     dla $t9, _exit
     move $a0, $zero
     jr $t9
-- 
2.43.0


From 7852c09efb604c802b00091d37f7153eda5cdfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 36/46] fix: align the stack to 16 bytes in the sparc64 port

The mask -0xf keeps the lowest bit.
---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From 56c0a4bec98906e031e765a170fda1b785bbb99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:07 +0000
Subject: [PATCH 37/46] fix: ontop_fcontext() moved the stack pointer by 16
 bytes on Windows/arm64

The context-data has 0xd0 bytes; only 0xc0 were removed, so the resumed
context continued with a wrong stack pointer.
---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From 58628cbf069e95ad5f02c6a0040f016a6885ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 38/46] fix: ontop_fcontext() lost its context and mixed up the
 stack limits on Windows/arm

a1, which holds the context jumped from, was the scratch register of the
stack limits, which were restored in the order they were saved in; the
scratch register of jump_fcontext(), a5, does not exist.
---
 src/asm/jump_arm_aapcs_pe_armasm.asm  | 24 +++++++++++------------
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 28 +++++++++++++--------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index bca923c..10bbd47 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -39,14 +39,14 @@ jump_fcontext PROC
     mrc     p15, #0, v1, c13, c0, #2
 
     ; save current stack base
-    ldr  a5, [v1, #0x04]
-    push {a5}
+    ldr  v2, [v1, #0x04]
+    push {v2}
     ; save current stack limit
-    ldr  a5, [v1, #0x08]
-    push {a5}
+    ldr  v2, [v1, #0x08]
+    push {v2}
     ; save current deallocation stack
-    ldr  a5, [v1, #0xe0c]
-    push {a5}
+    ldr  v2, [v1, #0xe0c]
+    push {v2}
 
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
@@ -55,14 +55,14 @@ jump_fcontext PROC
     mov  sp, a2
 
     ; restore deallocation stack
-    pop  {a5}
-    str  a5, [v1, #0xe0c]
+    pop  {v2}
+    str  v2, [v1, #0xe0c]
     ; restore stack limit
-    pop  {a5}
-    str  a5, [v1, #0x08]
+    pop  {v2}
+    str  v2, [v1, #0x08]
     ; restore stack base
-    pop  {a5}
-    str  a5, [v1, #0x04]
+    pop  {v2}
+    str  v2, [v1, #0x04]
 
     ; restore hidden,V1-V8,LR
     pop {a4,v1-v8,lr}
diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index f360a8f..43839ee 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -39,14 +39,14 @@ ontop_fcontext PROC
     mrc     p15, #0, v1, c13, c0, #2
 
     ; save current stack base
-    ldr  a1, [v1, #0x04]
-    push {a1}
+    ldr  v2, [v1, #0x04]
+    push {v2}
     ; save current stack limit
-    ldr  a1, [v1, #0x08]
-    push {a1}
+    ldr  v2, [v1, #0x08]
+    push {v2}
     ; save current deallocation stack
-    ldr  a1, [v1, #0xe0c]
-    push {a1}
+    ldr  v2, [v1, #0xe0c]
+    push {v2}
 
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
@@ -54,15 +54,15 @@ ontop_fcontext PROC
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
-    ; restore stack base
-    pop  {a1}
-    str  a1, [v1, #0x04]
-    ; restore stack limit
-    pop  {a1}
-    str  a1, [v1, #0x08]
     ; restore deallocation stack
-    pop  {a1}
-    str  a1, [v1, #0xe0c]
+    pop  {v2}
+    str  v2, [v1, #0xe0c]
+    ; restore stack limit
+    pop  {v2}
+    str  v2, [v1, #0x08]
+    ; restore stack base
+    pop  {v2}
+    str  v2, [v1, #0x04]
 
     ; store parent context in A2
     mov  a2, a1
-- 
2.43.0


From 5746d12dc317e1dac81b6e7696de6c0643c0e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 39/46] fix: save the callee-saved floating-point registers on
 Windows/arm

---
 src/asm/jump_arm_aapcs_pe_armasm.asm  | 30 ++++++++++++++++----
 src/asm/make_arm_aapcs_pe_armasm.asm  | 40 ++++++++++++++++++---------
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 30 ++++++++++++++++----
 3 files changed, 77 insertions(+), 23 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index 10bbd47..dba372b 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -10,16 +10,30 @@
 ; *  -------------------------------------------------  *
 ; *  |  0  |  1  |  2  |  3  |  4  |  5  |  6  |  7  |  *
 ; *  -------------------------------------------------  *
-; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
+; *  | 0x0 | 0x4 | 0x8 | 0xc |0x10 |0x14 |0x18 |0x1c |  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  | d8  |     | d9  |     | d10 |     | d11 |     |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
-; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
+; *  |  8  |  9  | 10  | 11  | 12  | 13  | 14  | 15  |  *
 ; *  -------------------------------------------------  *
-; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
+; *  |0x20 |0x24 |0x28 |0x2c |0x30 |0x34 |0x38 |0x3c |  *
 ; *  -------------------------------------------------  *
-; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
+; *  | d12 |     | d13 |     | d14 |     | d15 |     |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  | 16  | 17  | 18  | 19  | 20  | 21  | 22  | 23  |  *
+; *  -------------------------------------------------  *
+; *  |0x40 |0x44 |0x48 |0x4c |0x50 |0x54 |0x58 |0x5c |  *
+; *  -------------------------------------------------  *
+; *  |deall|limit|base |hiddn| v1  | v2  | v3  | v4  |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  | 24  | 25  | 26  | 27  | 28  | 29  | 30  | 31  |  *
+; *  -------------------------------------------------  *
+; *  |0x60 |0x64 |0x68 |0x6c |0x70 |0x74 |0x78 |0x7c |  *
+; *  -------------------------------------------------  *
+; *  | v5  | v6  | v7  | v8  | lr  | pc  |FCTX |DATA |  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
 ; *******************************************************
@@ -48,12 +62,18 @@ jump_fcontext PROC
     ldr  v2, [v1, #0xe0c]
     push {v2}
 
+    ; save d8 - d15
+    vpush {d8-d15}
+
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
 
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
+    ; restore d8 - d15
+    vpop {d8-d15}
+
     ; restore deallocation stack
     pop  {v2}
     str  v2, [v1, #0xe0c]
diff --git a/src/asm/make_arm_aapcs_pe_armasm.asm b/src/asm/make_arm_aapcs_pe_armasm.asm
index 27cbfb0..906af97 100644
--- a/src/asm/make_arm_aapcs_pe_armasm.asm
+++ b/src/asm/make_arm_aapcs_pe_armasm.asm
@@ -10,16 +10,30 @@
 ; *  -------------------------------------------------  *
 ; *  |  0  |  1  |  2  |  3  |  4  |  5  |  6  |  7  |  *
 ; *  -------------------------------------------------  *
-; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
+; *  | 0x0 | 0x4 | 0x8 | 0xc |0x10 |0x14 |0x18 |0x1c |  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  | d8  |     | d9  |     | d10 |     | d11 |     |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
-; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
+; *  |  8  |  9  | 10  | 11  | 12  | 13  | 14  | 15  |  *
 ; *  -------------------------------------------------  *
-; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
+; *  |0x20 |0x24 |0x28 |0x2c |0x30 |0x34 |0x38 |0x3c |  *
 ; *  -------------------------------------------------  *
-; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
+; *  | d12 |     | d13 |     | d14 |     | d15 |     |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  | 16  | 17  | 18  | 19  | 20  | 21  | 22  | 23  |  *
+; *  -------------------------------------------------  *
+; *  |0x40 |0x44 |0x48 |0x4c |0x50 |0x54 |0x58 |0x5c |  *
+; *  -------------------------------------------------  *
+; *  |deall|limit|base |hiddn| v1  | v2  | v3  | v4  |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  | 24  | 25  | 26  | 27  | 28  | 29  | 30  | 31  |  *
+; *  -------------------------------------------------  *
+; *  |0x60 |0x64 |0x68 |0x6c |0x70 |0x74 |0x78 |0x7c |  *
+; *  -------------------------------------------------  *
+; *  | v5  | v6  | v7  | v8  | lr  | pc  |FCTX |DATA |  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
 ; *******************************************************
@@ -39,31 +53,31 @@ make_fcontext PROC
     bic  a1, a1, #0x0f
 
     ; reserve space for context-data on context-stack
-    sub  a1, a1, #0x48
+    sub  a1, a1, #0x88
 
     ; save top address of context_stack as 'base'
-    str  a4, [a1, #0x8]
+    str  a4, [a1, #0x48]
     ; second arg of make_fcontext() == size of context-stack
     ; compute bottom address of context-stack (limit)
     sub  a4, a4, a2
     ; save bottom address of context-stack as 'limit'
-    str  a4, [a1, #0x4]
+    str  a4, [a1, #0x44]
     ; save bottom address of context-stack as 'dealloction stack'
-    str  a4, [a1, #0x0]
+    str  a4, [a1, #0x40]
 
     ; third arg of make_fcontext() == address of context-function
-    str  a3, [a1, #0x34]
+    str  a3, [a1, #0x74]
 
     ; compute address of returned transfer_t
-    add  a2, a1, #0x38
+    add  a2, a1, #0x78
     mov  a3, a2
-    str  a3, [a1, #0xc]
+    str  a3, [a1, #0x4c]
 
     ; compute abs address of label finish
     adr  a2, finish
     ; save address of finish as return-address for context-function
     ; will be entered after context-function returns
-    str  a2, [a1, #0x30]
+    str  a2, [a1, #0x70]
 
     bx  lr ; return pointer to context-data
 
diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index 43839ee..88dffb6 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -10,16 +10,30 @@
 ; *  -------------------------------------------------  *
 ; *  |  0  |  1  |  2  |  3  |  4  |  5  |  6  |  7  |  *
 ; *  -------------------------------------------------  *
-; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
+; *  | 0x0 | 0x4 | 0x8 | 0xc |0x10 |0x14 |0x18 |0x1c |  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  | d8  |     | d9  |     | d10 |     | d11 |     |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
-; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
+; *  |  8  |  9  | 10  | 11  | 12  | 13  | 14  | 15  |  *
 ; *  -------------------------------------------------  *
-; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
+; *  |0x20 |0x24 |0x28 |0x2c |0x30 |0x34 |0x38 |0x3c |  *
 ; *  -------------------------------------------------  *
-; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
+; *  | d12 |     | d13 |     | d14 |     | d15 |     |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  | 16  | 17  | 18  | 19  | 20  | 21  | 22  | 23  |  *
+; *  -------------------------------------------------  *
+; *  |0x40 |0x44 |0x48 |0x4c |0x50 |0x54 |0x58 |0x5c |  *
+; *  -------------------------------------------------  *
+; *  |deall|limit|base |hiddn| v1  | v2  | v3  | v4  |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  | 24  | 25  | 26  | 27  | 28  | 29  | 30  | 31  |  *
+; *  -------------------------------------------------  *
+; *  |0x60 |0x64 |0x68 |0x6c |0x70 |0x74 |0x78 |0x7c |  *
+; *  -------------------------------------------------  *
+; *  | v5  | v6  | v7  | v8  | lr  | pc  |FCTX |DATA |  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
 ; *******************************************************
@@ -48,12 +62,18 @@ ontop_fcontext PROC
     ldr  v2, [v1, #0xe0c]
     push {v2}
 
+    ; save d8 - d15
+    vpush {d8-d15}
+
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
 
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
+    ; restore d8 - d15
+    vpop {d8-d15}
+
     ; restore deallocation stack
     pop  {v2}
     str  v2, [v1, #0xe0c]
-- 
2.43.0


From 4cb26c15bacf91e34c61b740e266073bb18f85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:31 +0000
Subject: [PATCH 40/46] fix: save the callee-saved floating-point registers on
 AIX/ppc64

jump_fcontext() and ontop_fcontext() saved R14-R31 only; F14-F31 belong to
the callee as well.
---
 src/asm/jump_ppc64_sysv_xcoff_gas.S  | 89 +++++++++++++++++++++++++---
 src/asm/make_ppc64_sysv_xcoff_gas.S  | 51 +++++++++++++---
 src/asm/ontop_ppc64_sysv_xcoff_gas.S | 89 +++++++++++++++++++++++++---
 3 files changed, 205 insertions(+), 24 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_xcoff_gas.S b/src/asm/jump_ppc64_sysv_xcoff_gas.S
index f835d2a..cab3dfb 100644
--- a/src/asm/jump_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/jump_ppc64_sysv_xcoff_gas.S
@@ -44,25 +44,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -79,7 +114,7 @@ jump_fcontext:
     .csect .text[PR], 5
 .jump_fcontext:
     # reserve space on stack
-    subi  1, 1, 184
+    subi  1, 1, 328
 
     std  2, 0(1)  # save TOC
     std  14, 8(1)  # save R14
@@ -100,6 +135,25 @@ jump_fcontext:
     std  29, 128(1)  # save R29
     std  30, 136(1)  # save R30
     std  31, 144(1)  # save R31
+    # save F14 - F31
+    stfd  14, 184(1)  # save F14
+    stfd  15, 192(1)  # save F15
+    stfd  16, 200(1)  # save F16
+    stfd  17, 208(1)  # save F17
+    stfd  18, 216(1)  # save F18
+    stfd  19, 224(1)  # save F19
+    stfd  20, 232(1)  # save F20
+    stfd  21, 240(1)  # save F21
+    stfd  22, 248(1)  # save F22
+    stfd  23, 256(1)  # save F23
+    stfd  24, 264(1)  # save F24
+    stfd  25, 272(1)  # save F25
+    stfd  26, 280(1)  # save F26
+    stfd  27, 288(1)  # save F27
+    stfd  28, 296(1)  # save F28
+    stfd  29, 304(1)  # save F29
+    stfd  30, 312(1)  # save F30
+    stfd  31, 320(1)  # save F31
     std  3,  152(1)  # save hidden
 
     # save CR
@@ -136,6 +190,25 @@ jump_fcontext:
     ld  29, 128(1)  # restore R29
     ld  30, 136(1)  # restore R30
     ld  31, 144(1)  # restore R31
+    # restore F14 - F31
+    lfd  14, 184(1)  # restore F14
+    lfd  15, 192(1)  # restore F15
+    lfd  16, 200(1)  # restore F16
+    lfd  17, 208(1)  # restore F17
+    lfd  18, 216(1)  # restore F18
+    lfd  19, 224(1)  # restore F19
+    lfd  20, 232(1)  # restore F20
+    lfd  21, 240(1)  # restore F21
+    lfd  22, 248(1)  # restore F22
+    lfd  23, 256(1)  # restore F23
+    lfd  24, 264(1)  # restore F24
+    lfd  25, 272(1)  # restore F25
+    lfd  26, 280(1)  # restore F26
+    lfd  27, 288(1)  # restore F27
+    lfd  28, 296(1)  # restore F28
+    lfd  29, 304(1)  # restore F29
+    lfd  30, 312(1)  # restore F30
+    lfd  31, 320(1)  # restore F31
     ld  3,  152(1)  # restore hidden
 
     # restore CR
@@ -151,7 +224,7 @@ jump_fcontext:
     mtctr  0
 
     # adjust stack
-    addi  1, 1, 184
+    addi  1, 1, 328
 
     # zero in r3 indicates first jump to context-function
     cmpdi 3, 0
diff --git a/src/asm/make_ppc64_sysv_xcoff_gas.S b/src/asm/make_ppc64_sysv_xcoff_gas.S
index 2374b50..0b45708 100644
--- a/src/asm/make_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/make_ppc64_sysv_xcoff_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -86,7 +121,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  3, 3, 248
+    subi  3, 3, 392
 
     # third arg of make_fcontext() == address of context-function descriptor
     ld   4, 0(5)
@@ -97,7 +132,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   0, 0
-    std  0, 184(3)
+    std  0, 328(3)
 
     # zero in r3 indicates first jump to context-function
     std  0, 152(3)
diff --git a/src/asm/ontop_ppc64_sysv_xcoff_gas.S b/src/asm/ontop_ppc64_sysv_xcoff_gas.S
index 546b1b2..59b872a 100644
--- a/src/asm/ontop_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/ontop_ppc64_sysv_xcoff_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -78,7 +113,7 @@ ontop_fcontext:
     .csect .text[PR], 5
 .ontop_fcontext:
     # reserve space on stack
-    subi  1, 1, 184
+    subi  1, 1, 328
 
     std  2, 0(1)  # save TOC
     std  14, 8(1)  # save R14
@@ -99,6 +134,25 @@ ontop_fcontext:
     std  29, 128(1)  # save R29
     std  30, 136(1)  # save R30
     std  31, 144(1)  # save R31
+    # save F14 - F31
+    stfd  14, 184(1)  # save F14
+    stfd  15, 192(1)  # save F15
+    stfd  16, 200(1)  # save F16
+    stfd  17, 208(1)  # save F17
+    stfd  18, 216(1)  # save F18
+    stfd  19, 224(1)  # save F19
+    stfd  20, 232(1)  # save F20
+    stfd  21, 240(1)  # save F21
+    stfd  22, 248(1)  # save F22
+    stfd  23, 256(1)  # save F23
+    stfd  24, 264(1)  # save F24
+    stfd  25, 272(1)  # save F25
+    stfd  26, 280(1)  # save F26
+    stfd  27, 288(1)  # save F27
+    stfd  28, 296(1)  # save F28
+    stfd  29, 304(1)  # save F29
+    stfd  30, 312(1)  # save F30
+    stfd  31, 320(1)  # save F31
     std  3,  152(1)  # save hidden
 
     # save CR
@@ -134,6 +188,25 @@ ontop_fcontext:
     ld  29, 128(1)  # restore R29
     ld  30, 136(1)  # restore R30
     ld  31, 144(1)  # restore R31
+    # restore F14 - F31
+    lfd  14, 184(1)  # restore F14
+    lfd  15, 192(1)  # restore F15
+    lfd  16, 200(1)  # restore F16
+    lfd  17, 208(1)  # restore F17
+    lfd  18, 216(1)  # restore F18
+    lfd  19, 224(1)  # restore F19
+    lfd  20, 232(1)  # restore F20
+    lfd  21, 240(1)  # restore F21
+    lfd  22, 248(1)  # restore F22
+    lfd  23, 256(1)  # restore F23
+    lfd  24, 264(1)  # restore F24
+    lfd  25, 272(1)  # restore F25
+    lfd  26, 280(1)  # restore F26
+    lfd  27, 288(1)  # restore F27
+    lfd  28, 296(1)  # restore F28
+    lfd  29, 304(1)  # restore F29
+    lfd  30, 312(1)  # restore F30
+    lfd  31, 320(1)  # restore F31
     ld  3,  152(1)  # restore hidden
 
     # restore CR
@@ -161,7 +234,7 @@ return_to_ctx:
     mtlr  0
 
     # adjust stack
-    addi  1, 1, 184
+    addi  1, 1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From c6017109687750f6d53b3eb9e9a5d61384bb0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:31 +0000
Subject: [PATCH 41/46] fix: save R13 and initialise the FPSCR on AIX/ppc32

R13 belongs to the callee in the 32 bit ABI. A new context took over whatever was
in the stack as its floating-point control; the hidden pointer was cleared by
a 64 bit store.
---
 src/asm/jump_ppc32_sysv_xcoff_gas.S  | 8 +++++---
 src/asm/make_ppc32_sysv_xcoff_gas.S  | 7 +++++--
 src/asm/ontop_ppc32_sysv_xcoff_gas.S | 8 +++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/asm/jump_ppc32_sysv_xcoff_gas.S b/src/asm/jump_ppc32_sysv_xcoff_gas.S
index 1854613..510ccb0 100644
--- a/src/asm/jump_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/jump_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  | R13 | link| TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -79,7 +79,8 @@ jump_fcontext:
     # save TOC
     stw   2, 20(1)
 
-    # Save registers R14 to R31.
+    # Save registers R13 to R31.
+    stw   13, 12(1)
     stw   14, 24(1)
     stw   15, 28(1)
     stw   16, 32(1)
@@ -147,7 +148,8 @@ jump_fcontext:
     # restore TOC
     lwz   2, 20(1)
 
-    # restore R14 to R31
+    # restore R13 to R31
+    lwz  13, 12(1)
     lwz  14, 24(1)
     lwz  15, 28(1)
     lwz  16, 32(1)
diff --git a/src/asm/make_ppc32_sysv_xcoff_gas.S b/src/asm/make_ppc32_sysv_xcoff_gas.S
index e803757..2d3be41 100644
--- a/src/asm/make_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/make_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  | R13 | link| TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -88,7 +88,10 @@ make_fcontext:
     stw  0, 256(3)
 
     # zero in r3 indicates first jump to context-function
-    std  0, 244(3)
+    stw  0, 244(3)
+
+    mffs  0  # load FPSCR
+    stfd  0, 248(3)  # save FPSCR
 
     # load LR
     mflr  0
diff --git a/src/asm/ontop_ppc32_sysv_xcoff_gas.S b/src/asm/ontop_ppc32_sysv_xcoff_gas.S
index 9dfb492..8926dc7 100644
--- a/src/asm/ontop_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/ontop_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  | R13 | link| TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -80,7 +80,8 @@ ontop_fcontext:
     # save TOC
     stw   2, 20(1)
 
-    # Save registers R14 to R31.
+    # Save registers R13 to R31.
+    stw   13, 12(1)
     stw   14, 24(1)
     stw   15, 28(1)
     stw   16, 32(1)
@@ -138,7 +139,8 @@ ontop_fcontext:
     lwz   0, 4(1)
     mtcr  0
 
-    # restore R14 to R31
+    # restore R13 to R31
+    lwz  13, 12(1)
     lwz  14, 24(1)
     lwz  15, 28(1)
     lwz  16, 32(1)
-- 
2.43.0


From aeeb7604cc155b4eb2b337875b80e9cca23ece81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:31 +0000
Subject: [PATCH 42/46] fix: context-functions were entered with a misaligned
 stack on macOS/ppc32

---
 src/asm/make_ppc32_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_ppc32_sysv_macho_gas.S b/src/asm/make_ppc32_sysv_macho_gas.S
index e7b0c7a..9b4fa3a 100644
--- a/src/asm/make_ppc32_sysv_macho_gas.S
+++ b/src/asm/make_ppc32_sysv_macho_gas.S
@@ -87,7 +87,7 @@ _make_fcontext:
 
     ; reserve space for context-data on context-stack
     ; including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  r3, r3, 336
+    subi  r3, r3, 340
 
     ; third arg of make_fcontext() == address of context-function
     ; store as trampoline's R31
-- 
2.43.0


From f98d23165230692dbf7da8e13aabe1ee6308a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:31 +0000
Subject: [PATCH 43/46] fix: contexts could not be entered on macOS/ppc64

make_fcontext() cut stack top and context-function to 32 bits, jump_fcontext()
took the first entry for a return, ontop_fcontext() passed its arguments in the
wrong registers, and F14-F31 were not saved.
---
 src/asm/jump_ppc64_sysv_macho_gas.S  |  91 ++++++++++++++++++++---
 src/asm/make_ppc64_sysv_macho_gas.S  |  67 ++++++++++++-----
 src/asm/ontop_ppc64_sysv_macho_gas.S | 103 +++++++++++++++++++++++----
 3 files changed, 221 insertions(+), 40 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_macho_gas.S b/src/asm/jump_ppc64_sysv_macho_gas.S
index e4d8944..5c1bb0f 100644
--- a/src/asm/jump_ppc64_sysv_macho_gas.S
+++ b/src/asm/jump_ppc64_sysv_macho_gas.S
@@ -12,7 +12,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |    R13    |    R14    |    R15    |    R16    |  *
+ *  |           |    R14    |    R15    |    R16    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  |    FCTX   |    DATA   |           |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -73,7 +108,7 @@
 
 _jump_fcontext:
     ; reserve space on stack
-    subi  r1, r1, 184
+    subi  r1, r1, 328
 
     std  r14, 8(r1)  ; save R14
     std  r15, 16(r1)  ; save R15
@@ -93,6 +128,25 @@ _jump_fcontext:
     std  r29, 128(r1)  ; save R29
     std  r30, 136(r1)  ; save R30
     std  r31, 144(r1)  ; save R31
+    ; save F14 - F31
+    stfd  f14, 184(r1)  ; save F14
+    stfd  f15, 192(r1)  ; save F15
+    stfd  f16, 200(r1)  ; save F16
+    stfd  f17, 208(r1)  ; save F17
+    stfd  f18, 216(r1)  ; save F18
+    stfd  f19, 224(r1)  ; save F19
+    stfd  f20, 232(r1)  ; save F20
+    stfd  f21, 240(r1)  ; save F21
+    stfd  f22, 248(r1)  ; save F22
+    stfd  f23, 256(r1)  ; save F23
+    stfd  f24, 264(r1)  ; save F24
+    stfd  f25, 272(r1)  ; save F25
+    stfd  f26, 280(r1)  ; save F26
+    stfd  f27, 288(r1)  ; save F27
+    stfd  f28, 296(r1)  ; save F28
+    stfd  f29, 304(r1)  ; save F29
+    stfd  f30, 312(r1)  ; save F30
+    stfd  f31, 320(r1)  ; save F31
     std  r3,  152(r1)  ; save hidden
 
     ; save CR
@@ -128,6 +182,25 @@ _jump_fcontext:
     ld  r29, 128(r1)  ; restore R29
     ld  r30, 136(r1)  ; restore R30
     ld  r31, 144(r1)  ; restore R31
+    ; restore F14 - F31
+    lfd  f14, 184(r1)  ; restore F14
+    lfd  f15, 192(r1)  ; restore F15
+    lfd  f16, 200(r1)  ; restore F16
+    lfd  f17, 208(r1)  ; restore F17
+    lfd  f18, 216(r1)  ; restore F18
+    lfd  f19, 224(r1)  ; restore F19
+    lfd  f20, 232(r1)  ; restore F20
+    lfd  f21, 240(r1)  ; restore F21
+    lfd  f22, 248(r1)  ; restore F22
+    lfd  f23, 256(r1)  ; restore F23
+    lfd  f24, 264(r1)  ; restore F24
+    lfd  f25, 272(r1)  ; restore F25
+    lfd  f26, 280(r1)  ; restore F26
+    lfd  f27, 288(r1)  ; restore F27
+    lfd  f28, 296(r1)  ; restore F28
+    lfd  f29, 304(r1)  ; restore F29
+    lfd  f30, 312(r1)  ; restore F30
+    lfd  f31, 320(r1)  ; restore F31
     ld  r3,  152(r1)  ; restore hidden
 
     ; restore CR
@@ -143,7 +216,7 @@ _jump_fcontext:
     mtctr  r12
 
     ; adjust stack
-    addi  r1, r1, 184
+    addi  r1, r1, 328
 
     ; zero in r3 indicates first jump to context-function
     cmpdi r3, 0
diff --git a/src/asm/make_ppc64_sysv_macho_gas.S b/src/asm/make_ppc64_sysv_macho_gas.S
index d8cdd2d..31bd5c1 100644
--- a/src/asm/make_ppc64_sysv_macho_gas.S
+++ b/src/asm/make_ppc64_sysv_macho_gas.S
@@ -12,7 +12,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |    R13    |    R14    |    R15    |    R16    |  *
+ *  |           |    R14    |    R15    |    R16    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  |    FCTX   |    DATA   |           |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -75,23 +110,21 @@ _make_fcontext:
 
     ; first arg of make_fcontext() == top address of context-function
     ; shift address in R3 to lower 16 byte boundary
-    clrrwi  r3, r3, 4
+    clrrdi  r3, r3, 4
 
     ; reserve space for context-data on context-stack
     ; including 64 byte of linkage + parameter area (R1  16 == 0)
-    subi  r3, r3, 240
+    subi  r3, r3, 392
 
     ; third arg of make_fcontext() == address of context-function
-    stw  r5, 176(r3)
+    std  r5, 176(r3)
 
     ; set back-chain to zero
     li   r0, 0
-    std  r0, 184(r3)
+    std  r0, 328(r3)
 
-    ; compute address of returned transfer_t
-    addi r0, r3, 224
-    mr   r4, r0
-    std  r4, 152(r3)
+    ; zero in r3 indicates first jump to context-function
+    std  r0, 152(r3)
 
     ; load LR
     mflr  r0
@@ -117,9 +150,9 @@ finish:
     ; save return address into R0
     mflr  r0
     ; save return address on stack, set up stack frame
-    stw  r0, 8(r1)
+    std  r0, 8(r1)
     ; allocate stack space, R1  16 == 0
-    stwu  r1, -32(r1)
+    stdu  r1, -32(r1)
 
     ; set return value to zero
     li  r3, 0
diff --git a/src/asm/ontop_ppc64_sysv_macho_gas.S b/src/asm/ontop_ppc64_sysv_macho_gas.S
index 5cd6359..bb278c2 100644
--- a/src/asm/ontop_ppc64_sysv_macho_gas.S
+++ b/src/asm/ontop_ppc64_sysv_macho_gas.S
@@ -12,7 +12,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |    R13    |    R14    |    R15    |    R16    |  *
+ *  |           |    R14    |    R15    |    R16    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |    CR     |    LR     |    PC     |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  |    FCTX   |    DATA   |           |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    |back-chain | cr saved  | lr saved  |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  | compiler  |  linker   | TOC saved |   FCTX    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |   DATA    |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -73,7 +108,7 @@
 
 _ontop_fcontext:
     ; reserve space on stack
-    subi  r1, r1, 184
+    subi  r1, r1, 328
 
     std  r14, 8(r1)  ; save R14
     std  r15, 16(r1)  ; save R15
@@ -93,6 +128,25 @@ _ontop_fcontext:
     std  r29, 128(r1)  ; save R29
     std  r30, 136(r1)  ; save R30
     std  r31, 144(r1)  ; save R31
+    ; save F14 - F31
+    stfd  f14, 184(r1)  ; save F14
+    stfd  f15, 192(r1)  ; save F15
+    stfd  f16, 200(r1)  ; save F16
+    stfd  f17, 208(r1)  ; save F17
+    stfd  f18, 216(r1)  ; save F18
+    stfd  f19, 224(r1)  ; save F19
+    stfd  f20, 232(r1)  ; save F20
+    stfd  f21, 240(r1)  ; save F21
+    stfd  f22, 248(r1)  ; save F22
+    stfd  f23, 256(r1)  ; save F23
+    stfd  f24, 264(r1)  ; save F24
+    stfd  f25, 272(r1)  ; save F25
+    stfd  f26, 280(r1)  ; save F26
+    stfd  f27, 288(r1)  ; save F27
+    stfd  f28, 296(r1)  ; save F28
+    stfd  f29, 304(r1)  ; save F29
+    stfd  f30, 312(r1)  ; save F30
+    stfd  f31, 320(r1)  ; save F31
     std  r3,  152(r1)  ; save hidden
 
     ; save CR
@@ -128,7 +182,26 @@ _ontop_fcontext:
     ld  r29, 128(r1)  ; restore R29
     ld  r30, 136(r1)  ; restore R30
     ld  r31, 144(r1)  ; restore R31
-    ld  r4,  152(r1)  ; restore hidden
+    ; restore F14 - F31
+    lfd  f14, 184(r1)  ; restore F14
+    lfd  f15, 192(r1)  ; restore F15
+    lfd  f16, 200(r1)  ; restore F16
+    lfd  f17, 208(r1)  ; restore F17
+    lfd  f18, 216(r1)  ; restore F18
+    lfd  f19, 224(r1)  ; restore F19
+    lfd  f20, 232(r1)  ; restore F20
+    lfd  f21, 240(r1)  ; restore F21
+    lfd  f22, 248(r1)  ; restore F22
+    lfd  f23, 256(r1)  ; restore F23
+    lfd  f24, 264(r1)  ; restore F24
+    lfd  f25, 272(r1)  ; restore F25
+    lfd  f26, 280(r1)  ; restore F26
+    lfd  f27, 288(r1)  ; restore F27
+    lfd  f28, 296(r1)  ; restore F28
+    lfd  f29, 304(r1)  ; restore F29
+    lfd  f30, 312(r1)  ; restore F30
+    lfd  f31, 320(r1)  ; restore F31
+    ld  r3,  152(r1)  ; restore hidden
 
     ; restore CR
     ld  r0, 160(r1)
@@ -139,14 +212,16 @@ _ontop_fcontext:
     ; ignore PC
 
     ; adjust stack
-    addi  r1, r1, 184
+    addi  r1, r1, 328
 
-    ; return transfer_t
-    std  r7, 0(r4)
-    std  r5, 8(r4)
+    ; copy transfer_t into ontop_fn arg registers
+    mr  r4, r7
+    ; arg pointer already in r5
+    ; hidden arg already in r3
 
     ; restore CTR
-    mtctr  r6
+    mr  r12, r6
+    mtctr  r12
 
     ; jump to context
     bctr
-- 
2.43.0


From ef6f4bcf393f76a391fb3caae7f7d420d5fadcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:31 +0000
Subject: [PATCH 44/46] fix: context-functions were entered with a misaligned
 stack on macOS/i386

---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From 2c5fd8743ce2f2297b35d8ca50115fe7013fc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:27 +0000
Subject: [PATCH 45/46] fix: handles of terminated contexts were streamed as
 live contexts (ucontext, WinFiber)

---
 include/boost/context/continuation_ucontext.hpp | 4 ++--
 include/boost/context/continuation_winfib.hpp   | 4 ++--
 include/boost/context/fiber_ucontext.hpp        | 4 ++--
 include/boost/context/fiber_winfib.hpp          | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 9de70cf..edaabbf 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -519,7 +519,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -544,7 +544,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index a21b84a..a96e23b 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -450,7 +450,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -475,7 +475,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 9645de5..31e0a40 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -569,7 +569,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -594,7 +594,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 71725c4..3ec8608 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -453,7 +453,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -478,7 +478,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
-- 
2.43.0


From f658ec3214f42b6f7e2a361235aa8c01f0b83f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:41 +0000
Subject: [PATCH 46/46] fix: handles of terminated contexts were ordered among
 live contexts (ucontext, WinFiber)

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/continuation_winfib.hpp   | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 include/boost/context/fiber_winfib.hpp          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index edaabbf..2389c45 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -511,7 +511,7 @@ public:
     }
 
     bool operator<( continuation const& other) const noexcept {
-        return ptr_ < other.ptr_;
+        return ( * this ? ptr_ : nullptr) < ( other ? other.ptr_ : nullptr);
     }
 
     #if !defined(BOOST_EMBTC)
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index a96e23b..bc540c2 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -442,7 +442,7 @@ public:
     }
 
     bool operator<( continuation const& other) const noexcept {
-        return ptr_ < other.ptr_;
+        return ( * this ? ptr_ : nullptr) < ( other ? other.ptr_ : nullptr);
     }
     
     #if !defined(BOOST_EMBTC)
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 31e0a40..ac0ee9c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -561,7 +561,7 @@ public:
     }
 
     bool operator<( fiber const& other) const noexcept {
-        return ptr_ < other.ptr_;
+        return ( * this ? ptr_ : nullptr) < ( other ? other.ptr_ : nullptr);
     }
 
     #if !defined(BOOST_EMBTC)
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 3ec8608..b6293c9 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -445,7 +445,7 @@ public:
     }
 
     bool operator<( fiber const& other) const noexcept {
-        return ptr_ < other.ptr_;
+        return ( * this ? ptr_ : nullptr) < ( other ? other.ptr_ : nullptr);
     }
     
     #if !defined(BOOST_EMBTC)
-- 
2.43.0

