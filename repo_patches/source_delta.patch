From 702107cbd4d0c84bfa7c5a2d46f5f0403698ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 01/10] fix: loongarch64: separate the assembly lines of
 switch_and_throw

The template strings were missing their commas, so the crate did not
compile with the asm-unwind feature on this target.
---
 src/arch/loongarch64.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index 8985693..87879a9 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -412,19 +412,19 @@ pub unsafe fn switch_and_throw(
         "la.pcrel $ra, 0f",
 
         // Save the registers of the parent context.
-        "addi.d $sp, $sp, -32"
-        "st.d $s8, $sp, 16"
-        "st.d $ra, $sp, 8"
-        "st.d $fp, $sp, 0"
+        "addi.d $sp, $sp, -32",
+        "st.d $s8, $sp, 16",
+        "st.d $ra, $sp, 8",
+        "st.d $fp, $sp, 0",
 
         // Update the parent link near the base of the coroutine stack.
-        "addi.d $t1, $sp, 16"
-        "st.d $t1, $a1, -16"
+        "addi.d $t1, $sp, 16",
+        "st.d $t1, $a1, -16",
 
         // Load the coroutine registers, with the saved PC into RA.
-        "ld.d $ra, $t0, 16"
-        "ld.d $s8, $t0, 8"
-        "ld.d $fp, $t0, 0"
+        "ld.d $ra, $t0, 16",
+        "ld.d $s8, $t0, 8",
+        "ld.d $fp, $t0, 0",
 
         // Switch to the coroutine stack while popping the saved registers and
         // padding.
-- 
2.43.0


From b5bf0351645ec95a60aaad8df3e7492a35aef03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 02/10] fix: loongarch64: restore the right stack pointer after
 switch_and_throw

The parent link points 16 bytes above the saved registers, as in
switch_and_link, so only the remaining 16 bytes have to be popped.
---
 src/arch/loongarch64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index 87879a9..a945ebf 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -448,7 +448,7 @@ pub unsafe fn switch_and_throw(
         "0:",
 
         // Switch back to our stack and free the saved registers.
-        "addi.d $sp, $a2, 32",
+        "addi.d $sp, $a2, 16",
 
         // Helper function to trigger stack unwinding.
         throw = sym throw,
-- 
2.43.0


From 8451366d750e46c3bff810d05d6ed389a826542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 03/10] fix: x86_64 windows: add the missing colon to the
 return label of switch_and_throw

Without it the template does not assemble with the asm-unwind feature.
---
 src/arch/x86_64_windows.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index 3133047..da2492a 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -556,7 +556,7 @@ pub unsafe fn switch_and_throw(
 
         // Upon returning, our register state is just like a normal return into
         // switch_and_link().
-        "2",
+        "2:",
 
         // This is copied from the second half of switch_and_link().
         "pop rbx",
-- 
2.43.0


From 7191bb551e11323e082574f6b0bf01a8f1c66156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 04/10] fix: arm: call the on_stack trampoline with BL

BLX with an immediate does not exist on M-profile cores, so code using
on_stack did not assemble there. The trampoline is in the instruction set
of the caller, and the linker converts BL into BLX where it is not.
---
 src/arch/arm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/arm.rs b/src/arch/arm.rs
index 02420d8..e682eb0 100644
--- a/src/arch/arm.rs
+++ b/src/arch/arm.rs
@@ -714,7 +714,7 @@ pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // expect this and may generate incorrect entries in the exception handling
     // table. We work around this by adding a NOP instruction after the call.
     asm_may_unwind_root!(
-        concat!("blx ", asm_mangle!("stack_call_trampoline")),
+        concat!("bl ", asm_mangle!("stack_call_trampoline")),
         "nop",
         in("r0") arg,
         in("r1") stack.base().get(),
-- 
2.43.0


From c4adb20d25dc6dfe19952efca16741a56dbfccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 05/10] fix: never drop the initial closure twice if its
 destructor panics

---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..88f7731 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as done first: if the destructor panics then
+            // the object must not be dropped a second time.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 66e86538fb52ce650cd13dd63eeda615627c6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 06/10] fix: reject over-aligned zero-sized objects which would
 move the stack pointer outside the stack

---
 src/arch/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..117180b 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -117,6 +117,10 @@ cfg_if::cfg_if! {
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
     // Sanity check to avoid stack overflows.
     assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    assert!(
+        mem::align_of::<T>() <= 1024,
+        "type alignment is too big to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0


From 06e5889c306a251e23d12e65ae8c41b2fcb186b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 07/10] fix: force_unwind accepted its own payload thrown by
 the destructor of a yielded value while the coroutine was still suspended
 (asm-unwind)

---
 src/coroutine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 88f7731..21d3ef4 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -380,7 +380,11 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
                 Ok(_) => panic!("the ForcedUnwind panic was caught and not rethrown"),
                 Err(e) => {
                     if let Some(forced_unwind) = e.downcast_ref::<unwind::ForcedUnwind>() {
-                        if forced_unwind.0 == stack_ptr {
+                        // With the asm-unwind feature the payload can also
+                        // come from the destructor of a value that was yielded
+                        // in response, in which case the coroutine is still
+                        // suspended.
+                        if forced_unwind.0 == stack_ptr && self.done() {
                             return;
                         }
                     }
-- 
2.43.0


From 01a7f6ea4f0329d328b2c5e82862a5b29648407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 08/10] fix: i686-pc-windows-gnu: the return address of
 on_stack's call lay outside the asm block that unwinders attribute it to
 (missing NOP after a signal frame call)

---
 src/arch/x86_windows.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index 4404164..fffac29 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -856,8 +856,11 @@ pub unsafe fn on_stack<S: Stack>(arg: *mut u8, stack: S, f: StackCallFunc) {
     push(&mut sp, Some(teb.StackLimit as StackWord));
     push(&mut sp, Some(teb.StackBase as StackWord));
 
+    // See the corresponding code in x86.rs for why a NOP instruction is needed
+    // after the call: .cfi_signal_frame is used on the GNU targets.
     asm_may_unwind_root!(
         concat!("call ", asm_mangle!("stack_call_trampoline")),
+        "nop",
         in("ecx") arg,
         in("edx") sp,
         in("eax") f,
-- 
2.43.0


From 62beb6363c81d8634ba4d0d4b9a2feefaf994a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 09/10] fix: riscv: don't jump to the coroutine through t0

The RISC-V calling convention treats x5/t0 as an alternate link register, so
'jalr t0' and 'jr t0' pop an entry from the return-address stack. Every
resume/suspend pair consumed one more prediction than it pushed. Use t1.
---
 src/arch/riscv.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index 153937a..d2c12e2 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -195,10 +195,11 @@ global_asm!(
     concat!(".cfi_offset ra, ", xlen_bytes!(-3)),
     concat!(".cfi_offset s0, ", xlen_bytes!(-4)),
     // As in the original x86_64 code, hand-write the call operation so that it
-    // doesn't push an entry into the CPU's return prediction stack.
+    // doesn't push an entry into the CPU's return prediction stack. This must
+    // not use T0, which is treated as an alternate link register.
     concat!("lla ra, ", asm_mangle!("stack_init_trampoline_return")),
-    l!("t0", 1, "a1"),
-    "jr t0",
+    l!("t1", 1, "a1"),
+    "jr t1",
     asm_function_alt_entry!("stack_init_trampoline_return"),
     // This UNIMP is necessary because of our use of .cfi_signal_frame earlier.
     "unimp",
@@ -303,9 +304,11 @@ pub unsafe fn switch_and_link(
         // DW_CFA_GNU_args_size that may have been set in the current function.
         cfi_reset_args_size_root!(),
 
-        // Read the saved PC from the coroutine stack and call it.
-        l!("t0", 2, "a2"),
-        "jalr t0",
+        // Read the saved PC from the coroutine stack and call it. This must not
+        // use T0: it is treated as an alternate link register, so jumping
+        // through it would pop an entry from the CPU's return prediction stack.
+        l!("t1", 2, "a2"),
+        "jalr t1",
 
         // Upon returning, our register state contains the following:
         // - A2: Our stack pointer + 2 words.
-- 
2.43.0


From 731b0deb412433525ce0466834dff1463c56ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 10/10] fix: use Valgrind's instruction sequence on AArch64

The special instruction preamble that Valgrind recognises on AArch64 rotates by
3, 13, 51 and 61 (unlike x86_64, where it is 3, 13, 61 and 51). With the last
two in the wrong order the requests were not recognised and stacks were never
registered.
---
 src/stack/valgrind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack/valgrind.rs b/src/stack/valgrind.rs
index 3822f90..010d84f 100644
--- a/src/stack/valgrind.rs
+++ b/src/stack/valgrind.rs
@@ -53,8 +53,8 @@ cfg_if::cfg_if! {
             core::arch::asm!(
                 "ror x12, x12, #3",
                 "ror x12, x12, #13",
-                "ror x12, x12, #61",
                 "ror x12, x12, #51",
+                "ror x12, x12, #61",
                 "orr x10, x10, x10",
                 inout("x3") default => result,
                 in("x4") args.as_ptr(),
-- 
2.43.0

