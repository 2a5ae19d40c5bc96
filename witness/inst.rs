// Instantiates every generic entry point, for small, large and over-aligned types, so that its
// inline assembly goes through the assembler. Compiled to an object file only, never run.
#![no_std]
use corosensei::stack::{Stack, StackPointer};
use corosensei::trap::TrapHandlerRegs;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
pub struct S(pub StackPointer, pub StackPointer);
unsafe impl Stack for S {
    fn base(&self) -> StackPointer { self.0 }
    fn limit(&self) -> StackPointer { self.1 }
    #[cfg(windows)]
    fn teb_fields(&self) -> corosensei::stack::StackTebFields {
        corosensei::stack::StackTebFields { StackBase: 0, StackLimit: 0, DeallocationStack: 0, GuaranteedStackBytes: 0 }
    }
    #[cfg(windows)]
    fn update_teb_fields(&mut self, _: usize, _: usize) {}
}
#[repr(align(64))]
pub struct A(pub u8);
macro_rules! inst { ($m:ident, $i:ty, $y:ty, $r:ty) => { pub mod $m {
    use super::*;
    pub type C = Coroutine<$i, $y, $r, S>;
    pub fn with_stack(s: S, f: fn(&Yielder<$i, $y>, $i) -> $r) -> C { Coroutine::with_stack(s, f) }
    pub fn closure(s: S, a: A, r: fn() -> $r) -> C { Coroutine::with_stack(s, move |_: &Yielder<$i, $y>, _: $i| { let _a = &a; r() }) }
    pub fn resume(c: &mut C, i: $i) -> CoroutineResult<$y, $r> { c.resume(i) }
    pub fn started(c: &C) -> (bool, bool) { (c.started(), c.done()) }
    pub unsafe fn reset(c: &mut C) { c.force_reset() }
    pub fn unwind(c: &mut C) { c.force_unwind() }
    pub fn into(c: C) -> S { c.into_stack() }
    pub fn drop(_: C) {}
    pub unsafe fn trap(c: &C, f: fn() -> $r) -> TrapHandlerRegs { c.trap_handler().setup_trap_handler(move || f()) }
    pub fn bounds(c: &C, sp: usize) -> bool { c.trap_handler().stack_ptr_in_bounds(sp) }
    pub fn suspend(y: &Yielder<$i, $y>, v: $y) -> $i { y.suspend(v) }
    pub fn parent(y: &Yielder<$i, $y>, f: fn() -> $r) -> $r { y.on_parent_stack(f) }
    pub fn on(s: S, f: fn() -> $r) -> $r { on_stack(s, f) }
    pub fn on_ref(s: &mut S, f: fn() -> $r) -> $r { on_stack(s, f) }
} } }
inst!(word, usize, usize, usize);
inst!(unit, (), (), ());
inst!(big, [u64; 9], [u64; 9], [u64; 9]);
inst!(aligned, A, A, A);
#[cfg(feature = "default-stack")]
pub mod dflt {
    use corosensei::{stack::DefaultStack, Coroutine};
    pub fn new(n: usize) -> Option<DefaultStack> { DefaultStack::new(n).ok() }
    pub fn coro() -> Coroutine<usize, usize, usize> { Coroutine::new(|y: &corosensei::Yielder<usize, usize>, i| y.suspend(i)) }
}
