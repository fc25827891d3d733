// Appended to a copy of the crate's src/coder/coder_alloc.rs on every run: the
// contract of CoderStateAlloc, for every capacity and length of a stack, discharged
// by Kani (CBMC). Kani checks in each harness that every pointer that is read,
// reallocated or freed is live, with the layout it was allocated with, that nothing
// is freed twice and (--memory-leak-check) that nothing is left at the end.

#[cfg(kani)]
mod vx_kani {
    use super::*;
    use std::mem::size_of;

    /// any stack of frames. Frames have nothing to drop, and these functions do not
    /// look at them, so they are left as they are in memory.
    fn any_stack<'a>() -> Vec<StackFrame<'a>> {
        let n: usize = kani::any();
        kani::assume(n <= isize::MAX as usize / size_of::<StackFrame<'static>>());
        let mut v: Vec<StackFrame<'_>> = Vec::with_capacity(n);
        let m: usize = kani::any();
        kani::assume(m <= v.capacity());
        unsafe { v.set_len(m); }
        v
    }

    /// what is made into an allocation and recovered is an empty stack in the same memory
    #[kani::proof]
    fn recovered() {
        let v = any_stack();
        let p = v.as_ptr() as usize;
        let c = v.capacity();
        let b = CoderStateAlloc::from_stack(v).into_stack();
        assert!(b.len() == 0, "a recovered stack is empty");
        assert!(b.capacity() == c && b.as_ptr() as usize == p, "a recovered stack is the memory that was given");
        drop(b);
    }

    /// a recovered stack can be used like any other, and made into an allocation again
    #[kani::proof]
    fn reused() {
        let mut b = CoderStateAlloc::from_stack(any_stack()).into_stack();
        let more: usize = kani::any();
        kani::assume(more <= 64);
        b.reserve(more);
        let a = CoderStateAlloc::from_stack(b);
        if kani::any() { drop(a.into_stack()); } else { drop(a); }
    }

    /// an allocation frees its memory, once
    #[kani::proof]
    fn freed() {
        drop(CoderStateAlloc::from_stack(any_stack()));
    }

    /// a new allocation, and a clone of one, own memory of their own
    #[kani::proof]
    fn made() {
        let a = if kani::any() { CoderStateAlloc::new() } else { CoderStateAlloc::default() };
        let b = a.into_stack();
        assert!(b.len() == 0, "the stack of a new allocation is empty");
    }
    #[kani::proof]
    fn cloned() {
        let a = CoderStateAlloc::from_stack(any_stack());
        let b = a.clone();
        if kani::any() {
            drop(a);
            let v = b.into_stack();
            assert!(v.len() == 0, "the stack of a clone is empty");
        } else {
            drop(b);
            let v = a.into_stack();
            assert!(v.len() == 0, "the stack of what was cloned is empty");
        }
    }
}
