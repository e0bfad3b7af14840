//! Stands in for `std` in the code under test: everything is the real std except the locks of
//! `std::sync`, whose every acquisition and release is a scheduling point of the explorer.
pub use ::std::*;
pub mod real { pub use ::std::sync::Mutex; }
pub mod sched {
    use ::std::cell::RefCell;
    use ::std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    use ::std::sync::{Arc, Condvar, Mutex};
    #[derive(Clone, Copy)]
    pub enum Wait { Start, Run, Excl(*const AtomicI64), Shared(*const AtomicI64), Done }
    unsafe impl Send for Wait {}
    pub struct In { pub w: Vec<Wait>, pub cur: usize, pub path: Vec<(usize, usize)>, pub pos: usize, pub stop: Option<String>, pub steps: usize, pub clock: usize }
    pub struct Exec { pub m: Mutex<In>, pub c: Condvar }
    pub struct Abort;
    thread_local! { pub static CTX: RefCell<Option<(Arc<Exec>, usize)>> = RefCell::new(None); }
    fn free(w: &Wait) -> bool {
        unsafe { match w { Wait::Start | Wait::Run => true, Wait::Excl(p) => (**p).load(SeqCst) == 0, Wait::Shared(p) => (**p).load(SeqCst) >= 0, Wait::Done => false } }
    }
    impl Exec {
        pub fn new(n: usize, path: Vec<(usize, usize)>) -> Arc<Exec> {
            Arc::new(Exec { m: Mutex::new(In { w: vec![Wait::Start; n], cur: usize::MAX, path, pos: 0, stop: None, steps: 0, clock: 0 }), c: Condvar::new() })
        }
        /// Picks who runs next: the next choice of the path under exploration, or the first one possible.
        pub fn pick(&self, g: &mut In) {
            // a thread runs up to its first access without a choice
            if let Some(i) = (0..g.w.len()).find(|&i| matches!(g.w[i], Wait::Start)) { g.cur = i; self.c.notify_all(); return; }
            let en: Vec<usize> = (0..g.w.len()).filter(|&i| free(&g.w[i])).collect();
            if en.is_empty() {
                if g.w.iter().any(|w| !matches!(w, Wait::Done)) && g.stop.is_none() {
                    let s: Vec<String> = (0..g.w.len()).filter(|&i| !matches!(g.w[i], Wait::Done)).map(|i| i.to_string()).collect();
                    g.stop = Some(format!("deadlock: thread(s) {} wait for a lock that nobody will release", s.join(",")));
                }
                g.cur = usize::MAX;
                self.c.notify_all();
                return;
            }
            g.steps += 1;
            if g.steps > 20000 && g.stop.is_none() { g.stop = Some("a call does not come to an end".into()); self.c.notify_all(); }
            let mut k = 0;
            if en.len() > 1 {
                if g.pos < g.path.len() { k = g.path[g.pos].0; g.path[g.pos].1 = en.len(); } else { g.path.push((0, en.len())); }
                if k >= en.len() { k = 0; }
                g.pos += 1;
            }
            g.cur = en[k];
            self.c.notify_all();
        }
        pub fn wait_turn(&self, me: usize) {
            let mut g = self.m.lock().unwrap();
            loop {
                if g.stop.is_some() { drop(g); ::std::panic::resume_unwind(Box::new(Abort)); }
                if g.cur == me { if !matches!(g.w[me], Wait::Start) && !ENTERED.with(|f| f.replace(true)) { g.clock += 1; let t = g.clock; FROM.with(|f| f.set(t)); } g.w[me] = Wait::Run; return; }
                g = self.c.wait(g).unwrap();
            }
        }
        pub fn switch(&self, me: usize, w: Wait) {
            { let mut g = self.m.lock().unwrap(); g.w[me] = w; self.pick(&mut g); }
            if !matches!(w, Wait::Done) { self.wait_turn(me); }
        }
    }
    fn ctx() -> Option<(Arc<Exec>, usize)> { CTX.try_with(|c| c.borrow().clone()).ok().flatten() }
    // when the current call made its first access
    thread_local! { pub static FROM: ::std::cell::Cell<usize> = const { ::std::cell::Cell::new(0) }; }
    thread_local! { static ENTERED: ::std::cell::Cell<bool> = const { ::std::cell::Cell::new(true) }; }
    /// A shared access: another thread may run before it.  What a thread does up to its next access is one step.
    pub fn access() { if ::std::thread::panicking() { return; } if let Some((e, me)) = ctx() { e.switch(me, Wait::Run); } }
    pub fn begin() { ENTERED.with(|f| f.set(false)); FROM.with(|f| f.set(0)); }
    /// The times of the current call: from its first access to now.
    pub fn end() -> (usize, usize) {
        let (e, _) = ctx().unwrap();
        let mut g = e.m.lock().unwrap();
        if !ENTERED.with(|f| f.replace(true)) { g.clock += 1; let t = g.clock; FROM.with(|f| f.set(t)); }
        g.clock += 1;
        (FROM.with(|f| f.get()), g.clock)
    }
    pub fn acquire(p: &AtomicI64, shared: bool) {
        if let Some((e, me)) = ctx() {
            if !::std::thread::panicking() { e.switch(me, if shared { Wait::Shared(p) } else { Wait::Excl(p) }); }
        } else if (shared && p.load(SeqCst) < 0) || (!shared && p.load(SeqCst) != 0) {
            ::std::panic::resume_unwind(Box::new(Abort));   // a single thread waiting for itself
        }
        if shared { p.fetch_add(1, SeqCst); } else { p.store(-1, SeqCst); }
    }
    pub fn try_acquire(p: &AtomicI64, shared: bool) -> bool {
        access();
        let s = p.load(SeqCst);
        if shared { if s < 0 { return false; } p.store(s + 1, SeqCst); } else { if s != 0 { return false; } p.store(-1, SeqCst); }
        true
    }
    pub fn release(p: &AtomicI64, shared: bool) {
        if shared { p.fetch_sub(1, SeqCst); } else { p.store(0, SeqCst); }
    }
}
pub mod sync {
    pub use ::std::sync::*;
    use super::sched;
    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::AtomicI64;
    use ::std::sync::{LockResult, TryLockError, TryLockResult};
    macro_rules! guard { ($G:ident, $L:ident, $shared:expr) => {
        pub struct $G<'a, T: ?Sized + 'a> { l: &'a $L<T>, _n: ::std::marker::PhantomData<*const ()> }
        impl<'a, T: ?Sized> Deref for $G<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
        impl<'a, T: ?Sized> Drop for $G<'a, T> { fn drop(&mut self) { sched::release(&self.l.s, $shared); } }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $G<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
    } }
    macro_rules! lock { ($L:ident) => {
        pub struct $L<T: ?Sized> { s: AtomicI64, v: UnsafeCell<T> }
        unsafe impl<T: ?Sized + Send> Send for $L<T> {}
        unsafe impl<T: ?Sized + Send> Sync for $L<T> {}
        impl<T> $L<T> {
            pub const fn new(v: T) -> Self { Self { s: AtomicI64::new(0), v: UnsafeCell::new(v) } }
            pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
        }
        impl<T: ?Sized> $L<T> {
            pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
            pub fn is_poisoned(&self) -> bool { false }
        }
        impl<T: Default> Default for $L<T> { fn default() -> Self { Self::new(T::default()) } }
        impl<T> From<T> for $L<T> { fn from(v: T) -> Self { Self::new(v) } }
        impl<T: ?Sized> fmt::Debug for $L<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("lock") } }
    } }
    lock!(Mutex);
    lock!(RwLock);
    guard!(MutexGuard, Mutex, false);
    guard!(RwLockReadGuard, RwLock, true);
    guard!(RwLockWriteGuard, RwLock, false);
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { sched::acquire(&self.s, false); Ok(MutexGuard { l: self, _n: ::std::marker::PhantomData }) }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if sched::try_acquire(&self.s, false) { Ok(MutexGuard { l: self, _n: ::std::marker::PhantomData }) } else { Err(TryLockError::WouldBlock) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { sched::acquire(&self.s, true); Ok(RwLockReadGuard { l: self, _n: ::std::marker::PhantomData }) }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { sched::acquire(&self.s, false); Ok(RwLockWriteGuard { l: self, _n: ::std::marker::PhantomData }) }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if sched::try_acquire(&self.s, true) { Ok(RwLockReadGuard { l: self, _n: ::std::marker::PhantomData }) } else { Err(TryLockError::WouldBlock) }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if sched::try_acquire(&self.s, false) { Ok(RwLockWriteGuard { l: self, _n: ::std::marker::PhantomData }) } else { Err(TryLockError::WouldBlock) }
        }
    }
}
