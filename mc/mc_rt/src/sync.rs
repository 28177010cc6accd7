//! Controlled `std::sync` (everything not defined here is the standard library's).
pub use std::sync::*;

pub use crate::channel::mpsc;
use crate::exec::{decide, ex, free_point, point, watch, watched, TRYING};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::thread::panicking;
use std::time::Duration;

/// While somebody tries locks, a lock that is held can be seen.
fn release(what: &'static str) {
    if watched(TRYING) {
        point(what, &|| true);
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}
#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    was_panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { locked: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.set(true);
        let g = MutexGuard { m: self, was_panicking: panicking(), _not_send: std::marker::PhantomData };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point("mutex lock", &|| !self.locked.get());
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        watch(TRYING);
        point("mutex try_lock", &|| true);
        if self.locked.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        release("mutex release");
        if !self.was_panicking && panicking() {
            self.m.poisoned.set(true);
        }
        self.m.locked.set(false);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("Mutex");
        if self.locked.get() {
            d.field("data", &format_args!("<locked>"));
        } else {
            d.field("data", &unsafe { &*self.data.get() });
        }
        d.field("poisoned", &self.poisoned.get());
        d.finish_non_exhaustive()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ---------------------------------------------------------------- RwLock
/// Readers wait while a writer holds the lock or waits for it, as on Linux.
pub struct RwLock<T: ?Sized> {
    readers: Cell<usize>,
    writer: Cell<bool>,
    writers_waiting: Cell<usize>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> UnwindSafe for RwLock<T> {}
impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _not_send: std::marker::PhantomData<*const ()>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    was_panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock {
            readers: Cell::new(0),
            writer: Cell::new(false),
            writers_waiting: Cell::new(0),
            poisoned: Cell::new(false),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn readable(&self) -> bool {
        !self.writer.get() && self.writers_waiting.get() == 0
    }
    fn writable(&self) -> bool {
        !self.writer.get() && self.readers.get() == 0
    }
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.readers.set(self.readers.get() + 1);
        let g = RwLockReadGuard { l: self, _not_send: std::marker::PhantomData };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.writer.set(true);
        let g = RwLockWriteGuard { l: self, was_panicking: panicking(), _not_send: std::marker::PhantomData };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point("rwlock read", &|| self.readable());
        self.rguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        watch(TRYING);
        point("rwlock try_read", &|| true);
        if !self.readable() {
            return Err(TryLockError::WouldBlock);
        }
        self.rguard().map_err(TryLockError::Poisoned)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point("rwlock write", &|| true);
        if !self.writable() {
            self.writers_waiting.set(self.writers_waiting.get() + 1);
            free_point("rwlock write (waiting)", false, &|| self.writable());
            self.writers_waiting.set(self.writers_waiting.get() - 1);
        }
        self.wguard()
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        watch(TRYING);
        point("rwlock try_write", &|| true);
        if !self.writable() {
            return Err(TryLockError::WouldBlock);
        }
        self.wguard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        release("rwlock downgrade");
        let l = s.l;
        std::mem::forget(s);
        l.writer.set(false);
        l.readers.set(l.readers.get() + 1);
        RwLockReadGuard { l, _not_send: std::marker::PhantomData }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        release("rwlock read release");
        self.l.readers.set(self.l.readers.get() - 1);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        release("rwlock write release");
        if !self.was_panicking && panicking() {
            self.l.poisoned.set(true);
        }
        self.l.writer.set(false);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("RwLock");
        if self.readable() {
            d.field("data", &unsafe { &*self.data.get() });
        } else {
            d.field("data", &format_args!("<locked>"));
        }
        d.field("poisoned", &self.poisoned.get());
        d.finish_non_exhaustive()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ---------------------------------------------------------------- Condvar
#[derive(Default)]
pub struct Condvar {
    next: Cell<u64>,
    waiting: RefCell<Vec<u64>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl UnwindSafe for Condvar {}
impl RefUnwindSafe for Condvar {}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { next: Cell::new(0), waiting: RefCell::new(vec![]) }
    }
    fn enter(&self) -> u64 {
        let t = self.next.get();
        self.next.set(t + 1);
        self.waiting.borrow_mut().push(t);
        t
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        let t = self.enter();
        drop(g);
        free_point("condvar wait", false, &|| !self.waiting.borrow().contains(&t) && !m.locked.get());
        m.guard()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(
        &self,
        g: MutexGuard<'a, T>,
        _d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        let t = self.enter();
        drop(g);
        crate::exec::yield_point("condvar wait_timeout");
        point("condvar wait_timeout", &|| !m.locked.get());
        let timed_out = self.waiting.borrow().contains(&t);
        self.waiting.borrow_mut().retain(|&x| x != t);
        match m.guard() {
            Ok(g) => Ok((g, WaitTimeoutResult(timed_out))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(timed_out)))),
        }
    }
    pub fn wait_timeout_ms<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms.into())) {
            Ok((g, t)) => Ok((g, !t.timed_out())),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((g, !t.timed_out())))
            }
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        loop {
            if !cond(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let (g2, t) = self.wait_timeout(g, d)?;
            g = g2;
            if t.timed_out() {
                let still = cond(&mut *g);
                return Ok((g, WaitTimeoutResult(still)));
            }
        }
    }
    pub fn notify_one(&self) {
        point("notify_one", &|| true);
        let n = self.waiting.borrow().len();
        if n > 0 {
            let k = decide(n, 2);
            self.waiting.borrow_mut().remove(k);
        }
    }
    pub fn notify_all(&self) {
        point("notify_all", &|| true);
        self.waiting.borrow_mut().clear();
    }
}

// ---------------------------------------------------------------- Barrier
#[derive(Debug)]
pub struct Barrier {
    n: usize,
    count: Cell<usize>,
    generation: Cell<u64>,
}
unsafe impl Send for Barrier {}
unsafe impl Sync for Barrier {}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, count: Cell::new(0), generation: Cell::new(0) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        point("barrier", &|| true);
        let g = self.generation.get();
        self.count.set(self.count.get() + 1);
        if self.count.get() >= self.n {
            self.count.set(0);
            self.generation.set(g + 1);
            return BarrierWaitResult(true);
        }
        free_point("barrier (waiting)", false, &|| self.generation.get() != g);
        BarrierWaitResult(false)
    }
}

// ---------------------------------------------------------------- Once, OnceLock, LazyLock
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Init {
    New,
    Running,
    Done,
    Poisoned,
}
pub struct Once {
    state: Cell<Init>,
}
unsafe impl Send for Once {}
unsafe impl Sync for Once {}
impl UnwindSafe for Once {}
impl RefUnwindSafe for Once {}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
struct Reset<'a>(&'a Cell<Init>, Init);
impl Drop for Reset<'_> {
    fn drop(&mut self) {
        self.0.set(self.1);
    }
}
impl Once {
    pub const fn new() -> Once {
        Once { state: Cell::new(Init::New) }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        point("once", &|| self.state.get() != Init::Running);
        match self.state.get() {
            Init::Done => {}
            Init::Poisoned => panic!("Once instance has previously been poisoned"),
            _ => {
                self.state.set(Init::Running);
                let mut r = Reset(&self.state, Init::Poisoned);
                f();
                r.1 = Init::Done;
            }
        }
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        point("once", &|| self.state.get() != Init::Running);
        let before = self.state.get();
        if before != Init::Done {
            self.state.set(Init::Running);
            let mut r = Reset(&self.state, Init::Poisoned);
            f(&OnceState(before == Init::Poisoned));
            r.1 = Init::Done;
        }
    }
    pub fn wait(&self) {
        point("once wait", &|| matches!(self.state.get(), Init::Done | Init::Poisoned));
        if self.state.get() == Init::Poisoned {
            panic!("Once instance has previously been poisoned");
        }
    }
    pub fn wait_force(&self) {
        point("once wait", &|| self.state.get() == Init::Done);
    }
    pub fn is_completed(&self) -> bool {
        point("once is_completed", &|| true);
        self.state.get() == Init::Done
    }
}
#[derive(Debug)]
pub struct OnceState(bool);
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.0
    }
}
pub struct OnceLock<T> {
    state: Cell<Init>,
    data: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { state: Cell::new(Init::New), data: UnsafeCell::new(None) }
    }
    fn peek(&self) -> Option<&T> {
        if self.state.get() == Init::Done {
            unsafe { (*self.data.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get(&self) -> Option<&T> {
        point("oncelock get", &|| true);
        self.peek()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.data.get_mut().as_mut()
    }
    pub fn wait(&self) -> &T {
        point("oncelock wait", &|| self.state.get() == Init::Done);
        self.peek().unwrap()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        point("oncelock set", &|| self.state.get() != Init::Running);
        if self.state.get() == Init::Done {
            return Err(v);
        }
        unsafe { *self.data.get() = Some(v) };
        self.state.set(Init::Done);
        Ok(())
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        point("oncelock get_or_init", &|| self.state.get() != Init::Running);
        if self.state.get() != Init::Done {
            self.state.set(Init::Running);
            let mut r = Reset(&self.state, Init::New);
            let v = f();
            unsafe { *self.data.get() = Some(v) };
            r.1 = Init::Done;
        }
        self.peek().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.data.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.state.set(Init::New);
        self.data.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.peek()).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        match self.peek() {
            Some(v) => OnceLock::from(v.clone()),
            None => OnceLock::new(),
        }
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        OnceLock { state: Cell::new(Init::Done), data: UnsafeCell::new(Some(v)) }
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| (this.init.take().expect("LazyLock instance has previously been poisoned"))())
    }
    pub fn force_mut(this: &mut Self) -> &mut T {
        LazyLock::force(this);
        this.cell.get_mut().unwrap()
    }
}
impl<T, F> LazyLock<T, F> {
    pub fn get(this: &Self) -> Option<&T> {
        this.cell.get()
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        this.cell.get_mut()
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: UnwindSafe, F: UnwindSafe> UnwindSafe for LazyLock<T, F> {}
impl<T: RefUnwindSafe + UnwindSafe, F: UnwindSafe> RefUnwindSafe for LazyLock<T, F> {}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("LazyLock").field(&self.cell.peek()).finish()
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    use crate::exec::point;
    pub use std::sync::atomic::Ordering;
    use std::sync::atomic::{self as real};

    pub fn fence(_: Ordering) {
        point("fence", &|| true);
    }
    pub fn compiler_fence(_: Ordering) {}
    pub fn spin_loop_hint() {
        crate::exec::yield_point("spin_loop");
    }

    macro_rules! atomic {
        ($($name:ident($t:ty) { $($op:ident),* })*) => {$(
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $name(real::$name);
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
            }
            impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
            impl $name {
                pub const fn new(v: $t) -> Self { Self(real::$name::new(v)) }
                pub fn load(&self, _: Ordering) -> $t {
                    point("atomic load", &|| true);
                    self.0.load(Ordering::SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    point("atomic store", &|| true);
                    self.0.store(v, Ordering::SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    point("atomic swap", &|| true);
                    self.0.swap(v, Ordering::SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point("atomic compare_exchange", &|| true);
                    self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, x, y)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(Ordering::SeqCst);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange(prev, next, Ordering::SeqCst, Ordering::SeqCst) {
                            Ok(x) => return Ok(x),
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn try_update(&self, s: Ordering, g: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    self.fetch_update(s, g, f)
                }
                pub fn update(&self, s: Ordering, g: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                    self.fetch_update(s, g, |x| Some(f(x))).unwrap()
                }
                pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                    match self.compare_exchange(a, b, o, Ordering::SeqCst) { Ok(x) | Err(x) => x }
                }
                pub const fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                $(pub fn $op(&self, v: $t, _: Ordering) -> $t {
                    point("atomic update", &|| true);
                    self.0.$op(v, Ordering::SeqCst)
                })*
            }
        )*};
    }
    atomic! {
        AtomicBool(bool) { fetch_and, fetch_nand, fetch_or, fetch_xor }
        AtomicUsize(usize) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicIsize(isize) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicU64(u64) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicI64(i64) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicU32(u32) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicI32(i32) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicU16(u16) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicI16(i16) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicI8(i8) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
        AtomicU8(u8) { fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min }
    }
    impl AtomicBool {
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.fetch_xor(true, o)
        }
    }
    #[repr(transparent)]
    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self { Self::new(::std::ptr::null_mut()) }
    }
    impl<T> ::std::fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
    }
    impl<T> From<*mut T> for AtomicPtr<T> {
        fn from(p: *mut T) -> Self { Self::new(p) }
    }
    impl<T> AtomicPtr<T> {
        pub const fn new(p: *mut T) -> Self { Self(real::AtomicPtr::new(p)) }
        pub fn load(&self, _: Ordering) -> *mut T {
            point("atomic load", &|| true);
            self.0.load(Ordering::SeqCst)
        }
        pub fn store(&self, p: *mut T, _: Ordering) {
            point("atomic store", &|| true);
            self.0.store(p, Ordering::SeqCst)
        }
        pub fn swap(&self, p: *mut T, _: Ordering) -> *mut T {
            point("atomic swap", &|| true);
            self.0.swap(p, Ordering::SeqCst)
        }
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
            point("atomic compare_exchange", &|| true);
            self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
        }
        pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, x: Ordering, y: Ordering) -> Result<*mut T, *mut T> {
            self.compare_exchange(a, b, x, y)
        }
        pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<*mut T, *mut T> {
            let mut prev = self.load(Ordering::SeqCst);
            while let Some(next) = f(prev) {
                match self.compare_exchange(prev, next, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(x) => return Ok(x),
                    Err(p) => prev = p,
                }
            }
            Err(prev)
        }
        pub fn get_mut(&mut self) -> &mut *mut T { self.0.get_mut() }
        pub fn into_inner(self) -> *mut T { self.0.into_inner() }
    }
}

#[allow(unused)]
fn _unused() {
    let _ = ex();
}
