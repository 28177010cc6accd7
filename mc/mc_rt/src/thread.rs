//! Controlled `std::thread`.
use crate::exec::{ex, free_point, with_tls, yield_point};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
pub use std::thread::{available_parallelism, panicking, AccessError, Result};
use std::time::Duration;

type Slot<T> = Rc<RefCell<Option<Result<T>>>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct ThreadId(u64);

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id as u64)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        crate::exec::point("unpark", &|| true);
        if let Some(e) = ex() {
            e.threads[self.id].token = true;
        }
    }
}
pub fn current() -> Thread {
    match ex() {
        Some(e) => {
            e.symmetric = false;
            Thread { id: e.cur, name: e.threads[e.cur].name.clone() }
        }
        None => Thread { id: usize::MAX, name: Some("main".into()) },
    }
}
pub fn park() {
    if let Some(e) = ex() {
        let me = e.cur;
        free_point("park", false, &|| ex().unwrap().threads[me].token);
        ex().unwrap().threads[me].token = false;
    }
}
pub fn park_timeout(_d: Duration) {
    yield_point("park_timeout");
    if let Some(e) = ex() {
        let me = e.cur;
        e.threads[me].token = false;
    }
}
pub fn sleep(_d: Duration) {
    yield_point("sleep");
}
pub fn sleep_ms(_ms: u32) {
    yield_point("sleep");
}
pub fn park_timeout_ms(_ms: u32) {
    park_timeout(Duration::ZERO)
}
pub fn yield_now() {
    yield_point("yield_now");
}

fn start<'a, T: 'a>(name: Option<String>, f: impl FnOnce() -> T + 'a, slot: Slot<T>) -> usize {
    let e = ex().expect("threads are only available inside a controlled execution");
    let body: Box<dyn FnOnce() + 'a> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        *slot.borrow_mut() = Some(r);
    });
    let body: Box<dyn FnOnce()> = unsafe { std::mem::transmute(body) };
    e.spawn(name, None, body)
}
fn wait(id: usize) {
    free_point("join", false, &|| ex().unwrap().threads[id].done);
}

pub struct JoinHandle<T> {
    id: usize,
    name: Option<String>,
    slot: Slot<T>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        wait(self.id);
        self.slot.borrow_mut().take().unwrap()
    }
    pub fn is_finished(&self) -> bool {
        crate::exec::point("is_finished", &|| true);
        ex().unwrap().threads[self.id].done
    }
    pub fn thread(&self) -> Thread {
        Thread { id: self.id, name: self.name.clone() }
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let slot: Slot<T> = Default::default();
    let id = start(None, f, slot.clone());
    JoinHandle { id, name: None, slot }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _n: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let slot: Slot<T> = Default::default();
        let id = start(self.name.clone(), f, slot.clone());
        Ok(JoinHandle { id, name: self.name, slot })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        s: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(s.start(self.name, f))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    running: Rc<Cell<usize>>,
    /// threads whose panic nobody has taken by joining them
    panicked: Rc<Cell<usize>>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T> {
    id: usize,
    slot: Slot<T>,
    panicked: Rc<Cell<usize>>,
    _m: PhantomData<&'scope ()>,
}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        wait(self.id);
        let r = self.slot.borrow_mut().take().unwrap();
        if r.is_err() {
            self.panicked.set(self.panicked.get() - 1);
        }
        r
    }
    pub fn is_finished(&self) -> bool {
        crate::exec::point("is_finished", &|| true);
        ex().unwrap().threads[self.id].done
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.start(None, f)
    }
    fn start<F, T>(&'scope self, name: Option<String>, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let slot: Slot<T> = Default::default();
        self.running.set(self.running.get() + 1);
        let running = self.running.clone();
        let panicked = self.panicked.clone();
        let mine = panicked.clone();
        let s = slot.clone();
        let id = start(
            name,
            move || {
                let r = catch_unwind(AssertUnwindSafe(f));
                if r.is_err() {
                    panicked.set(panicked.get() + 1);
                }
                *s.borrow_mut() = Some(r);
                running.set(running.get() - 1);
            },
            Default::default(),
        );
        ScopedJoinHandle { id, slot, panicked: mine, _m: PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        running: Rc::new(Cell::new(0)),
        panicked: Rc::new(Cell::new(0)),
        scope: PhantomData,
        env: PhantomData,
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
    let running = s.running.clone();
    if running.get() > 0 {
        free_point("waiting for scoped threads", false, &move || running.get() == 0);
    }
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(_) if s.panicked.get() > 0 => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}

/// One value per virtual thread.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    fn ptr(&'static self) -> *const T {
        let key = self as *const Self as usize;
        let found = with_tls(|v| v.iter().find(|e| e.0 == key).map(|e| e.1));
        let p = found.unwrap_or_else(|| {
            let p: *mut dyn Any = Box::into_raw(Box::new((self.init)()));
            with_tls(|v| v.push((key, p)));
            p
        });
        p as *const T
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(unsafe { &*self.ptr() })
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> std::result::Result<R, AccessError> {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
    pub fn update(&'static self, f: impl FnOnce(T) -> T)
    where
        T: Copy,
    {
        self.with(|c| c.set(f(c.get())))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
