//! A controlled stand-in for rayon-core: workers with a deque each (own end last-in first-out,
//! stolen first-in first-out), a first-in first-out injector, and waiting workers that run jobs.
use crate::exec::{self, decide, ex, free_point, point};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Panic = Box<dyn Any + Send>;

pub struct Job {
    f: Box<dyn FnOnce()>,
}

pub struct Pool {
    deques: Vec<VecDeque<Job>>,
    own: Vec<VecDeque<Job>>,
    injector: VecDeque<Job>,
    used: Vec<bool>,
    threads: Vec<usize>,
}

impl Pool {
    pub fn has_work(&self, w: usize) -> bool {
        !self.injector.is_empty()
            || !self.own[w].is_empty()
            || self.deques.iter().any(|d| !d.is_empty())
    }
    pub fn fresh(&self, w: usize) -> bool {
        !self.used[w] && self.deques[w].is_empty() && self.own[w].is_empty()
    }
    fn take_local(&mut self, w: usize) -> Option<Job> {
        self.deques[w].pop_back().or_else(|| self.own[w].pop_front())
    }
}

fn new_pool(size: usize) -> usize {
    let e = ex().expect("the worker pool is only available inside a controlled execution");
    let p = e.pools.len();
    e.pools.push(Pool {
        deques: (0..size).map(|_| VecDeque::new()).collect(),
        own: (0..size).map(|_| VecDeque::new()).collect(),
        injector: VecDeque::new(),
        used: vec![false; size],
        threads: vec![],
    });
    for w in 0..size {
        let t = e.spawn(None, Some((p, w)), Box::new(move || worker_main(p, w)));
        e.pools[p].threads.push(t);
    }
    p
}

fn global() -> usize {
    let e = ex().expect("the worker pool is only available inside a controlled execution");
    if e.pools.is_empty() {
        let n = e.global_size.max(1);
        new_pool(n);
    }
    0
}

fn me() -> Option<(usize, usize)> {
    ex().and_then(|e| e.threads[e.cur].worker)
}

fn my_pool() -> usize {
    me().map_or_else(global, |(p, _)| p)
}

fn pool(p: usize) -> &'static mut Pool {
    &mut ex().unwrap().pools[p]
}

fn worker_main(p: usize, w: usize) {
    let mut first = true;
    loop {
        if !first {
            free_point("waiting for work", true, &|| false);
        }
        first = false;
        if ex().unwrap().shutdown {
            return;
        }
        if let Some(j) = find_work(p, w) {
            pool(p).used[w] = true;
            (j.f)();
        }
    }
}

fn find_work(p: usize, w: usize) -> Option<Job> {
    if let Some(j) = pool(p).take_local(w) {
        return Some(j);
    }
    let victims: Vec<usize> = (0..pool(p).deques.len())
        .filter(|&v| v != w && !pool(p).deques[v].is_empty())
        .collect();
    if !victims.is_empty() {
        let v = victims[decide(victims.len(), 1)];
        return pool(p).deques[v].pop_front();
    }
    pool(p).injector.pop_front()
}

/// The latch of something that is waited for.
#[derive(Clone)]
struct Latch(Rc<Cell<bool>>);

fn wait_until(label: &'static str, done: &dyn Fn() -> bool) {
    match me() {
        None => free_point(label, false, done),
        Some((p, w)) => loop {
            free_point(label, false, &|| done() || pool(p).has_work(w));
            if done() {
                return;
            }
            if let Some(j) = find_work(p, w) {
                (j.f)();
            }
        },
    }
}

/// Just before a job counts as done: as long as it does not, a worker that waits for it runs other jobs.
fn finishing(waiter: Option<(usize, usize)>) {
    if waiter.is_some() && waiter != me() {
        point("finishing a job", &|| true);
    }
}

unsafe fn erase<'a>(f: Box<dyn FnOnce() + 'a>) -> Box<dyn FnOnce()> {
    std::mem::transmute(f)
}

/// Queue a job: on the own deque of a worker of that pool, else in the injector.
fn push(p: usize, f: Box<dyn FnOnce()>) {
    point("queueing a job", &|| true);
    let q = pool(p);
    let job = Job { f };
    match me() {
        Some((mp, w)) if mp == p => q.deques[w].push_back(job),
        _ => q.injector.push_back(job),
    }
}

/// Run `op` on a worker of pool `p` (directly if already on one).
fn in_worker<R>(p: usize, op: impl FnOnce(bool) -> R) -> R {
    if me().map(|m| m.0) == Some(p) {
        return op(false);
    }
    let done = Latch(Rc::new(Cell::new(false)));
    let result: UnsafeCell<Option<Result<R, Panic>>> = UnsafeCell::new(None);
    let slot = result.get();
    let d = done.clone();
    let home = me();
    let job: Box<dyn FnOnce() + '_> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(|| op(true)));
        unsafe { *slot = Some(r) };
        finishing(home);
        d.0.set(true);
    });
    push(p, unsafe { erase(job) });
    let d = done.clone();
    wait_until("waiting for the pool", &move || d.0.get());
    match result.into_inner().unwrap() {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

pub fn current_num_threads() -> usize {
    let p = my_pool();
    let e = ex().unwrap();
    e.pools[p].deques.len()
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}

pub fn current_thread_index() -> Option<usize> {
    let m = me();
    if m.is_some() {
        ex().unwrap().symmetric = false;
    }
    m.map(|(_, w)| w)
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    me().map(|(p, w)| !pool(p).deques[w].is_empty())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    let (p, w) = me()?;
    exec::yield_point("yield_now");
    Some(match find_work(p, w) {
        Some(j) => {
            (j.f)();
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

pub fn yield_local() -> Option<Yield> {
    let (p, w) = me()?;
    Some(match pool(p).take_local(w) {
        Some(j) => {
            (j.f)();
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_in(my_pool(), a, b)
}

fn join_in<A, B, RA, RB>(p: usize, a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(p, move |injected| {
        let ctx = |migrated| FnContext { migrated, _marker: PhantomData };
        let home = me().unwrap();
        let done = Rc::new(Cell::new(false));
        let result: UnsafeCell<Option<Result<RB, Panic>>> = UnsafeCell::new(None);
        let slot = result.get();
        let d = done.clone();
        let job: Box<dyn FnOnce() + '_> = Box::new(move || {
            let migrated = me() != Some(home);
            let r = catch_unwind(AssertUnwindSafe(|| b(FnContext { migrated, _marker: PhantomData })));
            unsafe { *slot = Some(r) };
            finishing(Some(home));
            d.set(true);
        });
        push(p, unsafe { erase(job) });
        let ra = catch_unwind(AssertUnwindSafe(|| a(ctx(injected))));
        let d = done.clone();
        // own jobs first (the second half, unless it was stolen), then whatever there is
        wait_until("join", &move || d.get());
        let ra = match ra {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        };
        match result.into_inner().unwrap() {
            Ok(rb) => (ra, rb),
            Err(e) => resume_unwind(e),
        }
    })
}

struct ScopeBase {
    pool: usize,
    owner: Option<(usize, usize)>,
    pending: Cell<usize>,
    panic: RefCell<Option<Panic>>,
    fifos: RefCell<Vec<VecDeque<Box<dyn FnOnce()>>>>,
}

impl ScopeBase {
    fn new(pool: usize) -> ScopeBase {
        ScopeBase {
            pool,
            owner: me(),
            pending: Cell::new(1),
            panic: RefCell::new(None),
            fifos: RefCell::new(vec![]),
        }
    }
    fn execute<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                let mut p = self.panic.borrow_mut();
                if p.is_none() {
                    *p = Some(e);
                }
                None
            }
        };
        finishing(self.owner);
        self.pending.set(self.pending.get() - 1);
        r
    }
    fn complete<R>(&self, f: impl FnOnce() -> R) -> R {
        let r = self.execute(f);
        wait_until("waiting for the tasks of a scope", &|| self.pending.get() == 0);
        if let Some(e) = self.panic.borrow_mut().take() {
            resume_unwind(e);
        }
        r.unwrap()
    }
    fn add(&self, f: Box<dyn FnOnce() + '_>) {
        self.pending.set(self.pending.get() + 1);
        let f = unsafe { erase(f) };
        push(self.pool, f);
    }
    fn add_fifo(&self, f: Box<dyn FnOnce() + '_>) {
        match me() {
            Some((p, w)) if p == self.pool => {
                self.pending.set(self.pending.get() + 1);
                {
                    let mut q = self.fifos.borrow_mut();
                    while q.len() <= w {
                        q.push(VecDeque::new());
                    }
                    q[w].push_back(unsafe { erase(f) });
                }
                let this = Ptr(self as *const ScopeBase);
                push(
                    self.pool,
                    Box::new(move || {
                        let this = this;
                        let f = unsafe { &*this.0 }.fifos.borrow_mut()[w].pop_front().unwrap();
                        f()
                    }),
                );
            }
            _ => self.add(f),
        }
    }
}

struct Ptr<T: ?Sized>(*const T);

pub struct Scope<'scope> {
    base: ScopeBase,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope> {
    base: ScopeBase,
    marker: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}
unsafe impl Send for Scope<'_> {}
unsafe impl Sync for Scope<'_> {}
unsafe impl Send for ScopeFifo<'_> {}
unsafe impl Sync for ScopeFifo<'_> {}

impl std::fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Scope")
    }
}
impl std::fmt::Debug for ScopeFifo<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ScopeFifo")
    }
}

impl<'scope> Scope<'scope> {
    fn on(pool: usize) -> Self {
        Scope { base: ScopeBase::new(pool), marker: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let this = Ptr(self as *const Self);
        self.base.add(Box::new(move || {
            let this = this;
            let s = unsafe { &*this.0 };
            s.base.execute(move || body(s));
        }));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let body: Rc<BODY> = Rc::new(body);
        let n = pool(self.base.pool).deques.len();
        point("broadcasting", &|| true);
        for w in 0..n {
            let body = body.clone();
            let this = Ptr(self as *const Self);
            self.base.pending.set(self.base.pending.get() + 1);
            let job: Box<dyn FnOnce() + '_> = Box::new(move || {
                let this = this;
                let s = unsafe { &*this.0 };
                s.base.execute(move || body(s, BroadcastContext::new(w, n)));
            });
            push_own(self.base.pool, w, unsafe { erase(job) });
        }
    }
}

impl<'scope> ScopeFifo<'scope> {
    fn on(pool: usize) -> Self {
        ScopeFifo { base: ScopeBase::new(pool), marker: PhantomData }
    }
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let this = Ptr(self as *const Self);
        self.base.add_fifo(Box::new(move || {
            let this = this;
            let s = unsafe { &*this.0 };
            s.base.execute(move || body(s));
        }));
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    scope_in(my_pool(), op)
}
fn scope_in<'scope, OP, R>(p: usize, op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    in_worker(p, move |_| {
        let s = Scope::on(p);
        s.base.complete(|| op(&s))
    })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    scope_fifo_in(my_pool(), op)
}
fn scope_fifo_in<'scope, OP, R>(p: usize, op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    in_worker(p, move |_| {
        let s = ScopeFifo::on(p);
        s.base.complete(|| op(&s))
    })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::on(my_pool());
    s.base.complete(|| op(&s))
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo::on(my_pool());
    s.base.complete(|| op(&s))
}

pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    push(my_pool(), Box::new(move || {
        let _ = catch_unwind(AssertUnwindSafe(f));
    }));
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(f)
}

fn push_own(p: usize, w: usize, f: Box<dyn FnOnce()>) {
    let q = pool(p);
    q.own[w].push_back(Job { f });
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    fn new(index: usize, n: usize) -> Self {
        if let Some(e) = ex() {
            e.symmetric = false;
        }
        BroadcastContext { index, n, _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_in(my_pool(), op)
}
fn broadcast_in<OP, R>(p: usize, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    point("broadcasting", &|| true);
    let n = pool(p).deques.len();
    let left = Rc::new(Cell::new(n));
    let results: UnsafeCell<Vec<Option<Result<R, Panic>>>> = UnsafeCell::new((0..n).map(|_| None).collect());
    let slot = results.get();
    let op = &op;
    for w in 0..n {
        let left = left.clone();
        let job: Box<dyn FnOnce() + '_> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| op(BroadcastContext::new(w, n))));
            unsafe { (&mut *slot)[w] = Some(r) };
            left.set(left.get() - 1);
        });
        push_own(p, w, unsafe { erase(job) });
    }
    let l = left.clone();
    wait_until("waiting for a broadcast", &move || l.get() == 0);
    results
        .into_inner()
        .into_iter()
        .map(|r| match r.unwrap() {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        })
        .collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let p = my_pool();
    let n = pool(p).deques.len();
    let op = Rc::new(op);
    for w in 0..n {
        let op = op.clone();
        push_own(p, w, Box::new(move || {
            let _ = catch_unwind(AssertUnwindSafe(|| op(BroadcastContext::new(w, n))));
        }));
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug, Default)]
pub struct DefaultSpawn;
pub struct ThreadBuilder(());

#[derive(Debug)]
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _s: PhantomData }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        global(); // pool 0 is the global one
        let n = if self.n == 0 { ex().unwrap().global_size } else { self.n };
        Ok(ThreadPool { id: new_pool(n) })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        let e = ex().expect("controlled execution");
        if !e.pools.is_empty() {
            return Err(ThreadPoolBuildError(()));
        }
        if self.n > 0 {
            e.global_size = self.n;
        }
        global();
        Ok(())
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Panic) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
}

#[derive(Debug)]
pub struct ThreadPool {
    id: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_worker(self.id, |_| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_in(self.id, op)
    }
    pub fn current_num_threads(&self) -> usize {
        pool(self.id).deques.len()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        ex().unwrap().symmetric = false;
        me().filter(|m| m.0 == self.id).map(|m| m.1)
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        me().filter(|m| m.0 == self.id).map(|(p, w)| !pool(p).deques[w].is_empty())
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join_in(self.id, |_| a(), |_| b())
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope_in(self.id, op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo_in(self.id, op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let s = Scope::on(self.id);
        s.base.complete(|| op(&s))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let s = ScopeFifo::on(self.id);
        s.base.complete(|| op(&s))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        push(self.id, Box::new(move || {
            let _ = catch_unwind(AssertUnwindSafe(op));
        }));
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.spawn(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        me().filter(|m| m.0 == self.id).and_then(|_| yield_now())
    }
    pub fn yield_local(&self) -> Option<Yield> {
        me().filter(|m| m.0 == self.id).and_then(|_| yield_local())
    }
}
