use channel::{bounded, unbounded, RecvTimeoutError, TryRecvError, TrySendError};
use std::time::Duration;
use sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use sync::{mpsc, Barrier, Condvar, LazyLock, Mutex, Once, OnceLock, RwLock, RwLockWriteGuard, TryLockError};

type Log = Arc<Mutex<String>>;
fn put(l: &Log, s: &str) {
    l.lock().unwrap_or_else(|e| e.into_inner()).push_str(s);
}
fn text(l: &Log) -> String {
    l.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
fn two<A: Send + 'static, B: Send + 'static>(a: impl FnOnce() -> A + Send + 'static, b: impl FnOnce() -> B + Send + 'static) -> (A, B) {
    let a = thread::spawn(move || {
        noise();
        a()
    });
    let b = thread::spawn(move || {
        noise();
        b()
    });
    (a.join().unwrap(), b.join().unwrap())
}
fn pool_of(n: usize) -> pool::ThreadPool {
    pool::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
fn yes(b: bool) -> String {
    if b { "yes".into() } else { "no".into() }
}

pub fn programs() -> Vec<super::Program> {
    vec![
        // ---- atomics
        ("atomic/racy-increment", || {
            let x = Arc::new(AtomicUsize::new(0));
            let f = |x: Arc<AtomicUsize>| move || { let v = x.load(SeqCst); noise(); x.store(v + 1, SeqCst) };
            two(f(x.clone()), f(x.clone()));
            x.load(SeqCst).to_string()
        }, &["1", "2"]),
        ("atomic/fetch-add", || {
            let x = Arc::new(AtomicUsize::new(0));
            let f = |x: Arc<AtomicUsize>| move || x.fetch_add(1, SeqCst);
            let (a, b) = two(f(x.clone()), f(x.clone()));
            format!("{a}{b}{}", x.load(SeqCst))
        }, &["012", "102"]),
        ("atomic/store-buffering", || {
            let (x, y) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
            let (x2, y2) = (x.clone(), y.clone());
            let (a, b) = two(move || { x.store(1, SeqCst); y.load(SeqCst) }, move || { y2.store(1, SeqCst); x2.load(SeqCst) });
            format!("{a}{b}")
        }, &["01", "10", "11"]),
        ("atomic/message-passing", || {
            let (x, y) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
            let (x2, y2) = (x.clone(), y.clone());
            let (_, b) = two(move || { x.store(1, SeqCst); noise(); y.store(true, SeqCst) }, move || { let f = y2.load(SeqCst); noise(); (f, x2.load(SeqCst)) });
            format!("{}{}", b.0, b.1)
        }, &["false0", "false1", "true1"]),
        ("atomic/compare-exchange", || {
            let x = Arc::new(AtomicUsize::new(0));
            let f = |x: Arc<AtomicUsize>, v| move || x.compare_exchange(0, v, SeqCst, SeqCst).is_ok();
            let (a, b) = two(f(x.clone(), 1), f(x.clone(), 2));
            format!("{a} {b} {}", x.load(SeqCst))
        }, &["true false 1", "false true 2"]),
        ("atomic/spin-until", || {
            let x = Arc::new(AtomicBool::new(false));
            let y = x.clone();
            two(move || x.store(true, SeqCst), move || { while !y.load(SeqCst) { thread::yield_now() } });
            "done".into()
        }, &["done"]),
        // ---- mutex
        ("mutex/counter", || {
            let x = Arc::new(Mutex::new(0));
            let f = |x: Arc<Mutex<i32>>| move || { let mut g = x.lock().unwrap(); let v = *g; noise(); *g = v + 1 };
            two(f(x.clone()), f(x.clone()));
            let r = x.lock().unwrap().to_string();
            r
        }, &["2"]),
        ("mutex/read-then-write", || {
            let x = Arc::new(Mutex::new(0));
            let f = |x: Arc<Mutex<i32>>| move || { let v = *x.lock().unwrap(); noise(); *x.lock().unwrap() = v + 1 };
            two(f(x.clone()), f(x.clone()));
            let r = x.lock().unwrap().to_string();
            r
        }, &["1", "2"]),
        ("mutex/opposite-orders", || {
            let (a, b) = (Arc::new(Mutex::new(())), Arc::new(Mutex::new(())));
            let f = |a: Arc<Mutex<()>>, b: Arc<Mutex<()>>| move || { let _g = a.lock().unwrap(); noise(); let _h = b.lock().unwrap(); };
            two(f(a.clone(), b.clone()), f(b, a));
            "done".into()
        }, &["done", "deadlock"]),
        ("mutex/self", || {
            let a = Mutex::new(());
            let _g = a.lock().unwrap();
            let _h = a.lock().unwrap();
            "done".into()
        }, &["deadlock"]),
        ("mutex/try-lock", || {
            let a = Arc::new(Mutex::new(0));
            let b = a.clone();
            let (_, r) = two(move || { let mut g = a.lock().unwrap(); noise(); *g = 1; }, move || match b.try_lock() {
                Ok(g) => g.to_string(),
                Err(TryLockError::WouldBlock) => "busy".into(),
                Err(TryLockError::Poisoned(_)) => "poisoned".into(),
            });
            r
        }, &["0", "1", "busy"]),
        ("mutex/poison", || {
            let a = Arc::new(Mutex::new(0));
            let b = a.clone();
            let h = thread::spawn(move || { let mut g = a.lock().unwrap(); *g = 1; panic!("on purpose") });
            noise();
            let r = match b.lock() { Ok(g) => format!("fine {}", *g), Err(e) => format!("poisoned {}", *e.into_inner()) };
            format!("{r} {} {}", h.join().is_err(), b.is_poisoned())
        }, &["fine 0 true true", "poisoned 1 true true"]),
        ("mutex/guard-dropped-before-panic", || {
            let a = Arc::new(Mutex::new(0));
            let b = a.clone();
            let h = thread::spawn(move || { drop(a.lock().unwrap()); panic!("on purpose") });
            format!("{} {}", h.join().is_err(), b.is_poisoned())
        }, &["true false"]),
        // ---- rwlock
        ("rwlock/readers-share", || {
            let (x, b) = (Arc::new(RwLock::new(7)), Arc::new(Barrier::new(2)));
            let f = |x: Arc<RwLock<i32>>, b: Arc<Barrier>| move || { let g = x.read().unwrap(); b.wait(); *g };
            let r = two(f(x.clone(), b.clone()), f(x, b));
            format!("{r:?}")
        }, &["(7, 7)"]),
        ("rwlock/writers-exclude", || {
            let (x, b) = (Arc::new(RwLock::new(7)), Arc::new(Barrier::new(2)));
            let (y, c) = (x.clone(), b.clone());
            two(move || { let _g = x.write().unwrap(); b.wait(); }, move || { let _g = y.read().unwrap(); c.wait(); });
            "done".into()
        }, &["deadlock"]),
        ("rwlock/writers-exclude-each-other", || {
            let x = Arc::new(RwLock::new(0));
            let f = |x: Arc<RwLock<i32>>| move || { let mut g = x.write().unwrap(); let v = *g; noise(); *g = v + 1 };
            two(f(x.clone()), f(x.clone()));
            let r = x.read().unwrap().to_string();
            r
        }, &["2"]),
        ("rwlock/read-twice-while-a-writer-waits", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let (_, r) = two(move || *x.write().unwrap() += 1, move || { let g = y.read().unwrap(); noise(); let h = y.read().unwrap(); format!("{}{}", *g, *h) });
            r
        }, &["00", "11", "deadlock"]),
        ("rwlock/upgrade", || {
            let x = Arc::new(RwLock::new(0));
            let _r = x.read().unwrap();
            let _w = x.write().unwrap();
            "done".into()
        }, &["deadlock"]),
        ("rwlock/try-read", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let (_, r) = two(move || { let mut g = x.write().unwrap(); noise(); *g += 1 }, move || match y.try_read() { Ok(g) => g.to_string(), Err(_) => "busy".into() });
            r
        }, &["0", "1", "busy"]),
        ("rwlock/try-write", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let (_, r) = two(move || { let g = x.read().unwrap(); noise(); *g }, move || match y.try_write() { Ok(mut g) => { *g = 5; "written".to_string() } Err(_) => "busy".into() });
            r
        }, &["written", "busy"]),
        ("rwlock/try-read-beside-a-reader", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let (_, r) = two(move || { let g = x.read().unwrap(); noise(); *g }, move || y.try_read().is_ok());
            r.to_string()
        }, &["true"]),
        ("rwlock/downgrade", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let (a, _) = two(move || { let mut g = x.write().unwrap(); *g += 1; let v = *g; let g = RwLockWriteGuard::downgrade(g); noise(); *g == v }, move || *y.write().unwrap() += 10);
            a.to_string()
        }, &["true"]),
        ("rwlock/release-then-read-again", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let (a, _) = two(move || { let mut g = x.write().unwrap(); *g += 1; let v = *g; drop(g); noise(); let g = x.read().unwrap(); *g == v }, move || *y.write().unwrap() += 10);
            a.to_string()
        }, &["true", "false"]),
        ("rwlock/poison-by-writer", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let h = thread::spawn(move || { let _g = x.write().unwrap(); panic!("on purpose") });
            let e = h.join().is_err();
            let (r, w) = ({ let r = y.read().is_err(); r }, { let w = y.write().is_err(); w });
            format!("{e} {r} {w}")
        }, &["true true true"]),
        ("rwlock/no-poison-by-reader", || {
            let x = Arc::new(RwLock::new(0));
            let y = x.clone();
            let h = thread::spawn(move || { let _g = x.read().unwrap(); panic!("on purpose") });
            let e = h.join().is_err();
            let (r, w) = ({ let r = y.read().is_err(); r }, { let w = y.write().is_err(); w });
            format!("{e} {r} {w}")
        }, &["true false false"]),
        ("rwlock/two-readers-and-a-writer", || {
            let x = Arc::new(RwLock::new(0));
            let (y, z) = (x.clone(), x.clone());
            let h = thread::spawn(move || { noise(); *z.write().unwrap() = 1 });
            let (a, b) = two(move || { let r = *x.read().unwrap(); r }, move || { let r = *y.read().unwrap(); r });
            h.join().unwrap();
            format!("{a}{b}")
        }, &["00", "01", "10", "11"]),
        // ---- condvar, barrier
        ("condvar/notify-may-come-first", || {
            let p = Arc::new((Mutex::new(()), Condvar::new()));
            let q = p.clone();
            two(move || p.1.notify_one(), move || { let g = q.0.lock().unwrap(); drop(q.1.wait(g).unwrap()) });
            "done".into()
        }, &["done", "deadlock"]),
        ("condvar/flag", || {
            let p = Arc::new((Mutex::new(false), Condvar::new()));
            let q = p.clone();
            two(move || { *p.0.lock().unwrap() = true; p.1.notify_one() }, move || { let mut g = q.0.lock().unwrap(); while !*g { g = q.1.wait(g).unwrap() } });
            "done".into()
        }, &["done"]),
        ("condvar/wait-while", || {
            let p = Arc::new((Mutex::new(0), Condvar::new()));
            let q = p.clone();
            let (_, r) = two(move || { *p.0.lock().unwrap() = 1; p.1.notify_all() }, move || { let g = q.0.lock().unwrap(); let r = *q.1.wait_while(g, |v| *v == 0).unwrap(); r });
            r.to_string()
        }, &["1"]),
        ("condvar/one-notification-for-two", || {
            let p = Arc::new((Mutex::new(0), Condvar::new()));
            let f = |p: Arc<(Mutex<i32>, Condvar)>| move || { let mut g = p.0.lock().unwrap(); while *g == 0 { g = p.1.wait(g).unwrap() } };
            let q = p.clone();
            let h = thread::spawn(move || { noise(); *q.0.lock().unwrap() = 1; q.1.notify_one() });
            two(f(p.clone()), f(p));
            h.join().unwrap();
            "done".into()
        }, &["done", "deadlock"]),
        ("condvar/notify-all-for-two", || {
            let p = Arc::new((Mutex::new(0), Condvar::new()));
            let f = |p: Arc<(Mutex<i32>, Condvar)>| move || { let mut g = p.0.lock().unwrap(); while *g == 0 { g = p.1.wait(g).unwrap() } };
            let q = p.clone();
            let h = thread::spawn(move || { noise(); *q.0.lock().unwrap() = 1; q.1.notify_all() });
            two(f(p.clone()), f(p));
            h.join().unwrap();
            "done".into()
        }, &["done"]),
        ("condvar/wait-timeout", || {
            let p = Arc::new((Mutex::new(()), Condvar::new()));
            let q = p.clone();
            let (_, r) = two(move || { noise(); p.1.notify_one() }, move || { let g = q.0.lock().unwrap(); let r = q.1.wait_timeout(g, Duration::from_micros(50)).unwrap().1.timed_out(); r });
            r.to_string()
        }, &["true", "false"]),
        ("barrier/one-leader", || {
            let b = Arc::new(Barrier::new(2));
            let f = |b: Arc<Barrier>| move || { noise(); b.wait().is_leader() };
            let (x, y) = two(f(b.clone()), f(b));
            format!("{x} {y}")
        }, &["true false", "false true"]),
        ("barrier/separates", || {
            let (l, b) = (Log::default(), Arc::new(Barrier::new(2)));
            let f = |l: Log, b: Arc<Barrier>| move || { put(&l, "a"); b.wait(); put(&l, "b") };
            two(f(l.clone(), b.clone()), f(l.clone(), b));
            text(&l)
        }, &["aabb"]),
        // ---- once
        ("once/once", || {
            let (o, l) = (Arc::new(Once::new()), Log::default());
            let f = |o: Arc<Once>, l: Log| move || { o.call_once(|| { noise(); put(&l, "i") }); text(&l) };
            let r = two(f(o.clone(), l.clone()), f(o, l));
            format!("{r:?}")
        }, &["(\"i\", \"i\")"]),
        ("once/poisoned", || {
            let o = Arc::new(Once::new());
            let p = o.clone();
            let h = thread::spawn(move || o.call_once(|| panic!("on purpose")));
            let e = h.join().is_err();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.call_once(|| {}))).is_err();
            let mut was = false;
            p.call_once_force(|s| was = s.is_poisoned());
            format!("{e} {r} {was} {}", p.is_completed())
        }, &["true true true true"]),
        ("oncelock/get-or-init", || {
            let o: Arc<OnceLock<char>> = Arc::default();
            let f = |o: Arc<OnceLock<char>>, c| move || *o.get_or_init(|| { noise(); c });
            let (a, b) = two(f(o.clone(), 'a'), f(o, 'b'));
            format!("{a}{b}")
        }, &["aa", "bb"]),
        ("oncelock/set", || {
            let o: Arc<OnceLock<char>> = Arc::default();
            let f = |o: Arc<OnceLock<char>>, c| move || o.set(c).is_ok();
            let (a, b) = two(f(o.clone(), 'a'), f(o.clone(), 'b'));
            format!("{a} {b} {:?}", o.get())
        }, &["true false Some('a')", "false true Some('b')"]),
        ("oncelock/get", || {
            let o: Arc<OnceLock<char>> = Arc::default();
            let p = o.clone();
            let (_, b) = two(move || *o.get_or_init(|| { noise(); 'a' }), move || p.get().copied());
            format!("{b:?}")
        }, &["None", "Some('a')"]),
        ("oncelock/panic-leaves-it-empty", || {
            let o: Arc<OnceLock<char>> = Arc::default();
            let p = o.clone();
            let h = thread::spawn(move || { o.get_or_init(|| panic!("on purpose")); });
            format!("{} {:?} {}", h.join().is_err(), p.get(), p.get_or_init(|| 'b'))
        }, &["true None b"]),
        ("lazylock", || {
            let l = Log::default();
            let m = l.clone();
            let z = Arc::new(LazyLock::new(Box::new(move || { noise(); put(&m, "i"); 5 }) as Box<dyn FnOnce() -> i32 + Send>));
            let f = |z: Arc<LazyLock<i32, Box<dyn FnOnce() -> i32 + Send>>>| move || **z;
            let r = two(f(z.clone()), f(z));
            format!("{r:?}{}", text(&l))
        }, &["(5, 5)i"]),
        // ---- threads
        ("thread/join-result", || {
            let h = thread::spawn(|| -> i32 { panic!("on purpose") });
            format!("{} {}", h.join().is_err(), thread::spawn(|| 3).join().unwrap())
        }, &["true 3"]),
        ("thread/is-finished", || {
            let h = thread::spawn(|| noise());
            noise();
            let a = h.is_finished();
            h.join().unwrap();
            a.to_string()
        }, &["true", "false"]),
        ("thread/detached", || {
            let x = Arc::new(AtomicBool::new(false));
            let y = x.clone();
            drop(thread::spawn(move || y.store(true, SeqCst)));
            noise();
            x.load(SeqCst).to_string()
        }, &["true", "false"]),
        ("thread/park-token", || {
            let t = thread::current();
            let h = thread::spawn(move || { noise(); t.unpark() });
            thread::park();
            h.join().unwrap();
            "done".into()
        }, &["done"]),
        ("thread/tokens-do-not-add-up", || {
            let t = thread::current();
            t.unpark();
            t.unpark();
            thread::park();
            thread::park();
            "done".into()
        }, &["deadlock"]),
        ("thread/park-timeout", || { thread::park_timeout(Duration::from_micros(10)); "done".into() }, &["done"]),
        ("thread/scope-joins", || {
            let x = AtomicUsize::new(0);
            thread::scope(|s| {
                s.spawn(|| { noise(); x.fetch_add(1, SeqCst) });
                s.spawn(|| { noise(); x.fetch_add(1, SeqCst) });
            });
            x.load(SeqCst).to_string()
        }, &["2"]),
        ("thread/scope-panics", || {
            let r = std::panic::catch_unwind(|| thread::scope(|s| { s.spawn(|| panic!("on purpose")); })).is_err();
            let q = std::panic::catch_unwind(|| thread::scope(|s| { let _ = s.spawn(|| panic!("on purpose")).join(); })).is_err();
            format!("{r} {q}")
        }, &["true false"]),
        ("thread/locals", || {
            thread_local! { static X: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
            X.with(|x| x.set(5));
            let f = || { X.with(|x| x.set(x.get() + 1)); noise(); X.with(|x| x.set(x.get() + 1)); X.with(|x| x.get()) };
            let (a, b) = two(f, f);
            let r = format!("{a}{b}{}", X.with(|x| x.get()));
            X.with(|x| x.set(0));
            r
        }, &["225"]),
        ("thread/locals-are-dropped-at-the-end", || {
            thread_local! { static L: std::cell::RefCell<Option<Note>> = const { std::cell::RefCell::new(None) }; }
            struct Note(Log);
            impl Drop for Note {
                fn drop(&mut self) { put(&self.0, "d") }
            }
            let l = Log::default();
            let m = l.clone();
            thread::spawn(move || { L.with(|x| *x.borrow_mut() = Some(Note(m.clone()))); put(&m, "b") }).join().unwrap();
            text(&l)
        }, &["bd"]),
        ("thread/ids", || {
            let (a, b) = two(|| thread::current().id(), || thread::current().id());
            format!("{} {}", a == b, a == thread::current().id())
        }, &["false false"]),
        // ---- reference counts
        ("arc/last-one-out", || {
            let l = Log::default();
            struct Note(Log);
            impl Drop for Note {
                fn drop(&mut self) { put(&self.0, "d") }
            }
            let n = Arc::new(Note(l.clone()));
            let m = n.clone();
            let (k, j) = (l.clone(), l.clone());
            two(move || { drop(n); put(&k, "a") }, move || { drop(m); put(&j, "b") });
            text(&l)
        }, &["adb", "bda", "dab", "dba"]),
        ("arc/try-unwrap", || {
            let n = Arc::new(1);
            let m = n.clone();
            let (a, b) = two(move || Arc::try_unwrap(n).is_ok(), move || Arc::try_unwrap(m).is_ok());
            format!("{a} {b}")
        }, &["true false", "false true", "false false"]),
        ("arc/into-inner", || {
            let n = Arc::new(1);
            let m = n.clone();
            let (a, b) = two(move || Arc::into_inner(n).is_some(), move || Arc::into_inner(m).is_some());
            format!("{a} {b}")
        }, &["true false", "false true"]),
        ("arc/upgrade", || {
            let n = Arc::new(1);
            let w = Arc::downgrade(&n);
            let (_, b) = two(move || drop(n), move || w.upgrade().is_some());
            b.to_string()
        }, &["true", "false"]),
        ("arc/counts", || {
            let n = Arc::new(1);
            let m = n.clone();
            let k = n.clone();
            let (_, b) = two(move || drop(n), move || Arc::strong_count(&m));
            format!("{b} {}", Arc::strong_count(&k))
        }, &["2 1", "3 1"]),
        // ---- std channels
        ("mpsc/order", || {
            let (tx, rx) = mpsc::channel();
            let h = thread::spawn(move || { tx.send('a').unwrap(); noise(); tx.send('b').unwrap() });
            noise();
            let s: String = rx.iter().collect();
            h.join().unwrap();
            s
        }, &["ab"]),
        ("mpsc/two-senders", || {
            let (tx, rx) = mpsc::channel();
            let ty = tx.clone();
            two(move || { tx.send('a').unwrap(); noise(); tx.send('b').unwrap() }, move || ty.send('x').unwrap());
            rx.iter().collect()
        }, &["abx", "axb", "xab"]),
        ("mpsc/receiver-gone", || {
            let (tx, rx) = mpsc::channel();
            let (a, _) = two(move || (tx.send(1).is_ok(), { noise(); tx.send(2).is_ok() }), move || drop(rx));
            format!("{a:?}")
        }, &["(true, true)", "(true, false)", "(false, false)"]),
        ("mpsc/try-recv", || {
            let (tx, rx) = mpsc::channel();
            let (_, b) = two(move || tx.send(1).is_ok(), move || rx.try_recv());
            format!("{b:?}")
        }, &["Ok(1)", "Err(Empty)"]),
        ("mpsc/try-recv-disconnected", || {
            let (tx, rx) = mpsc::channel::<i32>();
            let (_, b) = two(move || drop(tx), move || rx.try_recv());
            format!("{b:?}")
        }, &["Err(Empty)", "Err(Disconnected)"]),
        ("mpsc/rendezvous", || {
            let (tx, rx) = mpsc::sync_channel(0);
            let l = Log::default();
            let (k, j) = (l.clone(), l.clone());
            two(move || { tx.send(1).unwrap(); put(&k, "s") }, move || { put(&j, "r"); rx.recv().unwrap() });
            text(&l)
        }, &["rs"]),
        ("mpsc/rendezvous-try-send", || {
            let (tx, rx) = mpsc::sync_channel(0);
            let (a, b) = two(move || tx.try_send(1).is_ok(), move || rx.recv().is_ok());
            format!("{a} {b}")
        }, &["true true", "false false"]),
        ("mpsc/full", || {
            let (tx, rx) = mpsc::sync_channel(1);
            let (a, b) = two(move || { tx.send(1).unwrap(); noise(); tx.try_send(2).is_ok() }, move || rx.recv().unwrap());
            format!("{a} {b}")
        }, &["true 1", "false 1"]),
        ("mpsc/full-blocks", || {
            let (tx, _rx) = mpsc::sync_channel(1);
            tx.send(1).unwrap();
            tx.send(2).unwrap();
            "done".into()
        }, &["deadlock"]),
        ("mpsc/recv-timeout", || {
            let (tx, rx) = mpsc::channel();
            let (_, b) = two(move || { noise(); tx.send(1).is_ok() }, move || rx.recv_timeout(Duration::from_micros(30)));
            format!("{b:?}")
        }, &["Ok(1)", "Err(Timeout)"]),
        // ---- crossbeam channels
        ("crossbeam/order", || {
            let (tx, rx) = unbounded();
            let h = thread::spawn(move || { tx.send('a').unwrap(); noise(); tx.send('b').unwrap() });
            noise();
            let s: String = rx.iter().collect();
            h.join().unwrap();
            s
        }, &["ab"]),
        ("crossbeam/two-receivers", || {
            let (tx, rx) = unbounded();
            tx.send('a').unwrap();
            tx.send('b').unwrap();
            drop(tx);
            let ry = rx.clone();
            let f = |r: channel::Receiver<char>| move || { noise(); r.recv().unwrap() };
            let (a, b) = two(f(rx), f(ry));
            format!("{a}{b}")
        }, &["ab", "ba"]),
        ("crossbeam/bounded", || {
            let (tx, rx) = bounded(1);
            let (a, b) = two(move || { tx.send(1).unwrap(); noise(); matches!(tx.try_send(2), Err(TrySendError::Full(2))) }, move || rx.recv().unwrap());
            format!("{a} {b}")
        }, &["true 1", "false 1"]),
        ("crossbeam/rendezvous", || {
            let (tx, rx) = bounded(0);
            let l = Log::default();
            let (k, j) = (l.clone(), l.clone());
            two(move || { tx.send(1).unwrap(); put(&k, "s") }, move || { put(&j, "r"); rx.recv().unwrap() });
            text(&l)
        }, &["rs"]),
        ("crossbeam/senders-gone", || {
            let (tx, rx) = unbounded::<i32>();
            let (_, b) = two(move || drop(tx), move || (rx.try_recv() == Err(TryRecvError::Empty), rx.recv().is_err(), rx.try_recv() == Err(TryRecvError::Disconnected)));
            format!("{b:?}")
        }, &["(true, true, true)", "(false, true, true)"]),
        ("crossbeam/receivers-gone", || {
            let (tx, rx) = bounded(1);
            tx.send(1).unwrap();
            let (a, _) = two(move || tx.send(2).is_ok(), move || drop(rx));
            a.to_string()
        }, &["false"]),
        ("crossbeam/recv-timeout", || {
            let (tx, rx) = unbounded();
            let (_, b) = two(move || { noise(); tx.send(1).is_ok() }, move || match rx.recv_timeout(Duration::from_micros(30)) {
                Ok(_) => "got",
                Err(RecvTimeoutError::Timeout) => "timeout",
                Err(RecvTimeoutError::Disconnected) => "gone",
            });
            b.into()
        }, &["got", "timeout"]),
        ("crossbeam/len", || {
            let (tx, rx) = unbounded();
            let ty = tx.clone();
            let (_, b) = two(move || { tx.send(1).unwrap(); noise(); tx.send(2).unwrap() }, move || ty.len());
            format!("{b} {}", rx.len())
        }, &["0 2", "1 2", "2 2"]),
        // ---- the worker pool
        ("pool/join", || {
            let l = Log::default();
            let (a, b) = (l.clone(), l.clone());
            let r = pool::join(move || { noise(); put(&a, "a"); 1 }, move || { noise(); put(&b, "b"); 2 });
            format!("{r:?}{}", text(&l))
        }, &["(1, 2)ab", "(1, 2)ba"]),
        ("pool/join-one-worker", || {
            let p = pool_of(1);
            let l = Log::default();
            let (a, b) = (l.clone(), l.clone());
            p.join(move || put(&a, "a"), move || put(&b, "b"));
            text(&l)
        }, &["ab"]),
        ("pool/join-nested", || {
            let p = pool_of(1);
            let l = Log::default();
            let (a, b, c) = (l.clone(), l.clone(), l.clone());
            p.install(|| pool::join(|| pool::join(|| put(&a, "a"), || put(&b, "b")), || put(&c, "c")));
            text(&l)
        }, &["abc"]),
        ("pool/join-panics", || {
            let p = pool_of(1);
            let l = Log::default();
            let b = l.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.join(|| panic!("on purpose"), || put(&b, "b")))).is_err();
            format!("{r}{}", text(&l))
        }, &["trueb"]),
        ("pool/scope-one-worker", || {
            let p = pool_of(1);
            let l = Log::default();
            p.scope(|s| { let (a, b) = (l.clone(), l.clone()); s.spawn(move |_| put(&a, "a")); s.spawn(move |_| put(&b, "b")); put(&l, "o") });
            text(&l)
        }, &["oba"]),
        ("pool/scope-fifo-one-worker", || {
            let p = pool_of(1);
            let l = Log::default();
            p.scope_fifo(|s| { let (a, b) = (l.clone(), l.clone()); s.spawn_fifo(move |_| put(&a, "a")); s.spawn_fifo(move |_| put(&b, "b")); put(&l, "o") });
            text(&l)
        }, &["oab"]),
        ("pool/scope-two-workers", || {
            let p = pool_of(2);
            let l = Log::default();
            p.scope(|s| { let (a, b) = (l.clone(), l.clone()); s.spawn(move |_| { noise(); put(&a, "a") }); s.spawn(move |_| { noise(); put(&b, "b") }); noise() });
            text(&l)
        }, &["ab", "ba"]),
        ("pool/in-place-scope-one-worker", || {
            let p = pool_of(1);
            let l = Log::default();
            p.in_place_scope(|s| { let (a, b) = (l.clone(), l.clone()); s.spawn(move |_| put(&a, "a")); s.spawn(move |_| put(&b, "b")) });
            text(&l)
        }, &["ab"]),
        ("pool/in-place-scope-body-beside-its-jobs", || {
            let p = pool_of(1);
            let l = Log::default();
            p.in_place_scope(|s| { let a = l.clone(); s.spawn(move |_| put(&a, "a")); noise(); put(&l, "o") });
            text(&l)
        }, &["ao", "oa"]),
        ("pool/scope-waits-for-nested", || {
            let p = pool_of(2);
            let l = Log::default();
            p.scope(|s| { let a = l.clone(); s.spawn(move |s| { let b = a.clone(); s.spawn(move |_| put(&b, "b")); put(&a, "a") }) });
            put(&l, "e");
            text(&l)
        }, &["abe", "bae"]),
        ("pool/scope-panics", || {
            let p = pool_of(1);
            let l = Log::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.scope(|s| { let a = l.clone(); s.spawn(|_| panic!("on purpose")); s.spawn(move |_| put(&a, "a")) }))).is_err();
            format!("{r}{}", text(&l))
        }, &["truea"]),
        ("pool/spawn", || {
            let p = pool_of(1);
            let (tx, rx) = unbounded();
            for c in ['a', 'b'] { let tx = tx.clone(); p.spawn(move || tx.send(c).unwrap()) }
            drop(tx);
            rx.iter().collect()
        }, &["ab"]),
        ("pool/install-in-place", || {
            let p = pool_of(2);
            format!("{:?}", p.install(|| (pool::current_num_threads(), pool::current_thread_index().is_some(), p.install(pool::current_thread_index) == pool::current_thread_index())))
        }, &["(2, true, true)"]),
        ("pool/index-outside", || format!("{:?} {}", pool::current_thread_index(), pool::current_num_threads()), &["None 2"]),
        ("pool/install-across", || {
            let (p, q) = (pool_of(1), pool_of(1));
            let r = p.install(|| q.install(|| p.install(|| 3)));
            r.to_string()
        }, &["3"]),
        ("pool/broadcast", || {
            let p = pool_of(2);
            format!("{:?}", p.broadcast(|c| { noise(); c.index() }))
        }, &["[0, 1]"]),
        ("pool/blocked-worker", || {
            let p = pool_of(1);
            let (tx, rx) = bounded(0);
            p.scope(|s| { s.spawn(move |_| { let _ = tx.send(1); }); s.spawn(move |_| { let _ = rx.recv(); }) });
            "done".into()
        }, &["deadlock"]),
        ("pool/blocked-worker-of-two", || {
            let p = pool_of(2);
            let (tx, rx) = bounded(0);
            p.scope(|s| { s.spawn(move |_| { let _ = tx.send(1); }); s.spawn(move |_| { let _ = rx.recv(); }) });
            "done".into()
        }, &["done"]),
        ("pool/a-waiting-worker-runs-other-jobs", || {
            let p = pool_of(2);
            let m = Arc::new(Mutex::new(()));
            p.in_place_scope(|s| for _ in 0..2 {
                let m = m.clone();
                s.spawn(move |_| { let _g = m.lock().unwrap(); noise(); pool::join(noise, noise); })
            });
            "done".into()
        }, &["done", "deadlock"]),
        ("pool/a-lock-held-only-outside-the-pool", || {
            let p = Arc::new(pool_of(1));
            let m = Arc::new(Mutex::new(0));
            let f = |p: Arc<pool::ThreadPool>, m: Arc<Mutex<i32>>| move || { let mut g = m.lock().unwrap(); *g += p.install(|| { noise(); 1 }) };
            two(f(p.clone(), m.clone()), f(p, m.clone()));
            let r = m.lock().unwrap().to_string();
            r
        }, &["2"]),
        ("pool/a-lock-held-while-waiting-and-wanted-inside", || {
            let p = pool_of(1);
            let m = Arc::new(Mutex::new(0));
            let n = m.clone();
            let (l, k) = (Log::default(), Log::default());
            p.in_place_scope(|s| {
                s.spawn(|_| { *n.lock().unwrap() += 1; put(&l, "a") });
                noise();
                let _g = m.lock().unwrap();
                p.install(|| put(&k, "b"));
            });
            "done".into()
        }, &["done", "deadlock"]),
        ("pool/yield-runs-a-job", || {
            let p = pool_of(1);
            let l = Log::default();
            p.scope(|s| { let a = l.clone(); s.spawn(move |_| put(&a, "a")); pool::yield_now(); put(&l, "o") });
            text(&l)
        }, &["ao"]),
        ("pool/callers-share", || {
            let l = Log::default();
            let f = |l: Log, c: &'static str| move || pool::scope(|s| { let l2 = l.clone(); s.spawn(move |_| { noise(); put(&l2, c) }) });
            two(f(l.clone(), "a"), f(l.clone(), "b"));
            text(&l)
        }, &["ab", "ba"]),
        ("pool/sees-what-was-written-before", || {
            let x = Arc::new(AtomicUsize::new(0));
            let y = x.clone();
            x.store(1, SeqCst);
            let r = pool_of(1).install(move || { let v = y.load(SeqCst); y.store(2, SeqCst); v });
            format!("{r}{}", x.load(SeqCst))
        }, &["12"]),
        ("pool/has-two-workers", || {
            let b = Arc::new(Barrier::new(2));
            let c = b.clone();
            pool_of(2).join(move || b.wait(), move || c.wait());
            yes(true)
        }, &["yes"]),
        ("pool/a-lock-held-over-a-join-of-one-worker", || {
            let p = pool_of(1);
            let m = Arc::new(Mutex::new(0));
            p.in_place_scope(|s| for _ in 0..2 {
                let m = m.clone();
                s.spawn(move |_| { let mut g = m.lock().unwrap(); pool::join(noise, noise); *g += 1 })
            });
            let r = m.lock().unwrap().to_string();
            r
        }, &["2"]),
        ("pool/a-lock-held-over-a-scope-of-one-worker", || {
            let p = pool_of(1);
            let m = Arc::new(Mutex::new(0));
            p.scope(|s| for _ in 0..2 {
                let m = m.clone();
                s.spawn(move |_| { let mut g = m.lock().unwrap(); pool::scope(|s| { s.spawn(|_| noise()); s.spawn(|_| noise()) }); *g += 1 })
            });
            let r = m.lock().unwrap().to_string();
            r
        }, &["2"]),
        ("pool/a-read-lock-held-over-a-join", || {
            let p = pool_of(2);
            let m = Arc::new(RwLock::new(0));
            p.in_place_scope(|s| for _ in 0..2 {
                let m = m.clone();
                s.spawn(move |_| { let _g = m.read().unwrap(); noise(); pool::join(noise, noise); })
            });
            "done".into()
        }, &["done"]),
        ("pool/locals-belong-to-workers", || {
            thread_local! { static X: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
            let p = pool_of(1);
            let f = || { X.with(|x| x.set(x.get() + 1)); X.with(|x| x.get()) };
            let r = (p.install(f), p.install(f));
            format!("{r:?}{}", X.with(|x| x.get()))
        }, &["(1, 2)0"]),
        ("pool/stolen-oldest-first", || {
            let p = pool_of(2);
            let l = Log::default();
            let b = Arc::new(Barrier::new(2));
            p.scope(|s| {
                for c in ["a", "b"] { let l = l.clone(); s.spawn(move |_| put(&l, c)) }
                let (b, c) = (b.clone(), b.clone());
                // the other worker comes to this last one only when it has taken the others
                s.spawn(move |_| { c.wait(); });
                b.wait();
            });
            text(&l)
        }, &["ab"]),
        ("pool/first-job-of-many-callers", || {
            let p = Arc::new(pool_of(1));
            let l = Log::default();
            let f = |p: Arc<pool::ThreadPool>, l: Log, c: &'static str| move || { p.install(|| { put(&l, c); noise(); put(&l, c) }) };
            two(f(p.clone(), l.clone(), "a"), f(p, l.clone(), "b"));
            text(&l)
        }, &["aabb", "bbaa"]),
        ("pool/jobs-beside-their-spawner", || {
            let p = pool_of(2);
            let l = Log::default();
            p.scope(|s| { let a = l.clone(); s.spawn(move |_| { put(&a, "a"); noise(); put(&a, "b") }); noise(); put(&l, "o") });
            text(&l)
        }, &["abo", "aob", "oab"]),
        ("pool/spawned-job-outlives-its-caller", || {
            let l = Log::default();
            let k = l.clone();
            pool::spawn(move || { noise(); put(&k, "a") });
            noise();
            text(&l)
        }, &["", "a"]),
        ("mpsc/two-blocked-senders", || {
            let (tx, rx) = mpsc::sync_channel(1);
            let ty = tx.clone();
            let h = thread::spawn(move || { noise(); rx.iter().collect::<String>() });
            two(move || { tx.send('a').unwrap(); tx.send('b').unwrap() }, move || ty.send('x').unwrap());
            h.join().unwrap()
        }, &["abx", "axb", "xab"]),
        ("condvar/queue", || {
            let p = Arc::new((Mutex::new(vec![]), Condvar::new()));
            let q = p.clone();
            let (_, r) = two(move || { for c in ['a', 'b'] { p.0.lock().unwrap().push(c); p.1.notify_one(); noise() } }, move || {
                let mut out = String::new();
                while out.len() < 2 { let mut g = q.1.wait_while(q.0.lock().unwrap(), |v| v.is_empty()).unwrap(); out.extend(g.drain(..)); noise() }
                out
            });
            r
        }, &["ab"]),
        ("rwlock/second-reader-after-a-waiting-writer", || {
            // a reader holds the lock until another one has it too; a writer may get in between
            let (x, b) = (Arc::new(RwLock::new(0)), Arc::new(Barrier::new(2)));
            let y = x.clone();
            let f = |x: Arc<RwLock<i32>>, b: Arc<Barrier>| move || { let _g = x.read().unwrap(); b.wait(); };
            let w = thread::spawn(move || { noise(); *y.write().unwrap() += 1 });
            two(f(x.clone(), b.clone()), f(x, b));
            w.join().unwrap();
            "done".into()
        }, &["done", "deadlock"]),
        ("mutex/poison-does-not-spread", || {
            let (a, b) = (Arc::new(Mutex::new(0)), Arc::new(Mutex::new(0)));
            let (c, d) = (a.clone(), b.clone());
            let h = thread::spawn(move || { let _g = a.lock().unwrap(); panic!("on purpose") });
            let k = thread::spawn(move || { for _ in 0..3 { *b.lock().unwrap() += 1; noise() } });
            let r = (h.join().is_err(), k.join().is_err());
            format!("{r:?} {} {}", c.is_poisoned(), d.is_poisoned())
        }, &["(true, false) true false"]),
        ("thread/panic-beside-others", || {
            let l = Log::default();
            let k = l.clone();
            let h = thread::spawn(|| { struct D; impl Drop for D { fn drop(&mut self) { noise() } } let _d = D; panic!("on purpose") });
            let g = thread::spawn(move || put(&k, if thread::panicking() { "p" } else { "n" }));
            let _: (Result<(), _>, _) = (h.join(), g.join());
            text(&l)
        }, &["n"]),
    ]
}
