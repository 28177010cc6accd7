//! Controlled stand-in for crossbeam-channel (unbounded, bounded and rendezvous channels).
use crate::exec::{free_point, point, yield_point};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Chan<T> {
    queue: RefCell<VecDeque<T>>,
    cap: Option<usize>,
    senders: Cell<usize>,
    receivers: Cell<usize>,
    /// receivers waiting in `recv` (for rendezvous channels)
    waiting: Cell<usize>,
    taken: Cell<u64>,
    sent: Cell<u64>,
}
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}

impl<T> Chan<T> {
    fn space(&self) -> bool {
        match self.cap {
            None => true,
            Some(0) => self.waiting.get() > self.queue.borrow().len(),
            Some(c) => self.queue.borrow().len() < c,
        }
    }
    fn take(&self) -> Option<T> {
        let v = self.queue.borrow_mut().pop_front();
        if v.is_some() {
            self.taken.set(self.taken.get() + 1);
        }
        v
    }
    fn put(&self, v: T) {
        self.queue.borrow_mut().push_back(v);
        self.sent.set(self.sent.get() + 1);
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

fn channel<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        queue: RefCell::new(VecDeque::new()),
        cap,
        senders: Cell::new(1),
        receivers: Cell::new(1),
        waiting: Cell::new(0),
        taken: Cell::new(0),
        sent: Cell::new(0),
    });
    (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    channel(None)
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    channel(Some(cap))
}
pub fn never<T>() -> Receiver<T> {
    let (s, r) = channel(None);
    std::mem::forget(s);
    r
}

impl<T> Sender<T> {
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        let c = &*self.0;
        point("channel send", &|| c.receivers.get() == 0 || c.space());
        if c.receivers.get() == 0 {
            return Err(SendError(msg));
        }
        c.put(msg);
        if c.cap == Some(0) {
            let mine = c.sent.get();
            free_point("channel rendezvous", false, &|| c.taken.get() >= mine || c.receivers.get() == 0);
            if c.taken.get() < mine {
                if let Some(m) = c.queue.borrow_mut().pop_back() {
                    c.sent.set(mine - 1);
                    return Err(SendError(m));
                }
            }
        }
        Ok(())
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        let c = &*self.0;
        point("channel try_send", &|| true);
        if c.receivers.get() == 0 {
            return Err(TrySendError::Disconnected(msg));
        }
        if !c.space() {
            return Err(TrySendError::Full(msg));
        }
        c.put(msg);
        Ok(())
    }
    pub fn send_timeout(&self, msg: T, _t: Duration) -> Result<(), SendTimeoutError<T>> {
        match self.try_send(msg) {
            Ok(()) => Ok(()),
            Err(TrySendError::Disconnected(m)) => Err(SendTimeoutError::Disconnected(m)),
            Err(TrySendError::Full(m)) => {
                yield_point("channel send_timeout");
                Err(SendTimeoutError::Timeout(m))
            }
        }
    }
    pub fn is_empty(&self) -> bool {
        point("channel is_empty", &|| true);
        self.0.queue.borrow().is_empty()
    }
    pub fn is_full(&self) -> bool {
        point("channel is_full", &|| true);
        !self.0.space()
    }
    pub fn len(&self) -> usize {
        point("channel len", &|| true);
        self.0.queue.borrow().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.senders.set(self.0.senders.get() + 1);
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if self.0.senders.get() == 1 && self.0.receivers.get() > 0 {
            point("channel disconnect", &|| true);
        }
        self.0.senders.set(self.0.senders.get() - 1);
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender { .. }")
    }
}

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let c = &*self.0;
        let ready = || c.senders.get() == 0 || !c.queue.borrow().is_empty();
        if c.cap == Some(0) {
            point("channel recv", &|| true);
            c.waiting.set(c.waiting.get() + 1);
            free_point("channel recv", false, &ready);
            c.waiting.set(c.waiting.get() - 1);
        } else {
            point("channel recv", &ready);
        }
        c.take().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let c = &*self.0;
        point("channel try_recv", &|| true);
        match c.take() {
            Some(v) => Ok(v),
            None if c.senders.get() == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, _t: Duration) -> Result<T, RecvTimeoutError> {
        match self.try_recv() {
            Ok(v) => Ok(v),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            Err(TryRecvError::Empty) => {
                // either something arrives while others run, or time is up
                yield_point("channel recv_timeout");
                match self.0.take() {
                    Some(v) => Ok(v),
                    None if self.0.senders.get() == 0 => Err(RecvTimeoutError::Disconnected),
                    None => Err(RecvTimeoutError::Timeout),
                }
            }
        }
    }
    pub fn recv_deadline(&self, _d: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(Duration::ZERO)
    }
    pub fn is_empty(&self) -> bool {
        point("channel is_empty", &|| true);
        self.0.queue.borrow().is_empty()
    }
    pub fn is_full(&self) -> bool {
        point("channel is_full", &|| true);
        !self.0.space()
    }
    pub fn len(&self) -> usize {
        point("channel len", &|| true);
        self.0.queue.borrow().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { receiver: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter { receiver: self }
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.receivers.set(self.0.receivers.get() + 1);
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if self.0.receivers.get() == 1 && self.0.senders.get() > 0 {
            point("channel disconnect", &|| true);
        }
        let n = self.0.receivers.get() - 1;
        self.0.receivers.set(n);
        if n == 0 {
            let q = std::mem::take(&mut *self.0.queue.borrow_mut());
            drop(q);
        }
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver { .. }")
    }
}
pub struct Iter<'a, T> {
    receiver: &'a Receiver<T>,
}
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.receiver.recv().ok()
    }
}
impl<T> std::iter::FusedIterator for Iter<'_, T> {}
pub struct TryIter<'a, T> {
    receiver: &'a Receiver<T>,
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.receiver.try_recv().ok()
    }
}
pub struct IntoIter<T> {
    receiver: Receiver<T>,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.receiver.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { receiver: self }
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            TrySendError::Full(v) | TrySendError::Disconnected(v) => v,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, TrySendError::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, TrySendError::Disconnected(_))
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == TryRecvError::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == TryRecvError::Disconnected
    }
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool {
        *self == RecvTimeoutError::Timeout
    }
    pub fn is_disconnected(&self) -> bool {
        *self == RecvTimeoutError::Disconnected
    }
}
macro_rules! text {
    ($($t:ident $(<$g:ident>)? $s:literal),*) => {$(
        impl $(<$g>)? fmt::Display for $t $(<$g>)? {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($s) }
        }
    )*};
}
text!(SendError<T> "sending on a disconnected channel", TrySendError<T> "sending on a full or disconnected channel",
      SendTimeoutError<T> "timed out or disconnected while sending", RecvError "receiving on an empty and disconnected channel",
      TryRecvError "receiving on an empty or disconnected channel", RecvTimeoutError "timed out or disconnected while receiving");
macro_rules! dbg_text {
    ($($t:ident $s:literal),*) => {$(
        impl<T> fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($s) }
        }
        impl<T: Send> std::error::Error for $t<T> {}
    )*};
}
dbg_text!(SendError "SendError(..)", TrySendError "TrySendError(..)", SendTimeoutError "SendTimeoutError(..)");
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvTimeoutError {}

/// `std::sync::mpsc` on the same channels.
pub mod mpsc {
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::time::Duration;

    #[derive(Debug)]
    pub struct Sender<T>(super::Sender<T>);
    #[derive(Debug)]
    pub struct SyncSender<T>(super::Sender<T>);
    #[derive(Debug)]
    pub struct Receiver<T>(super::Receiver<T>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (s, r) = super::unbounded();
        (Sender(s), Receiver(r))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let (s, r) = super::bounded(n);
        (SyncSender(s), Receiver(r))
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            SyncSender(self.0.clone())
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t).map_err(|e| SendError(e.0))
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t).map_err(|e| SendError(e.0))
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            self.0.try_send(t).map_err(|e| match e {
                super::TrySendError::Full(t) => TrySendError::Full(t),
                super::TrySendError::Disconnected(t) => TrySendError::Disconnected(t),
            })
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            self.0.recv().map_err(|_| RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.0.try_recv().map_err(|e| match e {
                super::TryRecvError::Empty => TryRecvError::Empty,
                super::TryRecvError::Disconnected => TryRecvError::Disconnected,
            })
        }
        pub fn recv_timeout(&self, t: Duration) -> Result<T, RecvTimeoutError> {
            self.0.recv_timeout(t).map_err(|e| match e {
                super::RecvTimeoutError::Timeout => RecvTimeoutError::Timeout,
                super::RecvTimeoutError::Disconnected => RecvTimeoutError::Disconnected,
            })
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    #[derive(Debug)]
    pub struct Iter<'a, T>(&'a Receiver<T>);
    #[derive(Debug)]
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    #[derive(Debug)]
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}
