//! Controlled `Arc`: as long as nobody asks for a reference count it is the standard library's.
//! Code that asks (`strong_count`, `try_unwrap`, `get_mut`, `make_mut`, an `upgrade`) can see when
//! another thread makes or drops a reference, so from then on those are scheduling points, too.
use crate::exec::{point, watched, REFERENCES};
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::Unsize;
use std::mem::ManuallyDrop;
use std::ops::{CoerceUnsized, Deref, DispatchFromDyn};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::pin::Pin;
use std::sync::{Arc as Real, Weak as RealWeak};

pub struct Arc<T: ?Sized>(Real<T>);
pub struct Weak<T: ?Sized>(RealWeak<T>);

fn passing(what: &'static str) {
    if watched(REFERENCES) {
        point(what, &|| true);
    }
}
fn asking(what: &'static str) {
    crate::exec::watch(REFERENCES);
    point(what, &|| true);
}

impl<T: ?Sized> Arc<T> {
    fn wrap(r: Real<T>) -> Arc<T> {
        Arc(r)
    }
    fn into_real(self) -> Real<T> {
        let me = ManuallyDrop::new(self);
        unsafe { std::ptr::read(&me.0) }
    }
    pub fn into_raw(this: Self) -> *const T {
        Real::into_raw(this.into_real())
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        Arc::wrap(unsafe { Real::from_raw(p) })
    }
    pub fn as_ptr(this: &Self) -> *const T {
        Real::as_ptr(&this.0)
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        Real::ptr_eq(&a.0, &b.0)
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        passing("arc downgrade");
        Weak(Real::downgrade(&this.0))
    }
    pub fn strong_count(this: &Self) -> usize {
        asking("arc strong_count");
        Real::strong_count(&this.0)
    }
    pub fn weak_count(this: &Self) -> usize {
        asking("arc weak_count");
        Real::weak_count(&this.0)
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        asking("arc get_mut");
        Real::get_mut(&mut this.0)
    }
}
impl<T> Arc<T> {
    pub fn new(t: T) -> Arc<T> {
        Arc::wrap(Real::new(t))
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Arc<T> {
        Arc::wrap(Real::new_cyclic(|w| f(&Weak(w.clone()))))
    }
    pub fn pin(t: T) -> Pin<Arc<T>> {
        unsafe { Pin::new_unchecked(Arc::new(t)) }
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        asking("arc try_unwrap");
        Real::try_unwrap(this.into_real()).map_err(Arc::wrap)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        asking("arc into_inner");
        Real::into_inner(this.into_real())
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        asking("arc make_mut");
        Real::make_mut(&mut this.0)
    }
    pub fn unwrap_or_clone(this: Self) -> T {
        asking("arc unwrap_or_clone");
        Real::unwrap_or_clone(this.into_real())
    }
}
impl<T> Weak<T> {
    pub const fn new() -> Weak<T> {
        Weak(RealWeak::new())
    }
}
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        asking("weak upgrade");
        self.0.upgrade().map(Arc::wrap)
    }
    pub fn strong_count(&self) -> usize {
        asking("weak strong_count");
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        asking("weak weak_count");
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        self.0.ptr_eq(&o.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        passing("arc clone");
        Arc::wrap(Real::clone(&self.0))
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        passing("arc drop");
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        passing("weak clone");
        Weak(RealWeak::clone(&self.0))
    }
}
impl<T: ?Sized> Drop for Weak<T> {
    fn drop(&mut self) {
        passing("weak drop");
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        self
    }
}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: RefUnwindSafe + ?Sized> UnwindSafe for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&Arc::as_ptr(self), f)
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("(Weak)")
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(v: Vec<T>) -> Self {
        Arc::wrap(Real::from(v))
    }
}
impl<T: Clone> From<&[T]> for Arc<[T]> {
    fn from(v: &[T]) -> Self {
        Arc::wrap(Real::from(v))
    }
}
impl<T, const N: usize> From<[T; N]> for Arc<[T]> {
    fn from(v: [T; N]) -> Self {
        Arc::wrap(Real::from(v))
    }
}
impl From<&str> for Arc<str> {
    fn from(v: &str) -> Self {
        Arc::wrap(Real::from(v))
    }
}
impl From<String> for Arc<str> {
    fn from(v: String) -> Self {
        Arc::wrap(Real::from(v))
    }
}
impl<T: ?Sized> From<Box<T>> for Arc<T> {
    fn from(v: Box<T>) -> Self {
        Arc::wrap(Real::from(v))
    }
}
impl<T> FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Arc::wrap(i.into_iter().collect())
    }
}
