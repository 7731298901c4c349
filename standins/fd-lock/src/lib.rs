//! The part of `fd-lock` scc-lib uses: an exclusive lock on an open file, by flock(2).
use std::io;
use std::ops::{Deref, DerefMut};
use std::os::fd::AsRawFd;

extern "C" {
    fn flock(fd: i32, op: i32) -> i32;
}
const LOCK_EX: i32 = 2;
const LOCK_UN: i32 = 8;

pub struct RwLock<T: AsRawFd>(T);
impl<T: AsRawFd> RwLock<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        loop {
            if unsafe { flock(self.0.as_raw_fd(), LOCK_EX) } == 0 {
                return Ok(RwLockWriteGuard(&mut self.0));
            }
            let err = io::Error::last_os_error();
            if err.kind() != io::ErrorKind::Interrupted {
                return Err(err);
            }
        }
    }
}
pub struct RwLockWriteGuard<'a, T: AsRawFd>(&'a mut T);
impl<T: AsRawFd> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<T: AsRawFd> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<T: AsRawFd> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { flock(self.0.as_raw_fd(), LOCK_UN) };
    }
}
