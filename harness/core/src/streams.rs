//! Streams that behave legally but awkwardly: short reads and writes, interruptions, faults at a chosen byte.
use std::io::{self, Read, Seek, SeekFrom, Write};

/// Reads one byte at a time, with an `Interrupted` before every third one.
pub struct Trickle<'a> {
    inner: io::Cursor<&'a [u8]>,
    n: usize,
}
impl<'a> Trickle<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Trickle { inner: io::Cursor::new(b), n: 0 }
    }
}
impl Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n % 3 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = buf.len().min(1);
        self.inner.read(&mut buf[..n])
    }
}
impl Seek for Trickle<'_> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.inner.seek(pos)
    }
}

/// Writes at most three bytes at a time, with interruptions; fails for good once `budget` bytes have been written.
pub struct Drip {
    pub inner: io::Cursor<Vec<u8>>,
    n: usize,
    budget: Option<usize>,
    pub failed: bool,
}
impl Drip {
    pub fn new(budget: Option<usize>) -> Self {
        Drip { inner: io::Cursor::new(vec![]), n: 0, budget, failed: false }
    }
}
impl Write for Drip {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n % 4 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(3);
        if let Some(b) = &mut self.budget {
            if *b == 0 && !buf.is_empty() {
                self.failed = true;
                return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
            }
            n = n.min(*b);
            *b -= n;
        }
        self.inner.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl Seek for Drip {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.inner.seek(pos)
    }
}
