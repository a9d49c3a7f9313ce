//! Destinations and sources the simulator controls.
use rt::{e, hit, seam};
use std::io;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the `n`-th write call is refused whole
    Call(u64),
    /// bytes beyond this offset do not fit; what fits is taken if `partial`
    Byte { at: usize, partial: bool },
    /// writes of at least this many bytes are refused
    Longer(usize),
    /// writes of at most this many bytes are refused, after `after` bytes
    Shorter { len: usize, after: usize },
    /// panics at the n-th write
    PanicCall(u64),
    PanicByte(usize),
    /// never returns from the n-th write
    BlockCall(u64),
}

pub struct FmtSink<'a> {
    pub fault: Fault,
    /// recover after this many refusals (u64::MAX: never)
    pub recover: u64,
    pub got: Vec<u8>,
    pub calls: u64,
    pub refusals: u64,
    pub calls_after: u64,
    pub bytes_after: u64,
    pub hook: Option<&'a mut dyn FnMut(u64)>,
}
impl<'a> FmtSink<'a> {
    pub fn new(fault: Fault) -> Self {
        FmtSink { fault, recover: u64::MAX, got: vec![], calls: 0, refusals: 0, calls_after: 0, bytes_after: 0, hook: None }
    }
    /// Ok: how many bytes to take; Err: refuse after taking as many
    fn decide(&mut self, s: &[u8]) -> Result<usize, usize> {
        let n = self.calls;
        self.calls += 1;
        if self.refusals > 0 {
            self.calls_after += 1;
            self.bytes_after += s.len() as u64;
            if self.refusals >= self.recover {
                return Ok(s.len());
            }
        }
        let r = match self.fault {
            Fault::None => Ok(s.len()),
            Fault::Call(k) if n >= k => Err(0),
            Fault::Byte { at, partial } if self.got.len() + s.len() > at => Err(if partial { at.saturating_sub(self.got.len()) } else { 0 }),
            Fault::Longer(l) if s.len() >= l => Err(0),
            Fault::Shorter { len, after } if s.len() <= len && self.got.len() >= after => Err(0),
            Fault::PanicCall(k) if n >= k => {
                hit("fault.sink_panicked");
                self.refusals += 1;
                std::panic::panic_any(SinkPanic);
            }
            Fault::PanicByte(k) if self.got.len() + s.len() > k => {
                hit("fault.sink_panicked");
                self.refusals += 1;
                std::panic::panic_any(SinkPanic);
            }
            Fault::BlockCall(k) if n >= k => {
                hit("fault.sink_stalled_for_good");
                self.refusals += 1;
                rt::sched::block_forever();
                Err(0)
            }
            _ => Ok(s.len()),
        };
        if r.is_err() {
            hit("fault.sink_refused");
            self.refusals += 1;
        }
        r
    }
}
pub struct SinkPanic;

impl std::fmt::Write for FmtSink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        seam(12, s.len() as u64, 0);
        if let Some(h) = self.hook.as_mut() {
            h(self.calls);
        }
        match self.decide(s.as_bytes()) {
            Ok(n) => {
                self.got.extend_from_slice(&s.as_bytes()[..n]);
                Ok(())
            }
            Err(mut n) => {
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.extend_from_slice(&s.as_bytes()[..n]);
                Err(std::fmt::Error)
            }
        }
    }
}

/// A byte stream: short writes, interruptions, and failure for good.
pub struct IoSink {
    pub got: Vec<u8>,
    pub chunk: u64,
    pub eintr: u64,
    pub fail_at: Option<usize>,
    pub kind: io::ErrorKind,
    /// fail by returning Ok(0)
    pub zero: bool,
    /// fail only this many times, then accept again
    pub recover: u64,
    pub failures: u64,
    pub calls_after: u64,
    pub flushed: u64,
}
impl IoSink {
    pub fn new() -> IoSink {
        IoSink { got: vec![], chunk: 0, eintr: 0, fail_at: None, kind: io::ErrorKind::Other, zero: false, recover: u64::MAX, failures: 0, calls_after: 0, flushed: 0 }
    }
}
impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        seam(13, b.len() as u64, 0);
        if b.is_empty() {
            return Ok(0);
        }
        if self.failures > 0 {
            self.calls_after += 1;
        }
        if self.eintr > 0 && e(self.eintr) == self.eintr - 1 {
            hit("fault.stream_eintr");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len();
        if let Some(f) = self.fail_at {
            if self.got.len() >= f && self.failures < self.recover {
                hit("fault.stream_write_failed");
                self.failures += 1;
                return if self.zero { Ok(0) } else { Err(io::Error::from(self.kind)) };
            }
            if self.failures < self.recover {
                n = n.min(f - self.got.len());
            }
        }
        if self.chunk > 0 {
            n = n.min(1 + e(self.chunk) as usize);
        }
        if n < b.len() {
            hit("fault.stream_short_write");
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        Ok(())
    }
}

/// A byte stream being read: short reads, interruptions, early end, failure.
pub struct IoSource<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: u64,
    pub eintr: u64,
    pub fail_at: Option<usize>,
    /// fail only this many times, then deliver the rest
    pub recover: u64,
    pub failures: u64,
}
impl<'a> IoSource<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        IoSource { data, pos: 0, chunk: 0, eintr: 0, fail_at: None, recover: u64::MAX, failures: 0 }
    }
}
impl io::Read for IoSource<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        seam(14, b.len() as u64, 0);
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && e(self.eintr) == self.eintr - 1 {
            hit("fault.stream_eintr");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f && self.failures < self.recover {
                self.failures += 1;
                hit("fault.stream_read_failed");
                return Err(io::Error::from(io::ErrorKind::ConnectionReset));
            }
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            if self.failures < self.recover {
                n = n.min(f - self.pos);
            }
        }
        if self.chunk > 0 {
            n = n.min(1 + e(self.chunk) as usize);
        }
        if n < b.len().min(self.data.len() - self.pos) {
            hit("fault.stream_short_read");
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
