//! Streams whose fragmentation, interruptions and faults are scripted.

use crate::heap::not_sut;
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::rc::Rc;

/// Script items: n > 0 transfers at most n bytes, 0 is an interruption. When
/// the script is over, everything is transferred as asked for.
pub struct Script {
    items: Vec<u64>,
    next: usize,
}
impl Script {
    pub fn new(items: Vec<u64>) -> Self { Script { items, next: 0 } }
    fn step(&mut self, want: usize) -> io::Result<usize> {
        if want == 0 { return Ok(0) }
        match self.items.get(self.next) {
            None => Ok(want),
            Some(&0) => {
                self.next += 1;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            Some(&n) => {
                self.next += 1;
                Ok(want.min(n as usize))
            }
        }
    }
}

/// What the errors of the streams carry, to know them when they come back.
#[derive(Debug)]
pub struct Fault(pub io::ErrorKind);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("scripted") }
}
impl std::error::Error for Fault {}
impl Fault {
    fn error(how: Failure) -> io::Error {
        match how {
            Failure::Own(kind) => io::Error::new(kind, Fault(kind)),
            Failure::Os(code) => io::Error::from_raw_os_error(code),
        }
    }
    /// Whether an error is one of a stream, as it was. Nothing else here could
    /// come from the operating system.
    pub fn is(e: &io::Error) -> bool {
        if let Some(code) = e.raw_os_error() { return OS_CODES.contains(&code); }
        e.get_ref().and_then(|x| x.downcast_ref::<Fault>()).map(|f| f.0 == e.kind()).unwrap_or(false)
    }
}
/// How a stream fails: with an error of its own, or the operating system's.
#[derive(Copy, Clone)]
pub enum Failure { Own(io::ErrorKind), Os(i32) }
const OS_CODES: [i32; 5] = [5, 11, 28, 32, 104];
pub fn failure(s: &str) -> Failure {
    use io::ErrorKind::*;
    if let Some(code) = s.strip_prefix("os") {
        return Failure::Os(code.parse().ok().filter(|c| OS_CODES.contains(c)).expect("harness: no such code"));
    }
    for k in [ConnectionReset, BrokenPipe, WouldBlock, TimedOut, UnexpectedEof, InvalidData, InvalidInput, WriteZero,
              OutOfMemory, Other, Unsupported, NotFound, PermissionDenied] {
        if format!("{:?}", k) == s { return Failure::Own(k) }
    }
    panic!("harness: no such kind of error")
}

pub struct Reader {
    pub data: Vec<u8>,
    /// Number of bytes read, shared with those who measure.
    pub pos: Rc<Cell<usize>>,
    pub script: Script,
    /// At the end of the data, how to fail rather than end.
    pub err: Option<Failure>,
    /// Whether there is more to read, without end, after having failed once.
    pub heal: bool,
    pub failed: bool,
}
impl Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        not_sut(|| {
            let more = self.heal && self.failed;
            let want = if more { buf.len() } else { buf.len().min(self.data.len() - self.pos.get()) };
            if want == 0 && !buf.is_empty() {
                self.failed = true;
                return self.err.map(|k| Err(Fault::error(k))).unwrap_or(Ok(0));
            }
            let n = self.script.step(want)?;
            let pos = self.pos.get();
            for i in 0..n {
                buf[i] = self.data.get(pos + i).copied().unwrap_or((pos + i) as u8 & 1);
            }
            self.pos.set(pos + n);
            Ok(n)
        })
    }
}

pub struct Writer {
    pub out: Vec<u8>,
    /// Number of bytes written, shared with those who measure.
    pub len: Rc<Cell<usize>>,
    pub script: Script,
    pub limit: Option<usize>,
    /// Beyond the limit, how to fail rather than to accept 0 bytes.
    pub err: Option<Failure>,
    /// Whether everything is accepted after having failed once.
    pub heal: bool,
}
impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        not_sut(|| {
            let room = self.limit.map(|l| l - self.out.len()).unwrap_or(usize::MAX);
            let want = buf.len().min(room);
            if want == 0 && !buf.is_empty() {
                if self.heal { self.limit = None; }
                return self.err.map(|k| Err(Fault::error(k))).unwrap_or(Ok(0));
            }
            let n = self.script.step(want)?;
            self.out.extend_from_slice(&buf[..n]);
            self.len.set(self.out.len());
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// A debug log: accepts `limit` bytes, then fails.
pub struct Log {
    pub out: Vec<u8>,
    pub len: Rc<Cell<usize>>,
    pub limit: Option<usize>,
    pub err: bool,
}
impl Write for Log {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        not_sut(|| {
            let room = self.limit.map(|l| l.saturating_sub(self.out.len())).unwrap_or(usize::MAX);
            let want = buf.len().min(room);
            if want == 0 && !buf.is_empty() {
                if self.err {
                    return Err(io::Error::new(io::ErrorKind::Other, "scripted"));
                }
                return Ok(0);
            }
            self.out.extend_from_slice(&buf[..want]);
            self.len.set(self.out.len());
            Ok(want)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
