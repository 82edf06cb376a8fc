//! Readers and writers that behave as badly as the traits allow.

use crate::rng::Rng;
use std::io::{self, ErrorKind, Read, Write};

/// Delivers the bytes in irregular pieces, with interrupted calls in between
pub struct FragReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub rng: Rng,
    pub max: usize,
    pub interrupts: bool,
    pub calls: u64,
}

impl<'a> FragReader<'a> {
    pub fn new(data: &'a [u8], rng: Rng, max: usize, interrupts: bool) -> FragReader<'a> {
        FragReader { data, pos: 0, rng, max, interrupts, calls: 0 }
    }
}

impl Read for FragReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.rng.chance(1, 4) {
            return Err(ErrorKind::Interrupted.into());
        }
        let left = self.data.len() - self.pos;
        let n = self.rng.range(1, self.max).min(buf.len()).min(left);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Fails once `at` bytes were delivered
pub struct FailReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub kind: ErrorKind,
    pub max: usize,
    /// fail once, then keep delivering
    pub once: bool,
    pub failed: u64,
}

impl Read for FailReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pos >= self.at && !(self.once && self.failed > 0) {
            self.failed += 1;
            return Err(io::Error::new(self.kind, "injected read failure"));
        }
        let limit = if self.failed > 0 { self.data.len() } else { self.at.min(self.data.len()) };
        let n = self.max.min(buf.len()).min(limit - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts bytes in irregular pieces, with interrupted calls in between
pub struct FragWriter {
    pub out: Vec<u8>,
    pub rng: Rng,
    pub max: usize,
    pub interrupts: bool,
    pub calls: u64,
    pub flushes: u64,
    /// bytes accepted when flush was called last
    pub flushed_at: Option<usize>,
}

impl FragWriter {
    pub fn new(rng: Rng, max: usize, interrupts: bool) -> FragWriter {
        FragWriter { out: Vec::new(), rng, max, interrupts, calls: 0, flushes: 0, flushed_at: None }
    }
}

impl Write for FragWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.rng.chance(1, 4) {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = self.rng.range(1, self.max).min(buf.len());
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        self.flushed_at = Some(self.out.len());
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WriteFault {
    Error(ErrorKind),
    /// accepts nothing any more, without an error
    Zero,
    Flush,
    /// this write call fails once, later ones would work
    Once(ErrorKind),
}

/// Fails once `at` bytes were accepted. Bytes only count as delivered once flushed.
pub struct FailWriter {
    pub out: Vec<u8>,
    pub at: usize,
    pub fault: WriteFault,
    pub max: usize,
    pub failed: u64,
    pub flushed_at: Option<usize>,
}

impl FailWriter {
    pub fn new(at: usize, fault: WriteFault, max: usize) -> FailWriter {
        FailWriter { out: Vec::new(), at, fault, max, failed: 0, flushed_at: None }
    }
}

impl Write for FailWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.at.saturating_sub(self.out.len());
        if left == 0 {
            match self.fault {
                WriteFault::Error(k) => {
                    self.failed += 1;
                    return Err(io::Error::new(k, "injected write failure"));
                }
                WriteFault::Zero => {
                    self.failed += 1;
                    return Ok(0);
                }
                WriteFault::Once(k) if self.failed == 0 => {
                    self.failed += 1;
                    return Err(io::Error::new(k, "injected write failure"));
                }
                _ => {}
            }
        }
        let n = match self.fault {
            WriteFault::Flush => self.max.min(buf.len()),
            WriteFault::Once(_) if self.failed > 0 => self.max.min(buf.len()),
            _ => self.max.min(buf.len()).min(left),
        };
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fault == WriteFault::Flush {
            self.failed += 1;
            return Err(io::Error::new(ErrorKind::Other, "injected flush failure"));
        }
        self.flushed_at = Some(self.out.len());
        Ok(())
    }
}
