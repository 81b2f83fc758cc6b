// helpers shared by the demonstrations: in-memory streams that can fail, cut writes short, or log what happens
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use retrocompressor::{lzw, lzss_huff, td0, direct_ports::lzhuf};

/// a stream over a buffer; the n-th operation (reads, writes, seeks, flushes counted together) fails with `kind`
pub struct Faulty {
    pub inner: Cursor<Vec<u8>>,
    pub ops: usize,
    pub fail_at: usize,
    pub failed: bool,
    pub kind: io::ErrorKind,
    pub flushed: bool,
    pub dirty: bool,
    pub min_write: u64,
    pub min_read: u64,
    pub wrote: usize,
}
impl Faulty {
    pub fn new(v: Vec<u8>) -> Self {
        Faulty { inner: Cursor::new(v), ops: 0, fail_at: usize::MAX, failed: false, kind: io::ErrorKind::Other, flushed: false, dirty: false,
                 min_write: u64::MAX, min_read: u64::MAX, wrote: 0 }
    }
    pub fn failing(v: Vec<u8>, at: usize, kind: io::ErrorKind) -> Self {
        let mut f = Self::new(v);
        f.fail_at = at;
        f.kind = kind;
        f
    }
    fn op(&mut self) -> io::Result<()> {
        self.ops += 1;
        if self.ops == self.fail_at {
            self.failed = true;
            return Err(io::Error::new(self.kind, "planted failure"));
        }
        Ok(())
    }
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        self.min_read = self.min_read.min(self.inner.position());
        let n = b.len().min(1000);
        self.inner.read(&mut b[..n])
    }
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.op()?;
        if !b.is_empty() {
            self.min_write = self.min_write.min(self.inner.position());
            self.dirty = true;
        }
        let n = b.len().min(1000);
        self.wrote += n;
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op()?;
        self.dirty = false;
        self.flushed = true;
        Ok(())
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.op()?;
        self.inner.seek(p)
    }
}
/// text-like data that LZ methods find matches in
pub fn text(n: usize) -> Vec<u8> {
    let mut x: u32 = 12345;
    let mut v: Vec<u8> = Vec::new();
    while v.len() < n {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        if x & 0x40000 == 0 && v.len() > 64 {
            let o = (x >> 20) as usize % v.len().min(3900);
            let s = v.len() - 1 - o;
            for k in 0..(4 + (x >> 12) as usize % 30) {
                let c = v[s + k.min(o)];
                v.push(c);
            }
        } else {
            v.push((x >> 24) as u8);
        }
    }
    v.truncate(n);
    v
}
pub type Res = Result<(u64, u64), Box<dyn std::error::Error>>;
/// a TD0 header in plain form
pub fn td_header(ver: u8) -> Vec<u8> {
    let mut h = vec![b'T', b'D', 0, 0, ver, 0, 0, 0, 0, 1, 0, 0];
    let c = td0::crc16(0, &h[..10]).to_le_bytes();
    h[10..].copy_from_slice(&c);
    h
}
