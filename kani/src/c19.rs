//! C19: no_std read_exact and bytes over any reader.
use crate::ghost::{forget, g, init, mk_io, code_of};
use crate::shim::*;
use crate::{oblige, reach};
use binread::io::{self, ErrorKind, Read};

/// Any reader of the stream `win` of `len` bytes: reads may be short, interrupted (at most
/// `intr` times) or fail once with any other kind (nothing may be asked of it after that).
struct Sh {
    at: u32,
    len: u32,
    intr: u8,
    err: u8,
    eof: bool,
    over: bool,
}
impl Read for Sh {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.err != 0 || self.eof {
            self.over = true;
        }
        if self.intr > 0 && nd_bool() {
            self.intr -= 1;
            return Err(mk_io(2));
        }
        if nd_bool() {
            let c = nd_below(3);
            self.err = if c == 0 { 1 } else if c == 1 { 4 } else { 5 };
            return Err(mk_io(self.err));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.at == self.len {
            self.eof = true;
            return Ok(0);
        }
        let n = 1 + nd_below(4) as usize;
        assume(n <= buf.len() && n as u32 <= self.len - self.at);
        let w = (g().win >> (8 * self.at)).to_le_bytes();
        let mut i = 0;
        while i < n {
            buf[i] = w[i];
            i += 1;
        }
        self.at += n as u32;
        Ok(n)
    }
}
fn sh(len: u8, intr: u8) -> Sh {
    init();
    Sh { at: 0, len: nd_below(len + 1) as u32, intr, err: 0, eof: false, over: false }
}
fn exact(by_ref: bool, max: u8, intr: u8) -> (bool, usize, u8, bool) {
    let mut r = sh(max, intr);
    let mut b = [0xEEu8; 4];
    let n = nd_below(max + 1) as usize;
    let x = if by_ref { let mut m = &mut r; io::Read::read_exact(&mut m, &mut b[..n]) } else { io::Read::read_exact(&mut r, &mut b[..n]) };
    let w = g().win.to_le_bytes();
    oblige!("C19", !r.over, "nothing is read after the end or an error");
    match &x {
        Ok(()) => {
            oblige!("C19", r.at as usize == n && !r.eof && r.err == 0, "success means the buffer was filled, with nothing read beyond it");
            oblige!("C19", (n < 1 || b[0] == w[0]) && (n < 2 || b[1] == w[1]) && (n < 3 || b[2] == w[2]) && (n < 4 || b[3] == w[3]), "the buffer holds the stream's next bytes, in order");
        }
        Err(e) => {
            if r.eof {
                oblige!("C19", e.kind() == ErrorKind::UnexpectedEof, "the end of the data is UnexpectedEof");
            } else {
                oblige!("C19", r.err != 0 && code_of(e.kind()) == r.err, "the reader's own error is returned");
            }
            oblige!("C19", (r.at as usize) < n, "no failure once the buffer is full");
        }
    }
    oblige!("C19", (n > 3 || b[3] == 0xEE) && (n > 2 || b[2] == 0xEE), "only the buffer is written");
    let res = (x.is_ok(), n, r.err, r.eof);
    forget(x);
    res
}

contracts! { TAB;
    c19_read_exact [6] {
        let (ok, n, err, eof) = exact(false, 3, 0);
        reach!(ok && n == 3, "success");
        reach!(err == 4 && n == 3, "error");
        reach!(eof, "end");
    }
    c19_interrupted [6] {
        let (ok, n, err, eof) = exact(false, 2, 2);
        reach!(ok && n == 2, "success");
        reach!(err == 4, "error");
        reach!(eof, "end");
    }
    c19_by_ref [6] {
        let (ok, n, err, eof) = exact(true, 2, 1);
        reach!(ok && n == 2, "success");
        reach!(err == 4, "error");
        reach!(eof, "end");
    }
    c19_bytes [6] {
        let mut r = sh(2, 2);
        let w = g().win.to_le_bytes();
        let mut i = 0;
        let mut stopped = false;
        {
            let mut it = io::Read::bytes(io::Read::by_ref(&mut r));
            while i < 3 && !stopped {
                let x = it.next();
                match &x {
                    Some(Ok(b)) => oblige!("C19", i < 2 && *b == w[i], "bytes come in order"),
                    _ => stopped = true,
                }
                match x {
                    Some(Err(e)) => {
                        g().fault = code_of(e.kind());
                        forget(e);
                    }
                    _ => {}
                }
                if !stopped { i += 1; }
            }
        }
        oblige!("C19", stopped, "the iterator ends with the data");
        oblige!("C19", r.at as usize == i, "no byte is lost or repeated");
        oblige!("C19", r.eof == (g().fault == 0), "the iterator ends exactly at the end of the data");
        oblige!("C19", g().fault == r.err, "errors are yielded as they are");
        oblige!("C19", !r.over, "nothing is read in between");
        reach!(i == 2 && r.eof, "all bytes");
        reach!(r.err != 0 && i == 1, "error");
        reach!(r.intr == 0, "interrupted");
    }
    /*native*/ c19_long [6] {
        let mut r = Long { at: 0, len: nd_u8() as usize * 7, err: 0, eof: false };
        let n = nd_u8() as usize * 5;
        let mut b = vec![0u8; n];
        let x = r.read_exact(&mut b);
        match &x {
            Ok(()) => oblige!("C19", r.at == n && (0..n).all(|i| b[i] == (i * 31) as u8), "the buffer holds the stream's next bytes"),
            Err(e) if r.eof => oblige!("C19", e.kind() == ErrorKind::UnexpectedEof && r.at < n, "the end of the data is UnexpectedEof"),
            Err(e) => oblige!("C19", r.err != 0 && code_of(e.kind()) == r.err && r.at < n, "the reader's own error is returned"),
        }
        let mut r = Long { at: 0, len: nd_u8() as usize * 7, err: 0, eof: false };
        let mut i = 0;
        let mut bytes = r.by_ref().bytes();
        while let Some(x) = bytes.next() {
            match x {
                Ok(b) => oblige!("C19", b == (i * 31) as u8, "bytes come in order"),
                Err(e) => { g().fault = code_of(e.kind()); break }
            }
            i += 1;
        }
        oblige!("C19", r.at == i && (r.err != 0 || r.eof && i == r.len), "no byte is lost or repeated");
    }
    /*native*/ c19_large [6] {
        // large buffers over a reader that delivers large and small pieces
        let l = crate::ghost::nd_long() as usize;
        let mut r = Long { at: 0, len: crate::ghost::nd_long() as usize, err: 0, eof: false };
        let mut b = vec![0u8; l];
        let x = r.read_exact(&mut b);
        match &x {
            Ok(()) => oblige!("C19", r.at == l && (0..l).all(|i| b[i] == (i * 31) as u8), "the buffer holds the stream's next bytes"),
            Err(e) if r.eof => oblige!("C19", e.kind() == ErrorKind::UnexpectedEof && r.at < l, "the end of the data is UnexpectedEof"),
            Err(e) => oblige!("C19", r.err != 0 && code_of(e.kind()) == r.err && r.at < l, "the reader's own error is returned"),
        }
    }
}
struct Long {
    at: usize,
    len: usize,
    err: u8,
    eof: bool,
}
impl Read for Long {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match nd_u8() % 16 {
            0..=3 => return Err(mk_io(2)),
            4 if nd_below(40) == 0 => {
                self.err = 4;
                return Err(mk_io(4));
            }
            _ => {}
        }
        let n = ((1 + nd_u8() as usize) << nd_below(9)).min(buf.len()).min(self.len - self.at);
        for (i, x) in buf[..n].iter_mut().enumerate() {
            *x = ((self.at + i) * 31) as u8;
        }
        self.at += n;
        if n == 0 {
            self.eof = true;
        }
        Ok(n)
    }
}
