//! C18: the no_std Cursor against std::io::Cursor, operation by operation. Both start from the same
//! arbitrary state (any data, any position) and one arbitrary operation has to take them to the
//! same state with the same result; sequences of operations follow by induction.
use crate::shim::*;
use crate::{oblige, reach};
use binread::io as nio;
use binread::io::{Read as _, Seek as _};
use std::io as sio;
use std::io::{Read as _, Seek as _};

const MAX: usize = 4;
struct St {
    d: [u8; MAX],
    n: usize,
    pos: u64,
}
fn state() -> St {
    let n = nd_below(MAX as u8 + 1) as usize;
    let pos = if nd_bool() { nd_u64() } else { nd_below(7) as u64 };
    St { d: nd_u32().to_le_bytes(), n, pos }
}
macro_rules! both { ($s:ident, $a:ident, $b:ident) => {
    let $s = state();
    let mut $a = nio::Cursor::new(&$s.d[..$s.n]);
    let mut $b = sio::Cursor::new(&$s.d[..$s.n]);
    oblige!("C18", $a.position() == 0 && $b.position() == 0, "a new cursor is at the start");
    $a.set_position($s.pos);
    $b.set_position($s.pos);
    oblige!("C18", $a.position() == $s.pos, "set_position sets the position");
} }
fn kinds(a: nio::ErrorKind, b: sio::ErrorKind) -> bool {
    match b {
        sio::ErrorKind::InvalidInput => a == nio::ErrorKind::InvalidInput,
        sio::ErrorKind::UnexpectedEof => a == nio::ErrorKind::UnexpectedEof,
        _ => false,
    }
}
fn same<T: PartialEq>(a: &nio::Result<T>, b: &sio::Result<T>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => kinds(x.kind(), y.kind()),
        _ => false,
    }
}

contracts! { TAB;
    c18_read [8] {
        both!(s, a, b);
        let l = nd_below(6) as usize;
        let init = nd_u64().to_le_bytes();
        let (mut x, mut y) = (init, init);
        let r = nio::Read::read(&mut a, &mut x[..l]);
        let q = sio::Read::read(&mut b, &mut y[..l]);
        oblige!("C18", same(&r, &q), "read returns the same amount");
        oblige!("C18", u64::from_le_bytes(x) == u64::from_le_bytes(y), "read delivers the same bytes and leaves the rest of the buffer alone");
        oblige!("C18", a.position() == b.position(), "read leaves the same position");
        reach!(matches!(&r, Ok(n) if *n == 4 && l == 5), "short read");
        reach!(s.pos > s.n as u64, "beyond the end");
        core::mem::forget((r, q));
    }
    c18_read_exact [8] {
        both!(s, a, b);
        let l = nd_below(6) as usize;
        let (mut x, mut y) = ([0u8; 8], [0u8; 8]);
        let r = nio::Read::read_exact(&mut a, &mut x[..l]);
        let q = sio::Read::read_exact(&mut b, &mut y[..l]);
        oblige!("C18", same(&r, &q), "read_exact succeeds or fails alike");
        if r.is_ok() {
            oblige!("C18", u64::from_le_bytes(x) == u64::from_le_bytes(y), "read_exact delivers the same bytes");
            oblige!("C18", a.position() == b.position(), "read_exact leaves the same position");
            reach!(l == 4, "success");
            reach!(l == 0 && s.pos > s.n as u64, "nothing requested beyond the end");
        }
        reach!(r.is_err() && s.n == 4, "failure");
        core::mem::forget((r, q));
    }
    c18_seek [8] {
        both!(s, a, b);
        let (k, v) = (nd_below(3), nd_u64());
        let (r, q) = match k {
            0 => (a.seek(nio::SeekFrom::Start(v)), b.seek(sio::SeekFrom::Start(v))),
            1 => (a.seek(nio::SeekFrom::End(v as i64)), b.seek(sio::SeekFrom::End(v as i64))),
            _ => (a.seek(nio::SeekFrom::Current(v as i64)), b.seek(sio::SeekFrom::Current(v as i64))),
        };
        oblige!("C18", same(&r, &q), "seek returns the same position or fails alike");
        oblige!("C18", a.position() == b.position(), "seek leaves the same position");
        reach!(r.is_err() && k == 1, "before the start");
        reach!(r.is_err() && k == 2 && (v as i64) > 0, "overflow");
        reach!(r.is_ok() && k == 2 && (v as i64) < 0, "backwards");
        core::mem::forget((r, q));
    }
    c18_position [8] {
        both!(s, a, b);
        let r = nio::Seek::stream_position(&mut a);
        let q = sio::Seek::stream_position(&mut b);
        oblige!("C18", same(&r, &q) && a.position() == s.pos, "stream_position returns the position and keeps it");
        let r2 = nio::StreamPosition::stream_pos(&mut a);
        oblige!("C18", matches!(&r2, Ok(p) if *p == s.pos) && a.position() == s.pos, "stream_pos returns the position and keeps it");
        oblige!("C18", a.get_ref().len() == s.n && a.get_mut().len() == s.n, "the data is accessible");
        let c = a.clone();
        oblige!("C18", c.position() == s.pos, "a clone has the same position");
        oblige!("C18", a.into_inner().len() == s.n, "the data comes back out");
        reach!(s.pos > s.n as u64, "beyond the end");
        core::mem::forget((r, q, r2));
    }
    c18_by_ref [8] {
        // through &mut, as the derived code uses it
        both!(s, a, b);
        let l = nd_below(4) as usize;
        let (mut x, mut y) = ([0u8; 4], [0u8; 4]);
        let d = nd_i64();
        let r = { let m = &mut &mut a; nio::Seek::seek(m, nio::SeekFrom::Current(d)) };
        let q = { let m = &mut &mut b; sio::Seek::seek(m, sio::SeekFrom::Current(d)) };
        oblige!("C18", same(&r, &q) && a.position() == b.position(), "seek through a reference");
        let r = { let m = &mut &mut a; nio::Read::read(m, &mut x[..l]) };
        let q = { let m = &mut &mut b; sio::Read::read(m, &mut y[..l]) };
        oblige!("C18", same(&r, &q) && u32::from_le_bytes(x) == u32::from_le_bytes(y) && a.position() == b.position(), "read through a reference");
        reach!(matches!(&r, Ok(3)), "read");
        core::mem::forget((r, q));
    }
    /*native*/ c18_sequence [8] {
        let n = nd_u8() as usize;
        let d: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
        let mut a = nio::Cursor::new(d.clone());
        let mut b = sio::Cursor::new(d);
        for _ in 0..nd_below(20) {
            let v = nd_i64();
            match nd_below(6) {
                0 => { let t = v as u64; oblige!("C18", same(&a.seek(nio::SeekFrom::Start(t)), &b.seek(sio::SeekFrom::Start(t))), "seek from start"); }
                1 => { oblige!("C18", same(&a.seek(nio::SeekFrom::End(v)), &b.seek(sio::SeekFrom::End(v))), "seek from end"); }
                2 => { oblige!("C18", same(&a.seek(nio::SeekFrom::Current(v)), &b.seek(sio::SeekFrom::Current(v))), "seek from current"); }
                3 => { a.set_position(v as u64 & 0x1FF); b.set_position(v as u64 & 0x1FF); }
                4 => {
                    let l = v as usize & 0x1FF;
                    let (mut x, mut y) = (vec![1u8; l], vec![1u8; l]);
                    oblige!("C18", same(&nio::Read::read(&mut a, &mut x), &sio::Read::read(&mut b, &mut y)) && x == y, "read");
                }
                _ => {
                    let l = v as usize & 0x3F;
                    let (mut x, mut y) = (vec![1u8; l], vec![1u8; l]);
                    let r = nio::Read::read_exact(&mut a, &mut x);
                    oblige!("C18", same(&r, &sio::Read::read_exact(&mut b, &mut y)), "read_exact");
                    if r.is_ok() { oblige!("C18", x == y, "read_exact"); } else { let p = b.position(); a.set_position(p); }
                }
            }
            oblige!("C18", a.position() == b.position(), "the positions agree");
        }
    }
    /*native*/ c18_large [8] {
        let n = crate::ghost::nd_long() as usize;
        let d: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        let mut a = nio::Cursor::new(&d[..]);
        let mut b = sio::Cursor::new(&d[..]);
        let p = nd_u64() % (n as u64 + 3);
        a.set_position(p);
        b.set_position(p);
        for _ in 0..nd_below(4) {
            let l = crate::ghost::nd_long() as usize;
            let (mut x, mut y) = (vec![1u8; l], vec![1u8; l]);
            if nd_bool() {
                oblige!("C18", same(&nio::Read::read(&mut a, &mut x), &sio::Read::read(&mut b, &mut y)) && x == y, "read");
            } else {
                let r = nio::Read::read_exact(&mut a, &mut x);
                oblige!("C18", same(&r, &sio::Read::read_exact(&mut b, &mut y)), "read_exact");
                if r.is_ok() { oblige!("C18", x == y, "read_exact"); } else { let p = b.position(); a.set_position(p); }
            }
            oblige!("C18", a.position() == b.position(), "the positions agree");
        }
    }
}
