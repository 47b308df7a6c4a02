//! An independent reading of instruction bytes: which operation, if any, they encode.
use crate::ops::*;
use crate::rt::{Cb, LibOp};

struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn int(&mut self, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for (i, b) in self.take(n)?.iter().enumerate() {
            v |= (*b as u128) << (8 * i);
        }
        Some(v)
    }
    fn u64(&mut self) -> Option<u64> {
        self.int(8).map(|x| x as u64)
    }
    /// A one-byte choice among `n`.
    fn pick(&mut self, n: u128) -> Option<u8> {
        let v = self.int(1)?;
        (v < n).then_some(v as u8)
    }
}

pub fn decode(data: &[u8]) -> Option<LibOp> {
    let mut r = R(data);
    let op = match r.int(1)? {
        0 => LibOp::Create {
            min: r.u64()?,
            tick: r.u64()?,
        },
        1 => {
            let (base, quote, limit) = (r.u64()?, r.u64()?, r.u64()?);
            let side = if r.pick(2)? == 0 { Side::Bid } else { Side::Ask };
            let ml = r.u64()?;
            let cb = Cb::from(r.take(32)?);
            let (post_only, post_allowed) = (r.pick(2)? == 1, r.pick(2)? == 1);
            let stb = match r.pick(3)? {
                0 => Stb::Decrement,
                1 => Stb::Cancel,
                _ => Stb::Abort,
            };
            LibOp::New {
                p: NewP {
                    side,
                    limit,
                    base,
                    quote,
                    ml,
                    user: 0,
                    nonce: 0,
                    post_only,
                    post_allowed,
                    stb,
                },
                cb,
            }
        }
        2 => LibOp::Consume(r.u64()?),
        3 => LibOp::Cancel(r.int(16)?),
        // closing has no parameters; what follows is not looked at
        4 => return Some(LibOp::Close),
        5 => {
            let n = r.int(4)?;
            let mut ids = vec![];
            for _ in 0..n {
                ids.push(r.int(16)?);
            }
            LibOp::Mass(ids)
        }
        _ => return None,
    };
    r.0.is_empty().then_some(op)
}
