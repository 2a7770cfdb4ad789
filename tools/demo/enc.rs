//! ABI encoders / decoders (top and nested encodings used by the contracts' public interface).
use crate::chain::Addr;
use num_bigint::{BigInt, BigUint, Sign};

pub fn u(v: u64) -> Vec<u8> {
    if v == 0 {
        vec![]
    } else {
        let b = v.to_be_bytes();
        let i = b.iter().position(|x| *x != 0).unwrap();
        b[i..].to_vec()
    }
}
pub fn big(v: &BigUint) -> Vec<u8> {
    if *v == BigUint::default() {
        vec![]
    } else {
        v.to_bytes_be()
    }
}
pub fn ibig(v: &BigInt) -> Vec<u8> {
    big(&v.to_biguint().expect("non-negative"))
}
pub fn b(v: bool) -> Vec<u8> {
    if v {
        vec![1]
    } else {
        vec![]
    }
}
pub fn s(v: &str) -> Vec<u8> {
    v.as_bytes().to_vec()
}
pub fn a(v: &Addr) -> Vec<u8> {
    v.as_bytes().to_vec()
}
pub fn nested(v: &[u8]) -> Vec<u8> {
    let mut o = (v.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(v);
    o
}
pub fn payment(tok: &str, nonce: u64, amt: &BigUint) -> Vec<u8> {
    let mut o = nested(tok.as_bytes());
    o.extend_from_slice(&nonce.to_be_bytes());
    o.extend(nested(&big(amt)));
    o
}
/// ManagedArgBuffer argument (nested list of buffers)
pub fn argbuf(args: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for x in args {
        o.extend(nested(x));
    }
    o
}

pub fn to_big(v: &[u8]) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, v)
}
pub fn to_u64(v: &[u8]) -> u64 {
    let mut r = 0u64;
    for x in v {
        r = (r << 8) | *x as u64;
    }
    r
}

/// Cursor over nested-encoded bytes.
pub struct Rd<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub bad: bool,
}
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Rd { d, p: 0, bad: false }
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        if self.p + n > self.d.len() {
            self.bad = true;
            self.p = self.d.len();
            return &[];
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1).first().copied().unwrap_or(0)
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn u32(&mut self) -> u32 {
        to_u64(self.take(4)) as u32
    }
    pub fn u64(&mut self) -> u64 {
        to_u64(self.take(8))
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    pub fn str(&mut self) -> String {
        String::from_utf8_lossy(&self.bytes()).to_string()
    }
    pub fn big(&mut self) -> BigInt {
        to_big(&self.bytes())
    }
    /// ManagedDecimal<NumDecimals>: raw units then u32 decimals
    pub fn dec(&mut self) -> (BigInt, u32) {
        let v = self.big();
        let d = self.u32();
        (v, d)
    }
    pub fn addr(&mut self) -> Vec<u8> {
        self.take(32).to_vec()
    }
    pub fn done(&self) -> bool {
        self.p >= self.d.len()
    }
}

/// Top-level ManagedDecimal<NumDecimals>: is encoded like nested. Returns raw units.
pub fn dec_top(v: &[u8]) -> BigInt {
    if v.is_empty() {
        return BigInt::default();
    }
    Rd::new(v).dec().0
}
pub fn dec_top2(v: &[u8]) -> (BigInt, u32) {
    if v.is_empty() {
        return (BigInt::default(), 0);
    }
    Rd::new(v).dec()
}
