//! CityHash128 v1.0.2 as used by ClickHouse, written from the published algorithm
//! (independent of the C++ copy in the repository).
const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
const K3: u64 = 0xc949c7defebfc2b1_u64; // 0xc949d5d3a3a8f1a1 is not used by 1.0.2

fn f64_(s: &[u8]) -> u64 { u64::from_le_bytes(s[..8].try_into().unwrap()) }
fn f32_(s: &[u8]) -> u64 { u32::from_le_bytes(s[..4].try_into().unwrap()) as u64 }
fn rot(v: u64, s: u32) -> u64 { if s == 0 { v } else { (v >> s) | (v << (64 - s)) } }
fn rot1(v: u64, s: u32) -> u64 { (v >> s) | (v << (64 - s)) }
fn shift_mix(v: u64) -> u64 { v ^ (v >> 47) }
fn hash128to64(lo: u64, hi: u64) -> u64 {
    const MUL: u64 = 0x9ddfea08eb382d69;
    let mut a = (lo ^ hi).wrapping_mul(MUL);
    a ^= a >> 47;
    let mut b = (hi ^ a).wrapping_mul(MUL);
    b ^= b >> 47;
    b.wrapping_mul(MUL)
}
fn len16(u: u64, v: u64) -> u64 { hash128to64(u, v) }
fn len0to16(s: &[u8]) -> u64 {
    let n = s.len();
    if n > 8 {
        let a = f64_(s);
        let b = f64_(&s[n - 8..]);
        return len16(a, rot1(b.wrapping_add(n as u64), n as u32)) ^ b;
    }
    if n >= 4 {
        let a = f32_(s);
        return len16((n as u64).wrapping_add(a << 3), f32_(&s[n - 4..]));
    }
    if n > 0 {
        let (a, b, c) = (s[0] as u32, s[n >> 1] as u32, s[n - 1] as u32);
        let y = a.wrapping_add(b << 8);
        let z = (n as u32).wrapping_add(c << 2);
        return shift_mix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(k3())).wrapping_mul(K2);
    }
    K2
}
fn k3() -> u64 { let _ = K3; 0xc949d7c7509e6557 }
fn weak32(w: u64, x: u64, y: u64, z: u64, mut a: u64, mut b: u64) -> (u64, u64) {
    a = a.wrapping_add(w);
    b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
fn weak(s: &[u8], a: u64, b: u64) -> (u64, u64) { weak32(f64_(s), f64_(&s[8..]), f64_(&s[16..]), f64_(&s[24..]), a, b) }
fn murmur(s: &[u8], seed: (u64, u64)) -> (u64, u64) {
    let (mut a, mut b) = seed;
    let (mut c, mut d);
    let n = s.len();
    let mut l = n as i64 - 16;
    if l <= 0 {
        a = shift_mix(a.wrapping_mul(K1)).wrapping_mul(K1);
        c = b.wrapping_mul(K1).wrapping_add(len0to16(s));
        d = shift_mix(a.wrapping_add(if n >= 8 { f64_(s) } else { c }));
    } else {
        c = len16(f64_(&s[n - 8..]).wrapping_add(K1), a);
        d = len16(b.wrapping_add(n as u64), c.wrapping_add(f64_(&s[n - 16..])));
        a = a.wrapping_add(d);
        let mut p = 0;
        loop {
            a ^= shift_mix(f64_(&s[p..]).wrapping_mul(K1)).wrapping_mul(K1);
            a = a.wrapping_mul(K1);
            b ^= a;
            c ^= shift_mix(f64_(&s[p + 8..]).wrapping_mul(K1)).wrapping_mul(K1);
            c = c.wrapping_mul(K1);
            d ^= c;
            p += 16;
            l -= 16;
            if l <= 0 { break; }
        }
    }
    a = len16(a, c);
    b = len16(d, b);
    (a ^ b, len16(b, a))
}
fn with_seed(s: &[u8], seed: (u64, u64)) -> (u64, u64) {
    let mut len = s.len();
    if len < 128 { return murmur(s, seed); }
    let (mut x, mut y) = seed;
    let mut z = (len as u64).wrapping_mul(K1);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    v.0 = rot(y ^ K1, 49).wrapping_mul(K1).wrapping_add(f64_(s));
    v.1 = rot(v.0, 42).wrapping_mul(K1).wrapping_add(f64_(&s[8..]));
    w.0 = rot(y.wrapping_add(z), 35).wrapping_mul(K1).wrapping_add(x);
    w.1 = rot(x.wrapping_add(f64_(&s[88..])), 53).wrapping_mul(K1);
    let mut p = 0;
    loop {
        for _ in 0..2 {
            x = rot(x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(&s[p + 16..])), 37).wrapping_mul(K1);
            y = rot(y.wrapping_add(v.1).wrapping_add(f64_(&s[p + 48..])), 42).wrapping_mul(K1);
            x ^= w.1;
            y ^= v.0;
            z = rot(z ^ w.0, 33);
            v = weak(&s[p..], v.1.wrapping_mul(K1), x.wrapping_add(w.0));
            w = weak(&s[p + 32..], z.wrapping_add(w.1), y);
            std::mem::swap(&mut z, &mut x);
            p += 64;
        }
        len -= 128;
        if len < 128 { break; }
    }
    y = y.wrapping_add(rot(w.0, 37).wrapping_mul(K0)).wrapping_add(z);
    x = x.wrapping_add(rot(v.0.wrapping_add(z), 49).wrapping_mul(K0));
    let mut tail = 0;
    while tail < len {
        tail += 32;
        y = rot(y.wrapping_sub(x), 42).wrapping_mul(K0).wrapping_add(v.1);
        let q = p + len - tail; // may reach back into the processed part
        w.0 = w.0.wrapping_add(f64_(&s[q + 16..]));
        x = rot(x, 49).wrapping_mul(K0).wrapping_add(w.0);
        w.0 = w.0.wrapping_add(v.0);
        v = weak(&s[q..], v.0, v.1);
    }
    x = len16(x, v.0);
    y = len16(y, w.0);
    (len16(x.wrapping_add(v.1), w.1).wrapping_add(y), len16(x.wrapping_add(w.1), y.wrapping_add(v.1)))
}
pub fn city128(s: &[u8]) -> (u64, u64) {
    let n = s.len();
    if n >= 16 {
        with_seed(&s[16..], (f64_(s) ^ k3(), f64_(&s[8..])))
    } else if n >= 8 {
        with_seed(&[], (f64_(s) ^ (n as u64).wrapping_mul(K0), f64_(&s[n - 8..]) ^ K1))
    } else {
        with_seed(s, (K0, K1))
    }
}
