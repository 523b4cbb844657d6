use crate::api::*;
use crate::spec;
use dumb_crypto::aes::AESError;
use dumb_crypto::aes_cbc::{Cipher, Decipher, DecipherError};

const SIZES: [usize; 3] = [16, 24, 32];

fn cipher(key: &[u8], iv: [u8; 16]) -> Cipher {
    let mut c = Cipher::new(iv);
    check("init", c.init(key).is_ok());
    c
}
fn decipher(key: &[u8], iv: [u8; 16]) -> Decipher {
    let mut c = Decipher::new(iv);
    check("init", c.init(key).is_ok());
    c
}
fn enc(key: &[u8], iv: [u8; 16], parts: &[&[u8]]) -> Vec<u8> {
    let mut c = cipher(key, iv);
    let mut o = vec![];
    for p in parts {
        o.extend_from_slice(&c.write(p).unwrap());
    }
    o.extend_from_slice(&c.flush().unwrap());
    o
}
fn dec(key: &[u8], iv: [u8; 16], parts: &[&[u8]]) -> Result<Vec<u8>, DecipherError> {
    let mut c = decipher(key, iv);
    let mut o = vec![];
    for p in parts {
        o.extend_from_slice(&c.write(p)?);
    }
    o.extend_from_slice(&c.flush()?);
    Ok(o)
}
// error kinds whose type cannot be named outside the crate, recognised by text
fn unfinished(e: &DecipherError) -> bool {
    matches!(e, DecipherError::PKCS7(_)) && *e == reference_unfinished()
}
fn reference_unfinished() -> DecipherError {
    // nothing was ever written: no final block
    match Decipher::new([0; 16]).flush() {
        Err(e) => e,
        Ok(_) => DecipherError::AES(AESError::NotInitialized),
    }
}
fn bad_padding(e: &DecipherError) -> bool {
    matches!(e, DecipherError::PKCS7(_)) && !unfinished(e)
}

pub fn h_cbc_encrypt() {
    let key = any(pick(&SIZES));
    let n = choose(0, if thorough() { 100 } else { 50 });
    let iv = any16();
    let m = any(n);
    eq("ciphertext", &enc(&key, iv, &[&m]), &spec::cbc_encrypt(&key, &iv, &m));
}

/// Two writes: the result does not depend on the split, and each write
/// returns exactly the blocks completed so far.
pub fn h_cbc_enc_split() {
    let n = choose(0, if thorough() { 70 } else { 50 });
    let key = any(16);
    let iv = any16();
    let m = any(n);
    let want = spec::cbc_encrypt(&key, &iv, &m);
    for a in 0..=n {
        let mut c = cipher(&key, iv);
        let o1 = c.write(&m[..a]).unwrap();
        let o2 = c.write(&m[a..]).unwrap();
        let o3 = c.flush().unwrap();
        check("whole blocks", o1.len() == a / 16 * 16 && o1.len() + o2.len() == n / 16 * 16 && o3.len() == 16);
        eq("split", &[o1, o2, o3].concat(), &want);
    }
}

pub fn h_cbc_enc_three() {
    let n = pick(if thorough() { &[16, 31, 32, 33, 47, 48, 49, 64] } else { &[32, 33] });
    let a = choose(0, n);
    let key = any(pick(if thorough() { &[16, 32] } else { &[16] }));
    let iv = any16();
    let m = any(n);
    let want = spec::cbc_encrypt(&key, &iv, &m);
    for b in a..=n {
        eq("three", &enc(&key, iv, &[&m[..a], &m[a..b], &m[b..]]), &want);
    }
    let k = a.max(1);
    let parts: Vec<&[u8]> = m.chunks(k).collect();
    eq("pieces", &enc(&key, iv, &parts), &want);
}

pub fn h_cbc_roundtrip() {
    let key = any(pick(&SIZES));
    let n = choose(0, if thorough() { 70 } else { 50 });
    let iv = any16();
    let m = any(n);
    let c = enc(&key, iv, &[&m]);
    match dec(&key, iv, &[&c]) {
        Ok(x) => eq("cleartext", &x, &m),
        Err(_) => check("accepted", false),
    }
}

/// Ciphertext in two pieces, message content arbitrary.
pub fn h_cbc_dec_split() {
    let n = choose(0, if thorough() { 64 } else { 33 });
    let key = any(16);
    let iv = any16();
    let m = any(n);
    let c = spec::cbc_encrypt(&key, &iv, &m);
    for a in 0..=c.len() {
        match dec(&key, iv, &[&c[..a], &c[a..]]) {
            Ok(x) => eq("cleartext", &x, &m),
            Err(_) => check("accepted", false),
        }
    }
}

pub fn h_cbc_dec_three() {
    let n = pick(if thorough() { &[0, 15, 16, 31, 32, 47, 48] } else { &[16, 31] });
    let key = any(pick(if thorough() { &[16, 24, 32] } else { &[16] }));
    let len = n / 16 * 16 + 16;
    let a = choose(0, len);
    let iv = any16();
    let m = any(n);
    let c = spec::cbc_encrypt(&key, &iv, &m);
    let mut b = a;
    while b <= len {
        match dec(&key, iv, &[&c[..a], &c[a..b], &c[b..]]) {
            Ok(x) => eq("cleartext", &x, &m),
            Err(_) => check("accepted", false),
        }
        b += 1;
    }
    let parts: Vec<&[u8]> = c.chunks(a.max(1)).collect();
    match dec(&key, iv, &parts) {
        Ok(x) => eq("cleartext", &x, &m),
        Err(_) => check("accepted", false),
    }
}

/// Writing never releases the last complete block: after any prefix of any
/// ciphertext, what came out is a prefix of the raw decryption that stops
/// short of the last complete block.
pub fn h_cbc_hold() {
    let len = choose(0, if thorough() { 80 } else { 50 });
    let key = any(16);
    let iv = any16();
    let m = any(len / 16 * 16);
    let mut c = spec::cbc_raw(&key, &iv, &m);
    c.extend_from_slice(&any(len % 16));
    for a in 0..=len {
        let mut d = decipher(&key, iv);
        let mut o = d.write(&c[..a]).unwrap();
        check("holds back", o.len() == (a / 16).saturating_sub(1) * 16);
        o.extend_from_slice(&d.write(&c[a..]).unwrap());
        check("holds back", o.len() == (len / 16).saturating_sub(1) * 16);
        eq("prefix", &o, &m[..o.len()]);
    }
}

/// Any whole-block ciphertext: accepted exactly when the decrypted final
/// block ends in a valid padding; otherwise refused as bad padding.
pub fn h_unpad() {
    let blocks = choose(0, if thorough() { 4 } else { 2 });
    let key = any(pick(&SIZES));
    let iv = any16();
    let p = any(16 * blocks);
    let c = spec::cbc_raw(&key, &iv, &p);
    let n = p.len();
    let r = dec(&key, iv, &[&c]);
    if n == 0 {
        check("no block", match r {
            Err(e) => unfinished(&e),
            Ok(_) => false,
        });
        return;
    }
    let k = p[n - 1];
    let mut good = k >= 1 && k <= 16;
    let mut i = 1;
    while i <= 16 {
        // byte i from the end must be k when it lies inside the padding
        good &= (i > k) | (p[n - i as usize] == k);
        i += 1;
    }
    match r {
        Ok(x) => {
            check("padding valid", good);
            check("length", x.len() == n - k as usize);
            eq("content", &x, &p[..x.len()]);
            cover("accepted");
        }
        Err(e) => {
            check("padding invalid", !good);
            check("kind", bad_padding(&e));
            cover("refused");
        }
    }
}

/// A ciphertext that is not a whole number of blocks is refused as unfinished,
/// however it is cut and whatever the complete blocks decrypt to.
pub fn h_unpad_partial() {
    let blocks = choose(0, 2);
    let extra = choose(1, 15);
    let key = any(16);
    let iv = any16();
    let p = any(16 * blocks);
    let mut c = spec::cbc_raw(&key, &iv, &p);
    c.extend_from_slice(&any(extra));
    let n = c.len();
    let cuts: Vec<usize> = if thorough() { (0..=n).collect() } else { vec![0, extra, n / 2, 16 * blocks, n] };
    for a in cuts {
        match dec(&key, iv, &[&c[..a], &c[a..]]) {
            Ok(_) => check("refused", false),
            Err(e) => {
                check("kind", unfinished(&e));
                cover("refused");
            }
        }
    }
}

/// Without a key nothing is encrypted or decrypted.
pub fn h_cbc_uninit() {
    let n = choose(0, 40);
    let klen = choose(0, 4);
    let iv = any16();
    let m = any(n);
    let bad = any([0, 1, 15, 20, 33][klen]);
    let tried = choose(0, 1) == 1;
    let mut c = Cipher::new(iv);
    if tried {
        check("key refused", matches!(c.init(&bad), Err(AESError::InvalidKeySize)));
    }
    match c.write(&m) {
        Ok(o) => check("nothing out", o.is_empty() && n < 16),
        Err(e) => check("not initialised", e == AESError::NotInitialized && n >= 16),
    }
    check("not initialised", matches!(c.flush(), Err(AESError::NotInitialized)));
    let mut d = Decipher::new(iv);
    if tried {
        check("key refused", matches!(d.init(&bad), Err(AESError::InvalidKeySize)));
    }
    match d.write(&m) {
        Ok(o) => check("nothing out", o.is_empty() && n < 16),
        Err(e) => check("not initialised", e == DecipherError::AES(AESError::NotInitialized) && n >= 16),
    }
    check("no cleartext", d.flush().is_err());
}

fn long_size() -> usize {
    let l: &[usize] = if thorough() {
        &[127, 128, 255, 256, 257, 511, 512, 1008, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 4112, 8192, 16385]
    } else {
        &[127, 255, 256, 511, 512, 1008, 1024, 1025, 2048, 4112]
    };
    pick(l)
}

/// Long messages: one write, and a short first or last piece.
pub fn h_cbc_long() {
    let n = long_size();
    let key = any(16);
    let iv = any16();
    let m = any(n);
    let want = spec::cbc_encrypt(&key, &iv, &m);
    eq("ciphertext", &enc(&key, iv, &[&m]), &want);
    let a = 1 + n % 16;
    eq("short first", &enc(&key, iv, &[&m[..a], &m[a..]]), &want);
    eq("short last", &enc(&key, iv, &[&m[..n - a], &m[n - a..]]), &want);
}

pub fn h_cbc_dec_long() {
    let n = long_size();
    let key = any(16);
    let iv = any16();
    let m = any(n);
    let c = spec::cbc_encrypt(&key, &iv, &m);
    let a = 1 + n % 16;
    let l = c.len();
    for parts in [vec![&c[..]], vec![&c[..a], &c[a..]], vec![&c[..l - a], &c[l - a..]]] {
        match dec(&key, iv, &parts) {
            Ok(x) => eq("cleartext", &x, &m),
            Err(_) => check("accepted", false),
        }
    }
}

/// One regular step of a history: a block's worth of message in the given
/// pieces, starting from `carry` bytes already held.
fn feed(c: &mut Cipher, m: &[u8], piece: usize) -> Vec<u8> {
    let mut o = vec![];
    for p in m.chunks(piece) {
        o.extend_from_slice(&c.write(p).unwrap_or_default());
    }
    o
}
fn link(key: &[u8], prev: &[u8; 16], p: &[u8]) -> [u8; 16] {
    let mut o = [0; 16];
    o.copy_from_slice(&spec::cbc_raw(key, prev, p));
    o
}
fn refs(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// After any number of blocks below 2^58, fed in pieces of 16, 8 or 1 bytes
/// from an aligned or a shifted start: one more block and any tail come out
/// as CBC chained on the last ciphertext block.  By induction over the blocks.
pub fn h_cbc_leap() {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = [16, 30, 58][choose(0, 2)];
    let (carry, piece) = [(0, 16), (0, 1), (5, 16), (15, 8)][choose(0, 3)];
    let key = [0x3cu8, 0x51, 7, 0x98, 0xaa, 0, 1, 0xfe, 0x10, 0x77, 0x2b, 0x64, 0xd1, 0x0d, 0x8e, 0xb9];
    let mut last = any16();
    let mut c = cipher(&key, last);
    let mut held = any(carry);
    c.write(&held).unwrap_or_default();
    for _ in 0..5 {
        let b = any(16);
        feed(&mut c, &b, piece);
        let all = [&held[..], &b[..]].concat();
        let prev = last;
        last = link(&key, &prev, &all[..16]);
        held = all[16..].to_vec();
        snap(&c, &refs(&[&last, &prev, &all, &b]));
    }
    let m = any_bits(bits);
    let again = |c: &mut Cipher, m: u64| {
        let (prev, b) = (any16(), any(16));
        let before = any(carry);
        let all = [&before[..], &b[..]].concat();
        let last = link(&key, &prev, &all[..16]);
        (leap(c, &refs(&[&last, &prev, &all, &b]), m, width), last, all[16..].to_vec())
    };
    let (ok, l0, h0) = again(&mut c, m);
    if !ok {
        return;
    }
    let b = any(16);
    quiet(true);
    let out = feed(&mut c, &b, piece);
    quiet(false);
    let all = [&h0[..], &b[..]].concat();
    let last = link(&key, &l0, &all[..16]);
    if !leap_closed(&c, &refs(&[&last, &l0, &all, &b]), m + 1) {
        return;
    }
    cover("regular over blocks");
    eq("next block", &out, &last);
    for t in [0, 1, 15 - carry, 16, 17, 33] {
        let (ok, l0, h0) = again(&mut c, m);
        if ok {
            let tail = any(t);
            let mut o = c.write(&tail).unwrap_or_default();
            o.extend_from_slice(&c.flush().unwrap_or_default());
            eq("tail", &o, &spec::cbc_encrypt(&key, &l0, &[h0, tail].concat()));
        }
    }
}

/// The same for a Decipher.
pub fn h_cbc_dec_leap() {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = [16, 30, 58][choose(0, 2)];
    let (carry, piece) = [(0, 16), (0, 1), (5, 16), (15, 8)][choose(0, 3)];
    let key = [0x3cu8, 0x51, 7, 0x98, 0xaa, 0, 1, 0xfe, 0x10, 0x77, 0x2b, 0x64, 0xd1, 0x0d, 0x8e, 0xb9];
    // ciphertext is made from cleartext p, so that what comes out is p
    let mut prev = any16();
    let mut d = decipher(&key, prev);
    let mut p = any16();
    let mut ct = link(&key, &prev, &p);
    d.write(&ct[..carry]).unwrap_or_default();
    for _ in 0..5 {
        let (p1, ct1) = {
            let q = any16();
            (q, link(&key, &ct, &q))
        };
        let step = [&ct[carry..], &ct1[..carry]].concat();
        for x in step.chunks(piece) {
            d.write(x).unwrap_or_default();
        }
        snap(&d, &refs(&[&ct, &prev, &p, &ct1, &step]));
        prev = ct;
        ct = ct1;
        p = p1;
    }
    let m = any_bits(bits);
    let again = |d: &mut Decipher, m: u64| {
        // ct is the last whole ciphertext block taken, of cleartext p; ct1 the next
        let (prev, p, p1) = (any16(), any16(), any16());
        let ct = link(&key, &prev, &p);
        let ct1 = link(&key, &ct, &p1);
        let step = [&ct[carry..], &ct1[..carry]].concat();
        (leap(d, &refs(&[&ct, &prev, &p, &ct1, &step]), m, width), p, ct, p1, ct1)
    };
    let (ok, p, ct, p1, ct1) = again(&mut d, m);
    if !ok {
        return;
    }
    let p2 = any16();
    let ct2 = link(&key, &ct1, &p2);
    let step = [&ct1[carry..], &ct2[..carry]].concat();
    quiet(true);
    let mut out = vec![];
    for x in step.chunks(piece) {
        out.extend_from_slice(&d.write(x).unwrap_or_default());
    }
    quiet(false);
    if !leap_closed(&d, &refs(&[&ct1, &ct, &p1, &ct2, &step]), m + 1) {
        return;
    }
    cover("regular over blocks");
    eq("next block", &out, &p);
    for t in [0, 1, 15, 16] {
        let (ok, p, _, p1, ct1) = again(&mut d, m);
        if ok {
            let tail = any(t);
            let rest = [&ct1[carry..], &spec::cbc_encrypt(&key, &ct1, &tail)[..]].concat();
            match d.write(&rest) {
                Ok(mut o) => match d.flush() {
                    Ok(e) => {
                        o.extend_from_slice(&e);
                        eq("tail", &o, &[&p[..], &p1[..], &tail[..]].concat());
                    }
                    Err(_) => check("accepted", false),
                },
                Err(_) => check("written", false),
            }
        }
    }
}

fn chain(key: &[u8], iv: &[u8; 16], m: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let c = spec::cbc_encrypt(key, iv, m);
    let mut l = [0; 16];
    l.copy_from_slice(&c[c.len() - 16..]);
    (c, l)
}

/// Three messages one after another through one Cipher and one Decipher, with
/// or without a new key in between: each is CBC chained on the last
/// ciphertext block before it, and each comes back.
pub fn h_cbc_stream() {
    let lens: &[usize] = if thorough() { &[0, 1, 7, 15, 16, 17, 31, 32, 33] } else { &[0, 1, 15, 16, 17, 32] };
    let (a, b) = (pick(lens), pick(lens));
    let (k1, k2) = [(16, 0), (16, 32), (24, 16), (32, 16)][choose(0, 3)];
    let key1 = any(k1);
    let key2 = if k2 == 0 { key1.clone() } else { any(k2) };
    let iv = any16();
    let (m1, m2, m3) = (any(a), any(b), any(3));
    let (w1, l1) = chain(&key1, &iv, &m1);
    let (w2, l2) = chain(&key2, &l1, &m2);
    let (w3, _) = chain(&key2, &l2, &m3);

    let mut c = cipher(&key1, iv);
    let mut o = c.write(&m1).unwrap();
    o.extend_from_slice(&c.flush().unwrap());
    eq("first message", &o, &w1);
    if k2 != 0 {
        check("new key", c.init(&key2).is_ok());
    }
    let cut = b / 2;
    o = c.write(&m2[..cut]).unwrap();
    o.extend_from_slice(&c.write(&m2[cut..]).unwrap());
    o.extend_from_slice(&c.flush().unwrap());
    eq("second message", &o, &w2);
    o = c.write(&m3).unwrap();
    o.extend_from_slice(&c.flush().unwrap());
    eq("third message", &o, &w3);

    let mut d = decipher(&key1, iv);
    let mut n = 0;
    for (w, m) in [(&w1, &m1), (&w2, &m2), (&w3, &m3)] {
        n += 1;
        if n == 2 && k2 != 0 {
            check("new key", d.init(&key2).is_ok());
        }
        let cut = w.len() / 2 - 3;
        let x = d.write(&w[..cut]).and_then(|mut x| {
            x.extend_from_slice(&d.write(&w[cut..])?);
            x.extend_from_slice(&d.flush()?);
            Ok(x)
        });
        match x {
            Ok(x) => eq("cleartext", &x, m),
            Err(_) => check("accepted", false),
        }
    }
}

/// A key replaced in the middle of a message applies from the next block on.
pub fn h_cbc_rekey() {
    let n = pick(if thorough() { &[0, 15, 16, 17, 32, 33, 47] } else { &[16, 17, 33] });
    let a = choose(0, n);
    let key1 = any(pick(&[16, 24]));
    let key2 = any(pick(&[16, 32]));
    let iv = any16();
    let m = any(n);
    let mut c = cipher(&key1, iv);
    let mut o = c.write(&m[..a]).unwrap();
    check("new key", c.init(&key2).is_ok());
    o.extend_from_slice(&c.write(&m[a..]).unwrap());
    o.extend_from_slice(&c.flush().unwrap());
    let full = a / 16 * 16;
    let head = spec::cbc_raw(&key1, &iv, &m[..full]);
    let mut l = iv;
    if full > 0 {
        l.copy_from_slice(&head[full - 16..]);
    }
    eq("ciphertext", &o, &[head, spec::cbc_encrypt(&key2, &l, &m[full..])].concat());
}

fn padded5(m: &[u8]) -> [u8; 16] {
    let mut p = [11u8; 16];
    p[..5].copy_from_slice(m);
    p
}

/// After any number of whole messages below 2^58 through one Cipher and one
/// Decipher, the next one is treated as ever.
pub fn h_cbc_stream_leap() {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = [16, 30, 58][choose(0, 2)];
    let dec = choose(0, 1) == 1;
    let key = [0x3cu8, 0x51, 7, 0x98, 0xaa, 0, 1, 0xfe, 0x10, 0x77, 0x2b, 0x64, 0xd1, 0x0d, 0x8e, 0xb9];
    let mut last = any16();
    let mut c = cipher(&key, last);
    let mut d = decipher(&key, last);
    for _ in 0..5 {
        let m = any(5);
        let prev = last;
        last = link(&key, &prev, &padded5(&m));
        let r = refs(&[&last, &prev, &padded5(&m)]);
        if dec {
            d.write(&last).unwrap_or_default();
            d.flush().unwrap_or_default();
            snap(&d, &r);
        } else {
            c.write(&m).unwrap_or_default();
            c.flush().unwrap_or_default();
            snap(&c, &r);
        }
    }
    let n = any_bits(bits);
    let again = |c: &mut Cipher, d: &mut Decipher| {
        let (prev, m) = (any16(), any(5));
        let last = link(&key, &prev, &padded5(&m));
        let r = refs(&[&last, &prev, &padded5(&m)]);
        (if dec { leap(d, &r, n, width) } else { leap(c, &r, n, width) }, last)
    };
    let (ok, l0) = again(&mut c, &mut d);
    if !ok {
        return;
    }
    let m = any(5);
    let l1 = link(&key, &l0, &padded5(&m));
    let r = refs(&[&l1, &l0, &padded5(&m)]);
    let mut out;
    quiet(true);
    if dec {
        out = d.write(&l1).unwrap_or_default();
        out.extend_from_slice(&d.flush().unwrap_or_default());
    } else {
        out = c.write(&m).unwrap_or_default();
        out.extend_from_slice(&c.flush().unwrap_or_default());
    }
    quiet(false);
    let closed = if dec { leap_closed(&d, &r, n + 1) } else { leap_closed(&c, &r, n + 1) };
    if !closed {
        return;
    }
    cover("regular over messages");
    eq("next message", &out, if dec { &m } else { &l1 });
    for t in [0, 5, 16, 33] {
        let (ok, l0) = again(&mut c, &mut d);
        if ok {
            let m = any(t);
            let want = spec::cbc_encrypt(&key, &l0, &m);
            if dec {
                let x = d.write(&want).and_then(|mut x| {
                    x.extend_from_slice(&d.flush()?);
                    Ok(x)
                });
                match x {
                    Ok(x) => eq("cleartext", &x, &m),
                    Err(_) => check("accepted", false),
                }
            } else {
                let mut o = c.write(&m).unwrap_or_default();
                o.extend_from_slice(&c.flush().unwrap_or_default());
                eq("ciphertext", &o, &want);
            }
        }
    }
}

/// Writes of tens of kilobytes: a fixed key and bulk, an arbitrary tail.
pub fn h_cbc_bulk() {
    let l: &[usize] = if thorough() { &[4096, 16400, 32768, 65535, 65536, 65552, 98310, 131072 + 5] } else { &[65552, 131072 + 5] };
    let n = pick(l);
    let key: Vec<u8> = (0..16).map(|x| x * 15 + 11).collect();
    let iv = [0x5a; 16];
    let mut m = vec![0x77; n - 20];
    m.extend_from_slice(&any(20));
    let want = spec::cbc_encrypt(&key, &iv, &m);
    eq("ciphertext", &enc(&key, iv, &[&m]), &want);
    match dec(&key, iv, &[&want]) {
        Ok(x) => eq("cleartext", &x, &m),
        Err(_) => check("accepted", false),
    }
}

/// Closing before the ciphertext is complete is refused and changes nothing.
pub fn h_cbc_early_close() {
    let n = pick(if thorough() { &[0, 1, 15, 16, 17, 31, 32, 33, 47, 48] } else { &[0, 15, 16, 33] });
    let twice = choose(0, 1) == 1;
    let key = any(if twice { 16 } else { pick(&[16, 24]) });
    let iv = any16();
    let m = any(n);
    let c = spec::cbc_encrypt(&key, &iv, &m);
    for k in (0..c.len()).filter(|k| *k == 0 || k % 16 != 0) {
        let mut d = Decipher::new(iv);
        check("init", d.init(&key).is_ok());
        let mut out = d.write(&c[..k]).unwrap();
        let early = d.flush();
        check("refused", matches!(early, Err(ref e) if unfinished(e)));
        let mut at = k;
        if twice {
            at = (k + 5).min(c.len() - 1);
            out.extend_from_slice(&d.write(&c[k..at]).unwrap());
            if at % 16 != 0 {
                check("refused", matches!(d.flush(), Err(ref e) if unfinished(e)));
                check("refused", matches!(d.flush(), Err(ref e) if unfinished(e)));
            }
        }
        out.extend_from_slice(&d.write(&c[at..]).unwrap());
        match d.flush() {
            Ok(x) => {
                out.extend_from_slice(&x);
                eq("cleartext", &out, &m);
            }
            Err(_) => check("accepted", false),
        }
        // nothing has been written since
        check("refused", matches!(d.flush(), Err(ref e) if unfinished(e)));
        // and the next message still comes through
        let iv2 = c[c.len() - 16..].try_into().unwrap();
        let c2 = spec::cbc_encrypt(&key, &iv2, &m);
        let mut out = d.write(&c2).unwrap();
        match d.flush() {
            Ok(x) => {
                out.extend_from_slice(&x);
                eq("next message", &out, &m);
            }
            Err(_) => check("accepted", false),
        }
    }
}

/// A key of the wrong size in the middle of a message changes nothing, but may
/// leave the instance without a key.
pub fn h_cbc_bad_key() {
    let n = pick(if thorough() { &[0, 7, 16, 31, 33, 48] } else { &[7, 17] });
    let key = any(pick(&SIZES));
    let bad = any(pick(if thorough() { &[0, 1, 15, 17, 31, 33, 40] } else { &[0, 15, 40] }));
    let iv = any16();
    let m = any(n);
    let sent = spec::cbc_encrypt(&key, &iv, &m);
    for k in 0..=n {
        let mut c = Cipher::new(iv);
        check("init", c.init(&key).is_ok());
        let mut out = c.write(&m[..k]).unwrap();
        check("refused", matches!(c.init(&bad), Err(AESError::InvalidKeySize)));
        match c.write(&m[k..]) {
            Ok(x) => {
                out.extend_from_slice(&x);
                match c.flush() {
                    Ok(x) => {
                        out.extend_from_slice(&x);
                        eq("ciphertext", &out, &sent);
                    }
                    Err(e) => check("not initialised", e == AESError::NotInitialized),
                }
            }
            Err(e) => check("not initialised", e == AESError::NotInitialized),
        }
    }
    let mut k = 0;
    while k <= sent.len() {
        let mut d = Decipher::new(iv);
        check("init", d.init(&key).is_ok());
        let mut out = d.write(&sent[..k]).unwrap();
        check("refused", matches!(d.init(&bad), Err(AESError::InvalidKeySize)));
        match d.write(&sent[k..]) {
            Ok(x) => {
                out.extend_from_slice(&x);
                match d.flush() {
                    Ok(x) => {
                        out.extend_from_slice(&x);
                        eq("cleartext", &out, &m);
                    }
                    Err(e) => check("not initialised", e == DecipherError::AES(AESError::NotInitialized)),
                }
            }
            Err(e) => check("not initialised", e == DecipherError::AES(AESError::NotInitialized)),
        }
        k += 1;
    }
}

/// Any few operations without a key, refused keys among them.
pub fn h_cbc_uninit_seq() {
    let m = any(48);
    let iv = any16();
    let bad = any(48);
    let mut c = Cipher::new(iv);
    let mut d = Decipher::new(iv);
    for _ in 0..if thorough() { 5 } else { 3 } {
        match choose(0, 5) {
            0 => nothing(c.write(&m[..7]).ok(), d.write(&m[..7]).ok()),
            1 => nothing(c.write(&m[..16]).ok(), d.write(&m[..16]).ok()),
            2 => nothing(c.write(&m).ok(), d.write(&m).ok()),
            3 => nothing(c.flush().ok(), d.flush().ok()),
            4 => check("refused", c.init(&bad[..15]).is_err() && d.init(&bad[..33]).is_err()),
            _ => check("refused", c.init(&bad).is_err() && d.init(&bad[..0]).is_err()),
        }
    }
    nothing(c.write(&m[..32]).ok(), d.write(&m[..32]).ok());
    nothing(c.flush().ok(), d.flush().ok());
}

fn nothing(a: Option<Vec<u8>>, b: Option<Vec<u8>>) {
    check("nothing encrypted", a.map_or(true, |x| x.is_empty()));
    check("nothing decrypted", b.map_or(true, |x| x.is_empty()));
}
