use crate::api::*;
use crate::spec;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

/// Two hashes and two MACs advanced alternately behave as if alone.
pub fn h_iso_hash() {
    let n = pick(&[3, 64, 70, 130]);
    let k = pick(&[1, 7, 64, 65]);
    let (a, b, key1, key2) = (any(n), any(n + 5), any(k), any(20));
    let mut h1 = SHA256::new();
    let mut m1 = HMac::new(&key1);
    let mut h2 = SHA256::new();
    let mut m2 = HMac::new(&key2);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let (x, y) = ((i + k).min(a.len()), (j + 9).min(b.len()));
        h1.update(&a[i..x]);
        m2.update(&b[j..y]);
        h2.update(&b[j..y]);
        m1.update(&a[i..x]);
        i = x;
        j = y;
    }
    let mut out = any(40);
    pbkdf2_sha256(&key2, &a, 1, &mut out);
    eq("first hash", &h1.digest(), &spec::sha256(&a));
    eq("second mac", &m2.digest(), &spec::hmac(&key2, &b));
    eq("second hash", &h2.digest(), &spec::sha256(&b));
    eq("first mac", &m1.digest(), &spec::hmac(&key1, &a));
    eq("kdf", &out, &spec::pbkdf2(&key2, &a, 1, 40));
}

pub fn h_iso_aes() {
    let (s1, s2) = (pick(&[16, 24, 32]), pick(&[16, 24, 32]));
    let (k1, k2, b1, b2) = (any(s1), any(s2), any16(), any16());
    let mut a1 = AES::new();
    let mut a2 = AES::new();
    check("init", a1.init(&k1).is_ok());
    let e1 = a1.encrypt(&b1).unwrap();
    check("init", a2.init(&k2).is_ok());
    let e2 = a2.encrypt(&b2).unwrap();
    eq("first again", &a1.encrypt(&b1).unwrap(), &e1);
    eq("second", &e2, &spec::aes_encrypt(&spec::aes_expand(&k2), &b2));
    eq("first", &e1, &spec::aes_encrypt(&spec::aes_expand(&k1), &b1));
    eq("first on another block", &a1.encrypt(&b2).unwrap(), &spec::aes_encrypt(&spec::aes_expand(&k1), &b2));
}

pub fn h_iso_cbc() {
    let n = pick(&[5, 16, 33]);
    let k = pick(&[1, 9, 16]);
    let (k1, k2, iv1, iv2) = (any(16), any(32), any16(), any16());
    let (a, b) = (any(n), any(n + 3));
    let mut c1 = Cipher::new(iv1);
    let mut c2 = Cipher::new(iv2);
    check("init", c1.init(&k1).is_ok() && c2.init(&k2).is_ok());
    let (mut o1, mut o2) = (vec![], vec![]);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let (x, y) = ((i + k).min(a.len()), (j + 11).min(b.len()));
        o1.extend_from_slice(&c1.write(&a[i..x]).unwrap());
        o2.extend_from_slice(&c2.write(&b[j..y]).unwrap());
        i = x;
        j = y;
    }
    o2.extend_from_slice(&c2.flush().unwrap());
    o1.extend_from_slice(&c1.flush().unwrap());
    eq("first", &o1, &spec::cbc_encrypt(&k1, &iv1, &a));
    eq("second", &o2, &spec::cbc_encrypt(&k2, &iv2, &b));
    let mut d1 = Decipher::new(iv1);
    let mut d2 = Decipher::new(iv2);
    check("init", d1.init(&k1).is_ok() && d2.init(&k2).is_ok());
    let (mut p1, mut p2) = (vec![], vec![]);
    let (h1, h2) = (o1.len() / 2, o2.len() / 3);
    p1.extend_from_slice(&d1.write(&o1[..h1]).unwrap());
    p2.extend_from_slice(&d2.write(&o2[..h2]).unwrap());
    p1.extend_from_slice(&d1.write(&o1[h1..]).unwrap());
    p2.extend_from_slice(&d2.write(&o2[h2..]).unwrap());
    match (d1.flush(), d2.flush()) {
        (Ok(x), Ok(y)) => {
            p1.extend_from_slice(&x);
            p2.extend_from_slice(&y);
            eq("first back", &p1, &a);
            eq("second back", &p2, &b);
        }
        _ => check("accepted", false),
    }
}

/// No panic, no overflow, no out-of-range access: hashing and key derivation.
pub fn h_total_hash() {
    let n = choose(0, if thorough() { 200 } else { 80 });
    let m = any(n);
    let mut s = SHA256::new();
    s.update(&m);
    let d1 = s.digest();
    // an object may be used on after a digest; the result is unspecified
    s.update(&m);
    let d2 = s.digest();
    let d3 = s.digest();
    let mut h = HMac::new(&m);
    h.update(&m);
    let d4 = h.digest();
    h.update(&d1);
    let d5 = h.digest();
    let mut o = vec![0; n];
    pbkdf2_sha256(&m, &m, n % 3, &mut o);
    pbkdf2_sha256(&m, &m, 0, &mut []);
    let mut z = vec![0; n / 64 * 64];
    salsa20(&m[..n / 64 * 64], n % 5, &mut z);
    let _ = Scrypt::new(1, 2, 1).derive(&m, &m, &mut o);
    check("returned", d2.len() + d3.len() + d4.len() + d5.len() == 128);
}

/// No panic on any sequence of cipher and decipher operations, with or
/// without a key, before and after flushes and errors.
pub fn h_total_cbc() {
    let steps = if thorough() { 5 } else { 3 };
    let iv = any16();
    let key = any(16);
    let data = any(40);
    let mut sent = spec::cbc_raw(&key, &iv, &data[..32]);
    sent.extend_from_slice(&data[32..]);
    let mut c = Cipher::new(iv);
    let mut d = Decipher::new(iv);
    for _ in 0..steps {
        match choose(0, 5) {
            0 => {
                let _ = c.init(&key);
                let _ = d.init(&key);
            }
            1 => {
                let _ = c.init(&key[..7]);
                let _ = d.init(&key[..7]);
            }
            2 => {
                let _ = c.write(&data[..9]);
                let _ = d.write(&sent[..9]);
            }
            3 => {
                let _ = c.write(&data[..32]);
                let _ = d.write(&sent[..32]);
            }
            4 => {
                let _ = c.write(&data[..40]);
                let _ = d.write(&sent[..7]);
            }
            _ => {
                let _ = c.flush();
                let _ = d.flush();
            }
        }
    }
    check("returned", true);
}

/// Every error can be shown.
pub fn h_total_errors() {
    let mut out = [0u8; 4];
    let (r, n, p) = [(0, 2, 1), (1, 0, 1), (1, 1, 1), (1, 3, 1), (1, 2, 0)][choose(0, 4)];
    let mut texts = vec![];
    if let Err(e) = Scrypt::new(r, n, p).derive(b"p", b"s", &mut out) {
        texts.push(format!("{} {:?}", e, e));
    }
    if let Err(e) = AES::new().init(&[0; 5]) {
        texts.push(format!("{} {:?}", e, e));
    }
    let mut c = Cipher::new([0; 16]);
    if let Err(e) = c.flush() {
        texts.push(format!("{} {:?}", e, e));
    }
    let mut d = Decipher::new([0; 16]);
    if let Err(e) = d.write(&[0; 16]) {
        texts.push(format!("{} {:?}", e, e));
    }
    let mut d = Decipher::new([0; 16]);
    if let Err(e) = d.flush() {
        texts.push(format!("{} {:?}", e, e));
    }
    let _ = d.init(&[1; 16]);
    let _ = d.write(&[2; 32]);
    if let Err(e) = d.flush() {
        texts.push(format!("{} {:?}", e, e));
    }
    check("returned", texts.iter().all(|t| t.len() < 1000));
}
