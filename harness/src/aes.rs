use crate::api::*;
use crate::spec;
use dumb_crypto::aes::{AESError, AES};

const SIZES: [usize; 3] = [16, 24, 32];

pub fn h_aes_encrypt() {
    let key = any(pick(&SIZES));
    let b = any16();
    let mut a = AES::new();
    check("init", a.init(&key).is_ok());
    match a.encrypt(&b) {
        Ok(c) => eq("ciphertext", &c, &spec::aes_encrypt(&spec::aes_expand(&key), &b)),
        Err(_) => check("encrypts", false),
    }
}

pub fn h_aes_decrypt() {
    let key = any(pick(&SIZES));
    let b = any16();
    let mut a = AES::default();
    check("init", a.init(&key).is_ok());
    match a.decrypt(&b) {
        Ok(c) => eq("cleartext", &c, &spec::aes_decrypt(&spec::aes_expand(&key), &b)),
        Err(_) => check("decrypts", false),
    }
}

pub fn h_aes_roundtrip() {
    let key = any(pick(&SIZES));
    let b = any16();
    let mut a = AES::new();
    check("init", a.init(&key).is_ok());
    let dir = choose(0, 1);
    if dir == 0 {
        let c = a.encrypt(&b).unwrap();
        eq("decrypt undoes encrypt", &a.decrypt(&c).unwrap(), &b);
    } else {
        let c = a.decrypt(&b).unwrap();
        eq("encrypt undoes decrypt", &a.encrypt(&c).unwrap(), &b);
    }
}

/// Key lengths; uninitialised instances.
pub fn h_aes_init() {
    let n = choose(0, if thorough() { 300 } else { 70 });
    let key = any(n);
    let b = any16();
    let mut a = AES::new();
    check("not initialised", matches!(a.encrypt(&b), Err(AESError::NotInitialized)));
    check("not initialised", matches!(a.decrypt(&b), Err(AESError::NotInitialized)));
    let r = a.init(&key);
    if SIZES.contains(&n) {
        check("accepted", r.is_ok());
        cover("accepted");
    } else {
        check("refused", matches!(r, Err(AESError::InvalidKeySize)));
        check("still not initialised", matches!(a.encrypt(&b), Err(AESError::NotInitialized)));
        check("still not initialised", matches!(a.decrypt(&b), Err(AESError::NotInitialized)));
        cover("refused");
    }
}

/// A second key replaces the first completely; a refused key changes nothing
/// but, at most, leaves the instance without a key.
pub fn h_aes_rekey() {
    let k1 = any(pick(&SIZES));
    let n2 = pick(&[16, 24, 32, 0, 15, 17, 31, 33]);
    let k2 = any(n2);
    let b = any16();
    let mut a = AES::new();
    check("init", a.init(&k1).is_ok());
    let c1 = a.encrypt(&b);
    let r = a.init(&k2);
    let c2 = a.encrypt(&b);
    match r {
        Ok(()) => {
            check("accepted", SIZES.contains(&n2));
            let mut f = AES::new();
            check("init", f.init(&k2).is_ok());
            eq("as fresh", &c2.unwrap(), &f.encrypt(&b).unwrap());
            eq("as fresh", &a.decrypt(&b).unwrap(), &f.decrypt(&b).unwrap());
        }
        Err(e) => {
            check("refused", e == AESError::InvalidKeySize && !SIZES.contains(&n2));
            match c2 {
                Ok(c) => {
                    eq("old key stays", &c, &c1.unwrap());
                    eq("old key stays", &a.decrypt(&c).unwrap(), &b);
                }
                Err(e) => check("or none", e == AESError::NotInitialized),
            }
        }
    }
}

/// Whatever was encrypted and decrypted before, on the instance or on another
/// one with another key, the results stay those of the key.
pub fn h_aes_history() {
    let n = pick(&SIZES);
    let key = any(n);
    let rk = spec::aes_expand(&key);
    let other = any(pick(&[16, 32]));
    let (x, y) = (any16(), any16());
    let mut a = AES::new();
    check("init", a.init(&key).is_ok());
    let mut f = AES::new();
    check("init", f.init(&other).is_ok());
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        match choose(0, 3) {
            0 => eq("encrypt", &a.encrypt(&x).unwrap(), &spec::aes_encrypt(&rk, &x)),
            1 => eq("decrypt", &a.decrypt(&x).unwrap(), &spec::aes_decrypt(&rk, &x)),
            2 => eq("encrypt", &a.encrypt(&y).unwrap(), &spec::aes_encrypt(&rk, &y)),
            _ => {
                f.encrypt(&y).unwrap();
                f.decrypt(&x).unwrap();
            }
        }
    }
    eq("encrypt after", &a.encrypt(&x).unwrap(), &spec::aes_encrypt(&rk, &x));
    eq("decrypt after", &a.decrypt(&y).unwrap(), &spec::aes_decrypt(&rk, &y));
}

/// The same after any number of operations below 2^58.
pub fn h_aes_leap() {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = [16, 30, 58][choose(0, 2)];
    let mode = choose(0, 2);
    let key = any(pick(&SIZES));
    let rk = spec::aes_expand(&key);
    let mut a = AES::new();
    check("init", a.init(&key).is_ok());
    let step = |a: &mut AES| {
        let b = any16();
        let mut r = b.to_vec();
        if mode != 1 {
            let e = a.encrypt(&b).unwrap_or_default();
            r.extend_from_slice(&e);
        }
        if mode != 0 {
            let e = a.decrypt(&b).unwrap_or_default();
            r.extend_from_slice(&e);
        }
        r
    };
    for _ in 0..4 {
        let r = step(&mut a);
        snap(&a, &r);
    }
    let m = any_bits(bits);
    let again = |a: &mut AES| {
        let b = any16();
        let mut r = b.to_vec();
        if mode != 1 {
            r.extend_from_slice(&spec::aes_encrypt(&rk, &b));
        }
        if mode != 0 {
            r.extend_from_slice(&spec::aes_decrypt(&rk, &b));
        }
        leap(a, &r, m, width)
    };
    if !again(&mut a) {
        return;
    }
    quiet(true);
    let r = step(&mut a);
    quiet(false);
    if !leap_closed(&a, &r, m + 1) {
        return;
    }
    cover("regular over operations");
    if again(&mut a) {
        let b = any16();
        eq("encrypt", &a.encrypt(&b).unwrap_or_default(), &spec::aes_encrypt(&rk, &b));
        eq("decrypt", &a.decrypt(&b).unwrap_or_default(), &spec::aes_decrypt(&rk, &b));
    }
}
