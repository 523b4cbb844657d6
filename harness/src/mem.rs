use crate::api::*;
use crate::spec;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

const SIZES: [usize; 3] = [16, 24, 32];

/// Do the same step again and again: after some time no more memory is held
/// than before.
fn steady(warm: usize, more: usize, mut step: impl FnMut(usize)) {
    let (mut before, mut after) = (0, 0);
    for i in 0..warm {
        step(i);
        before = live().max(before);
    }
    for i in 0..more {
        step(warm + i);
        after = live().max(after);
    }
    check("memory does not grow", after <= before);
}

fn turns() -> usize {
    if thorough() {
        200
    } else {
        50
    }
}

/// A hash and an authenticator fed piece by piece.
pub fn h_mem_hash() {
    let piece = pick(&[0, 1, 7, 63, 64, 65, 130]);
    let data = any(130);
    let key = any(70);
    {
        let mut s = SHA256::default();
        let mut h = HMac::new(&key);
        steady(20, turns(), |_| {
            s.update(&data[..piece]);
            h.update(&data[..piece]);
        });
    }
    // whole lives of them
    steady(2, 6, |i| {
        let mut s = SHA256::new();
        let mut h = HMac::new(&key[..[64, 65, 0, 20, 70, 30, 40, 10][i % 8]]);
        s.update(&data[..piece]);
        h.update(&data[..piece]);
        s.digest();
        h.digest();
    });
}

/// A cipher and a decipher fed piece by piece: one message; many messages;
/// closing refused; no key; keys replaced and refused.
pub fn h_mem_cbc() {
    let pieces: &[usize] = match choose(0, 7) {
        0 => &[0],
        1 => &[1],
        2 => &[15],
        3 => &[16],
        4 => &[17],
        5 => &[32],
        6 => &[48],
        _ => &[31, 0, 1, 16, 40, 8, 47, 33, 2],
    };
    let mode = choose(0, 6);
    let size = pick(if thorough() { &SIZES } else { &SIZES[..1 + pieces.len() / 9] });
    let keys = [7u8; 48];
    let fixed: Vec<u8> = (0..48u8).map(|i| i.wrapping_mul(29).wrapping_add(3)).collect();
    let data = &fixed;
    let iv = [0x5a; 16];
    let mut c = Cipher::new(iv);
    let mut d = Decipher::new(iv);
    if mode != 3 {
        check("init", c.init(&keys[..size]).is_ok() && d.init(&keys[..size]).is_ok());
    }
    steady(20, turns(), |i| {
        let piece = pieces[i % pieces.len()];
        let sent = c.write(&data[..piece]).unwrap_or_default();
        match mode {
            // what the cipher gives
            0 | 1 => drop(d.write(&sent)),
            // anything
            _ => drop(d.write(&data[..piece])),
        }
        if mode == 1 && i % 3 == 2 {
            let last = c.flush().unwrap();
            drop(d.write(&last));
            check("closed", d.flush().is_ok());
        }
        if mode == 2 {
            drop(c.flush());
            drop(d.flush());
        }
        if mode == 4 {
            drop(c.init(&keys[..SIZES[i % 3]]));
            drop(d.init(&keys[..SIZES[i % 3]]));
        }
        if mode == 6 {
            // never the same key
            drop(c.init(&[i as u8; 32][..SIZES[i / 3 % 3]]));
            drop(d.init(&[i as u8 + 100; 32][..SIZES[i / 2 % 3]]));
        }
        if mode == 5 {
            drop(c.init(&keys[..5]));
            drop(d.init(&keys[..40]));
        }
    });
}

/// One long message.
pub fn h_mem_cbc_far() {
    let size = pick(if thorough() { &[100, 256, 4096] } else { &[256] });
    let data = vec![0x31; size];
    let mut c = Cipher::new([1; 16]);
    let mut d = Decipher::new([1; 16]);
    check("init", c.init(&[2; 16]).is_ok() && d.init(&[2; 16]).is_ok());
    steady(100, if thorough() { 400 } else { 160 }, |_| {
        let sent = c.write(&data).unwrap();
        drop(d.write(&sent));
    });
}

/// Whole lives of them: a fixed message first, then any.
pub fn h_mem_cbc_lives() {
    let n = pick(&[0, 7, 16, 33]);
    let how = choose(0, 2);
    let key = any(24);
    let (iv, m) = (any16(), any(48));
    let sent = spec::cbc_raw(&key, &iv, &m[..n / 16 * 16]);
    steady(1, 1, |i| {
        let m = if i == 0 { &[3u8; 48][..n] } else { &m[..n] };
        let mut c = Cipher::new(iv);
        let mut d = Decipher::new(iv);
        check("init", how == 2 || c.init(&key).is_ok() && d.init(&key).is_ok());
        let mut out = c.write(m).unwrap_or_default();
        out.append(&mut c.flush().unwrap_or_default());
        match how {
            0 => drop(d.write(&out)),
            1 if i == 0 => drop(d.write(&out)),
            // any ciphertext
            _ => drop(d.write(&sent)),
        }
        drop(d.flush());
    });
}

/// Block operations on one instance; keys replaced and refused.
pub fn h_mem_aes() {
    let keys = any(40);
    let b = any16();
    let mode = choose(0, 4);
    let mut a = AES::default();
    if mode != 0 {
        check("init", a.init(&keys[..16]).is_ok());
    }
    steady(6, 18, |i| {
        match mode {
            2 => drop(a.init(&keys[..SIZES[i % 3]])),
            4 => {
                drop(a.init(&[i as u8; 32][..SIZES[i / 2 % 3]]));
                drop(a.encrypt(&[i as u8; 16]));
                drop(a.decrypt(&[i as u8; 16]));
                return;
            }
            3 => drop(a.init(&keys[..[0, 15, 33, 40][i % 4]])),
            _ => (),
        }
        drop(a.encrypt(&b));
        drop(a.decrypt(&b));
    });
}

/// Derivations leave nothing behind, refused ones included.
pub fn h_mem_kdf() {
    let pw = any(70);
    let salt = any(20);
    let n = pick(&[0, 1, 33, 100]);
    let mut out = any(100);
    let mut z = [0u8; 192];
    let which = choose(0, 5);
    steady(4, if which > 3 { 12 } else { 8 }, |i| {
        let p = &pw[..[3, 70, 64, 5][i % 4]];
        let s = &salt[..[8, 20, 0, 3][i / 2 % 4]];
        match which {
            0 => pbkdf2_sha256(p, s, 1 + i % 2, &mut out[..n]),
            1 => drop(Scrypt::new([1, 2][i % 2], [2, 4][i / 2 % 2], 1 + i % 2).derive(p, s, &mut out[..n])),
            2 => drop(Scrypt::new([1, 0, 1, 1][i % 4], [3, 2, 2, 0][i % 4], [1, 1, 0, 1][i % 4]).derive(p, s, &mut out[..n])),
            3 => salsa20(&[5; 192], i % 4, &mut z),
            // never the same inputs
            4 => pbkdf2_sha256(&[i as u8; 9], &[i as u8 + 1; 9], 2, &mut out[..n]),
            _ => drop(Scrypt::new(1, 2, 1 + i % 3).derive(&[i as u8; 9], &[i as u8 + 1; 9], &mut out[..n])),
        }
    });
}
