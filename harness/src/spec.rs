//! Reference definitions, written from the standards (FIPS 180-4, FIPS 198,
//! RFC 8018, the Salsa20 specification, RFC 7914, FIPS 197, SP 800-38A,
//! RFC 5652 section 6.3).  Constants are derived, not copied: SHA-256's from
//! the roots of primes, AES's S-box from inversion in GF(2^8).

// ---- SHA-256 ---------------------------------------------------------------

const fn prime(n: usize) -> u128 {
    let mut k = 0;
    let mut p = 1u128;
    while k <= n {
        p += 1;
        let mut d = 2;
        let mut is = true;
        while d * d <= p {
            if p % d == 0 {
                is = false;
            }
            d += 1;
        }
        if is {
            k += 1;
        }
    }
    p
}
// floor(p^(1/e) * 2^32) mod 2^32
const fn root_frac(p: u128, e: u32) -> u32 {
    let target = p << (32 * e);
    let mut lo = 0u128;
    let mut hi = 1u128 << 38;
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        let v = if e == 2 { m * m } else { m * m * m };
        if v <= target {
            lo = m;
        } else {
            hi = m;
        }
    }
    lo as u32
}
const fn roots<const N: usize>(e: u32) -> [u32; N] {
    let mut o = [0; N];
    let mut i = 0;
    while i < N {
        o[i] = root_frac(prime(i), e);
        i += 1;
    }
    o
}
pub const K: [u32; 64] = roots::<64>(3);
pub const IV: [u32; 8] = roots::<8>(2);

pub fn sha_compress(h: &mut [u32; 8], block: &[u8]) {
    let mut w = [0u32; 64];
    let mut t = 0;
    while t < 16 {
        w[t] = u32::from_be_bytes([block[4 * t], block[4 * t + 1], block[4 * t + 2], block[4 * t + 3]]);
        t += 1;
    }
    while t < 64 {
        let x = w[t - 15];
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let y = w[t - 2];
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
        t += 1;
    }
    let mut v = *h;
    t = 0;
    while t < 64 {
        let (a, b, c, e, f, g) = (v[0], v[1], v[2], v[4], v[5], v[6]);
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = g ^ (e & (f ^ g));
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) | (c & (a | b));
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, b, c, v[3].wrapping_add(t1), e, f, g];
        t += 1;
    }
    let mut i = 0;
    while i < 8 {
        h[i] = h[i].wrapping_add(v[i]);
        i += 1;
    }
}

/// Finish a message: `h` has absorbed `before` bytes (a multiple of 64), `tail`
/// is the rest.
pub fn sha_finish(h: &mut [u32; 8], before: u64, tail: &[u8]) -> [u8; 32] {
    let bits = (before + tail.len() as u64) << 3;
    let mut m = tail.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    let mut k = 0;
    while k < m.len() {
        sha_compress(h, &m[k..k + 64]);
        k += 64;
    }
    let mut o = [0; 32];
    let mut i = 0;
    while i < 8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
        i += 1;
    }
    o
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let mut h = IV;
    sha_finish(&mut h, 0, msg)
}

// ---- HMAC, PBKDF2 -----------------------------------------------------------

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k0 = [0u8; 64];
    if key.len() > 64 {
        k0[..32].copy_from_slice(&sha256(key));
    } else {
        k0[..key.len()].copy_from_slice(key);
    }
    let mut inner = Vec::with_capacity(64 + msg.len());
    let mut outer = Vec::with_capacity(96);
    for b in k0 {
        inner.push(b ^ 0x36);
        outer.push(b ^ 0x5c);
    }
    inner.extend_from_slice(msg);
    outer.extend_from_slice(&sha256(&inner));
    sha256(&outer)
}

pub fn pbkdf2_block(p: &[u8], s: &[u8], c: usize, i: u32) -> [u8; 32] {
    let mut m = s.to_vec();
    m.extend_from_slice(&i.to_be_bytes());
    let mut u = hmac(p, &m);
    let mut t = u;
    let mut j = 1;
    while j < c {
        u = hmac(p, &u);
        let mut k = 0;
        while k < 32 {
            t[k] ^= u[k];
            k += 1;
        }
        j += 1;
    }
    t
}

pub fn pbkdf2(p: &[u8], s: &[u8], c: usize, n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 1u32;
    while o.len() < n {
        o.extend_from_slice(&pbkdf2_block(p, s, c, i));
        i += 1;
    }
    o.truncate(n);
    o
}

// ---- Salsa20 ---------------------------------------------------------------

pub fn salsa_core(x: &[u8], double_rounds: usize) -> [u8; 64] {
    let mut w = [0u32; 16];
    let mut i = 0;
    while i < 16 {
        w[i] = u32::from_le_bytes([x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]]);
        i += 1;
    }
    let s = w;
    const Q: [[usize; 4]; 8] = [
        [0, 4, 8, 12],
        [5, 9, 13, 1],
        [10, 14, 2, 6],
        [15, 3, 7, 11],
        [0, 1, 2, 3],
        [5, 6, 7, 4],
        [10, 11, 8, 9],
        [15, 12, 13, 14],
    ];
    let mut r = 0;
    while r < double_rounds {
        for q in Q {
            let [a, b, c, d] = q;
            w[b] ^= w[a].wrapping_add(w[d]).rotate_left(7);
            w[c] ^= w[b].wrapping_add(w[a]).rotate_left(9);
            w[d] ^= w[c].wrapping_add(w[b]).rotate_left(13);
            w[a] ^= w[d].wrapping_add(w[c]).rotate_left(18);
        }
        r += 1;
    }
    let mut o = [0; 64];
    i = 0;
    while i < 16 {
        o[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes());
        i += 1;
    }
    o
}

// ---- scrypt ----------------------------------------------------------------

fn block_mix(b: &[u8], r: usize) -> Vec<u8> {
    let mut x = b[(2 * r - 1) * 64..].to_vec();
    let mut o = vec![0u8; 128 * r];
    let mut i = 0;
    while i < 2 * r {
        let mut k = 0;
        while k < 64 {
            x[k] ^= b[64 * i + k];
            k += 1;
        }
        x = salsa_core(&x, 4).to_vec();
        let pos = (i / 2) + (i % 2) * r;
        o[64 * pos..64 * pos + 64].copy_from_slice(&x);
        i += 1;
    }
    o
}

pub fn ro_mix(b: &[u8], r: usize, n: usize) -> Vec<u8> {
    let len = 128 * r;
    let mut x = b.to_vec();
    let mut v: Vec<u8> = Vec::with_capacity(n * len);
    let mut i = 0;
    while i < n {
        v.extend_from_slice(&x);
        x = block_mix(&x, r);
        i += 1;
    }
    i = 0;
    while i < n {
        let o = (2 * r - 1) * 64;
        let j = u64::from_le_bytes([x[o], x[o + 1], x[o + 2], x[o + 3], x[o + 4], x[o + 5], x[o + 6], x[o + 7]])
            & (n as u64 - 1);
        let mut k = 0;
        while k < len {
            x[k] ^= v[j as usize * len + k];
            k += 1;
        }
        x = block_mix(&x, r);
        i += 1;
    }
    x
}

pub fn scrypt(pw: &[u8], salt: &[u8], r: usize, n: usize, p: usize, out: usize) -> Vec<u8> {
    let b = pbkdf2(pw, salt, 1, p * 128 * r);
    let mut m = vec![];
    let mut i = 0;
    while i < p {
        m.extend_from_slice(&ro_mix(&b[i * 128 * r..(i + 1) * 128 * r], r, n));
        i += 1;
    }
    pbkdf2(pw, &m, 1, out)
}

// ---- AES -------------------------------------------------------------------

const fn gmul_c(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 });
        b >>= 1;
    }
    r
}
const fn sbox_c() -> [u8; 256] {
    let mut o = [0; 256];
    let mut x = 0usize;
    while x < 256 {
        let mut inv = 0u8;
        let mut y = 1usize;
        while y < 256 {
            if gmul_c(x as u8, y as u8) == 1 {
                inv = y as u8;
            }
            y += 1;
        }
        o[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        x += 1;
    }
    o
}
const fn invert_c(s: &[u8; 256]) -> [u8; 256] {
    let mut o = [0; 256];
    let mut x = 0usize;
    while x < 256 {
        o[s[x] as usize] = x as u8;
        x += 1;
    }
    o
}
pub static SBOX: [u8; 256] = sbox_c();
pub static INV: [u8; 256] = invert_c(&sbox_c());

fn xt(a: u8) -> u8 {
    (a << 1) ^ ((a >> 7).wrapping_mul(0x1b))
}

/// Round keys as bytes: 16 * (rounds + 1).
pub fn aes_expand(key: &[u8]) -> Vec<u8> {
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w = key.to_vec();
    let mut rc = 1u8;
    let mut i = nk;
    while i < 4 * (nr + 1) {
        let mut t = [w[4 * i - 4], w[4 * i - 3], w[4 * i - 2], w[4 * i - 1]];
        if i % nk == 0 {
            t = [
                SBOX[t[1] as usize] ^ rc,
                SBOX[t[2] as usize],
                SBOX[t[3] as usize],
                SBOX[t[0] as usize],
            ];
            rc = xt(rc);
        } else if nk == 8 && i % nk == 4 {
            t = [
                SBOX[t[0] as usize],
                SBOX[t[1] as usize],
                SBOX[t[2] as usize],
                SBOX[t[3] as usize],
            ];
        }
        let mut k = 0;
        while k < 4 {
            let v = w[4 * (i - nk) + k] ^ t[k];
            w.push(v);
            k += 1;
        }
        i += 1;
    }
    w
}

pub fn aes_encrypt(rk: &[u8], block: &[u8; 16]) -> [u8; 16] {
    let nr = rk.len() / 16 - 1;
    let mut s = [0u8; 16];
    let mut i = 0;
    while i < 16 {
        s[i] = block[i] ^ rk[i];
        i += 1;
    }
    let mut r = 1;
    while r <= nr {
        // SubBytes and ShiftRows: row k of column c comes from column c + k
        let mut t = [0u8; 16];
        i = 0;
        while i < 16 {
            t[i] = SBOX[s[(i + 4 * (i % 4)) % 16] as usize];
            i += 1;
        }
        if r < nr {
            let mut c = 0;
            while c < 16 {
                let (a0, a1, a2, a3) = (t[c], t[c + 1], t[c + 2], t[c + 3]);
                let all = a0 ^ a1 ^ a2 ^ a3;
                t[c] = a0 ^ all ^ xt(a0 ^ a1);
                t[c + 1] = a1 ^ all ^ xt(a1 ^ a2);
                t[c + 2] = a2 ^ all ^ xt(a2 ^ a3);
                t[c + 3] = a3 ^ all ^ xt(a3 ^ a0);
                c += 4;
            }
        }
        i = 0;
        while i < 16 {
            s[i] = t[i] ^ rk[16 * r + i];
            i += 1;
        }
        r += 1;
    }
    s
}

/// The inverse cipher, step by step from FIPS 197 section 5.3.
pub fn aes_decrypt(rk: &[u8], block: &[u8; 16]) -> [u8; 16] {
    let nr = rk.len() / 16 - 1;
    let mut s = [0u8; 16];
    let mut i = 0;
    while i < 16 {
        s[i] = block[i] ^ rk[16 * nr + i];
        i += 1;
    }
    let mut r = nr;
    while r > 0 {
        r -= 1;
        let mut t = [0u8; 16];
        i = 0;
        while i < 16 {
            t[(i + 4 * (i % 4)) % 16] = INV[s[i] as usize];
            i += 1;
        }
        i = 0;
        while i < 16 {
            s[i] = t[i] ^ rk[16 * r + i];
            i += 1;
        }
        if r > 0 {
            let mut c = 0;
            while c < 16 {
                let a = [s[c], s[c + 1], s[c + 2], s[c + 3]];
                let mut k = 0;
                while k < 4 {
                    // 14 a_k + 11 a_{k+1} + 13 a_{k+2} + 9 a_{k+3}
                    let (p, q, u, v) = (a[k], a[(k + 1) % 4], a[(k + 2) % 4], a[(k + 3) % 4]);
                    let x8 = xt(xt(xt(p ^ q ^ u ^ v)));
                    let x4 = xt(xt(p ^ u));
                    let x2 = xt(p ^ q);
                    s[c + k] = x8 ^ x4 ^ x2 ^ q ^ u ^ v;
                    k += 1;
                }
                c += 4;
            }
        }
    }
    s
}

// ---- CBC with PKCS#7 padding -------------------------------------------------

pub fn pkcs7(m: &[u8]) -> Vec<u8> {
    let k = 16 - m.len() % 16;
    let mut o = m.to_vec();
    let mut i = 0;
    while i < k {
        o.push(k as u8);
        i += 1;
    }
    o
}

/// CBC encryption of whole blocks.
pub fn cbc_raw(key: &[u8], iv: &[u8; 16], m: &[u8]) -> Vec<u8> {
    let rk = aes_expand(key);
    let mut prev = *iv;
    let mut o = vec![];
    let mut b = 0;
    while b < m.len() {
        let mut x = [0u8; 16];
        let mut i = 0;
        while i < 16 {
            x[i] = m[b + i] ^ prev[i];
            i += 1;
        }
        prev = aes_encrypt(&rk, &x);
        o.extend_from_slice(&prev);
        b += 16;
    }
    o
}

pub fn cbc_encrypt(key: &[u8], iv: &[u8; 16], m: &[u8]) -> Vec<u8> {
    cbc_raw(key, iv, &pkcs7(m))
}
