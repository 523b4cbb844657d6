use crate::api::*;
use crate::spec;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::{Scrypt, ScryptError};

/// Password, salt and output lengths.
pub fn h_pbkdf2_shapes() {
    let ps: &[usize] = if thorough() { &[0, 1, 8, 31, 32, 33, 55, 56, 63, 64, 65, 100, 128, 200] } else { &[0, 9, 64, 65] };
    let ss: &[usize] = if thorough() { &[0, 1, 8, 16, 47, 48, 51, 52, 60, 61, 64, 100, 128, 200] } else { &[0, 8, 51, 60, 100] };
    let p = pick(ps);
    let s = pick(ss);
    let pw = any(p);
    let salt = any(s);
    for n in [1usize, 16, 31, 32, 33, 63, 64, 65, 100] {
        for c in 1..=2 {
            let mut out = vec![0u8; n];
            pbkdf2_sha256(&pw, &salt, c, &mut out);
            eq("key", &out, &spec::pbkdf2(&pw, &salt, c, n));
        }
    }
}

/// Iteration counts.
pub fn h_pbkdf2_iter() {
    let l: &[usize] = if thorough() {
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 300]
    } else {
        &[1, 2, 3, 4, 5, 8, 16, 33, 64, 65, 128, 255, 256, 257]
    };
    let c = pick(l);
    let pw = any(8);
    let salt = any(5);
    let n = if c < 20 { 70 } else { 20 };
    let mut out = vec![0u8; n];
    pbkdf2_sha256(&pw, &salt, c, &mut out);
    eq("key", &out, &spec::pbkdf2(&pw, &salt, c, n));
}

/// Exactly the caller's slice is written, whatever it held before.
pub fn h_pbkdf2_region() {
    let n = choose(0, if thorough() { 200 } else { 100 });
    let pw = any(6);
    let salt = any(7);
    let mut buf = any(n + 24);
    let orig = buf.clone();
    pbkdf2_sha256(&pw, &salt, 1, &mut buf[11..11 + n]);
    eq("before", &buf[..11], &orig[..11]);
    eq("after", &buf[11 + n..], &orig[11 + n..]);
    eq("key", &buf[11..11 + n], &spec::pbkdf2(&pw, &salt, 1, n));
}

/// A shorter key is a prefix of a longer one.
pub fn h_pbkdf2_prefix() {
    let c = choose(1, 3);
    let pw = any(5);
    let salt = any(9);
    let top = if thorough() { 320 } else { 130 };
    let mut long = any(top);
    pbkdf2_sha256(&pw, &salt, c, &mut long);
    let n = choose(0, top);
    let mut out = any(n);
    pbkdf2_sha256(&pw, &salt, c, &mut out);
    eq("prefix", &out, &long[..n]);
}

/// The block counter: more than 256 blocks.
pub fn h_pbkdf2_blocks() {
    let n = pick(if thorough() { &[255 * 32 + 1, 256 * 32, 257 * 32 + 9, 520 * 32 + 1] } else { &[257 * 32 + 9] });
    let pw = any(4);
    let salt = any(3);
    let mut out = vec![0; n];
    pbkdf2_sha256(&pw, &salt, 1, &mut out);
    eq("key", &out, &spec::pbkdf2(&pw, &salt, 1, n));
}

/// The core on one block, for many round counts.
pub fn h_salsa_core() {
    let top = if thorough() { 64 } else { 24 };
    let k = choose(0, top + 10);
    let rounds = if k <= top { k } else { [31, 32, 33, 64, 100, 127, 128, 255, 256, 300][k - top - 1] };
    let x = any(64);
    let mut out = any(64);
    let x0 = x.clone();
    salsa20(&x, rounds, &mut out);
    eq("core", &out, &spec::salsa_core(&x, rounds));
    eq("input kept", &x, &x0);
}

/// Whole number of blocks: each is transformed on its own, all are written.
pub fn h_salsa_many() {
    let blocks = choose(0, if thorough() { 9 } else { 5 });
    let rounds = pick(&[0, 1, 4, 10]);
    let n = 64 * blocks;
    let x = any(n);
    let mut buf = any(n + 16);
    let orig = buf.clone();
    salsa20(&x, rounds, &mut buf[8..8 + n]);
    eq("before", &buf[..8], &orig[..8]);
    eq("after", &buf[8 + n..], &orig[8 + n..]);
    for b in 0..blocks {
        eq("block", &buf[8 + 64 * b..8 + 64 * b + 64], &spec::salsa_core(&x[64 * b..64 * b + 64], rounds));
    }
    if blocks > 1 {
        cover("several blocks");
    }
}

/// scrypt with small costs.
pub fn h_scrypt_small() {
    let quick: &[[usize; 3]] = &[[1, 2, 1], [1, 4, 1], [1, 8, 1], [2, 2, 1], [2, 4, 1], [3, 2, 1], [1, 2, 2], [1, 4, 3], [2, 2, 2], [1, 16, 1], [8, 2, 1], [16, 2, 1], [33, 2, 1], [1, 2, 17], [1, 64, 1], [17, 4, 1]];
    let more: &[[usize; 3]] = &[
        [1, 2, 1], [1, 4, 1], [1, 8, 1], [2, 2, 1], [2, 4, 1], [3, 2, 1], [1, 2, 2], [1, 4, 3], [2, 2, 2], [1, 16, 1], [8, 2, 1],
        [1, 32, 1], [2, 8, 1], [2, 16, 1], [3, 4, 2], [4, 4, 1], [5, 2, 1], [8, 4, 1], [8, 2, 3], [1, 2, 8], [16, 2, 1], [1, 64, 1], [33, 2, 1], [1, 2, 17], [17, 4, 1], [64, 2, 1], [2, 64, 2], [1, 2, 33], [1, 128, 1],
    ];
    let l = if thorough() { more } else { quick };
    let [r, n, p] = l[choose(0, l.len() - 1)];
    let (a, b, o) = if n > 8 || r > 4 { (4, 4, 40) } else { [(0, 0, 64), (8, 4, 64), (65, 33, 20), (3, 64, 33)][choose(0, 3)] };
    let pw = any(a);
    let salt = any(b);
    let mut out = any(o);
    let e = Scrypt::new(r, n, p).derive(&pw, &salt, &mut out);
    check("accepted", e.is_ok());
    eq("key", &out, &spec::scrypt(&pw, &salt, r, n, p, o));
}

/// Sizes at which an index of eight bits would wrap.
pub fn h_scrypt_large() {
    let l = [[1, 128, 1], [1, 256, 1], [1, 512, 1], [2, 256, 1], [65, 2, 1], [129, 2, 1], [257, 2, 1], [1, 2, 65], [1, 2, 129], [1, 2, 257], [9, 8, 9], [16, 4, 17]];
    let [r, n, p] = l[choose(0, l.len() - 1)];
    // one passphrase: a symbolic index into that many blocks is too much
    let mut out = any(33);
    let e = Scrypt::new(r, n, p).derive(b"pass", b"NaCl", &mut out);
    check("accepted", e.is_ok());
    eq("key", &out, &spec::scrypt(b"pass", b"NaCl", r, n, p, 33));
}

fn basic_ok(r: usize, n: usize, p: usize) -> bool {
    r >= 1 && n >= 2 && n & (n - 1) == 0 && p >= 1
}
// the documented upper limits: n < 2^(16 r), 4 r p <= 2^32 - 1
fn n_in_range(r: usize, n: usize) -> bool {
    r >= 4 || (n as u64) < 1u64 << (16 * (r as u32 & 3))
}
fn p_in_range(r: usize, p: usize) -> bool {
    p == 0 || r == 0 || (p <= 0x3fff_ffff && r <= 0x3fff_ffff && (p as u64).wrapping_mul(r as u64) <= 0x3fff_ffff)
}

fn same_kind(e: &ScryptError, r: usize, n: usize, p: usize) -> bool {
    match e {
        ScryptError::RIsTooSmall => r < 1,
        ScryptError::NIsTooSmall => n < 2,
        ScryptError::NIsNotAPowerOfTwo => n < 1 || n & (n - 1) != 0,
        ScryptError::PIsTooSmall => p < 1,
        #[allow(unreachable_patterns)]
        _ => !n_in_range(r, n) || !p_in_range(r, p),
    }
}

/// Any r, n, p at all: work starts only on acceptable parameters; a refusal
/// names a real reason and leaves the output alone.
pub fn h_scrypt_params() {
    let (r, n, p) = (any_usize(), any_usize(), any_usize());
    // parameters beyond the documented upper limits are the subject of
    // h_scrypt_kf_n and h_scrypt_kf_p
    assume(n_in_range(r, n) && p_in_range(r, p));
    let ok = basic_ok(r, n, p);
    deep("accepts only valid parameters", ok);
    let mut out = [0u8; 8];
    let orig = any(8);
    out.copy_from_slice(&orig);
    let e = Scrypt::new(r, n, p).derive(&[], &[], &mut out);
    // only refusals get here
    match e {
        Ok(()) => check("accepts only valid parameters", ok),
        Err(e) => {
            check("refuses only invalid parameters", !ok);
            check("names the reason", same_kind(&e, r, n, p));
            eq("output kept", &out, &orig);
            cover("refused");
        }
    }
}

/// The documented limit n < 2^(16 r).
pub fn h_scrypt_kf_n() {
    let (r, n, p) = (any_usize(), any_usize(), any_usize());
    assume(basic_ok(r, n, p) && !n_in_range(r, n) && p_in_range(r, p));
    deep("n below 2^(16 r)", false);
    let mut out = [0u8; 8];
    let e = Scrypt::new(r, n, p).derive(&[], &[], &mut out);
    check("n below 2^(16 r)", e.is_err());
}

/// The documented limit p <= (2^32 - 1) / (4 r).
pub fn h_scrypt_kf_p() {
    let (r, n, p) = (any_usize(), any_usize(), any_usize());
    assume(basic_ok(r, n, p) && n_in_range(r, n) && !p_in_range(r, p));
    deep("p at most (2^32 - 1) / (4 r)", false);
    let mut out = [0u8; 8];
    let e = Scrypt::new(r, n, p).derive(&[], &[], &mut out);
    check("p at most (2^32 - 1) / (4 r)", e.is_err());
}

/// Small concrete parameters, where acceptance runs to completion.
pub fn h_scrypt_small_params() {
    let (r, n, p) = (choose(0, 2), choose(0, 9), choose(0, 2));
    let orig = any(12);
    let mut out = orig.clone();
    let e = Scrypt::new(r, n, p).derive(b"pw", b"salt", &mut out);
    match e {
        Ok(()) => {
            check("accepts only valid parameters", basic_ok(r, n, p));
            eq("key", &out, &spec::scrypt(b"pw", b"salt", r, n, p, 12));
            cover("accepted");
        }
        Err(e) => {
            check("refuses only invalid parameters", !basic_ok(r, n, p));
            check("names the reason", same_kind(&e, r, n, p));
            eq("output kept", &out, &orig);
            cover("refused");
        }
    }
}

/// One object used repeatedly, output lengths, previous output contents.
pub fn h_scrypt_reuse() {
    let r = choose(1, 2);
    let s = Scrypt::new(r, 2, 1);
    let pw = any(3);
    let salt = any(5);
    let top = if thorough() { 520 } else { 270 };
    let part = choose(0, 7);
    let mut long = any(top);
    check("ok", s.derive(&pw, &salt, &mut long).is_ok());
    let other = any(9);
    let mut o2 = any(10);
    check("ok", s.derive(&other, &salt, &mut o2).is_ok());
    eq("other", &o2, &spec::scrypt(&other, &salt, r, 2, 1, 10));
    for n in (part..=top).step_by(8) {
        let mut out = any(n);
        check("ok", s.derive(&pw, &salt, &mut out).is_ok());
        eq("prefix", &out, &long[..n]);
    }
    let mut buf = any(60);
    let orig = buf.clone();
    check("ok", s.derive(&pw, &salt, &mut buf[10..50]).is_ok());
    eq("before", &buf[..10], &orig[..10]);
    eq("after", &buf[50..], &orig[50..]);
    eq("region", &buf[10..50], &long[..40]);
}

/// Long passwords and salts.
pub fn h_pbkdf2_long() {
    let n = crate::hash::long_size();
    let which = choose(0, 1);
    if which == 1 && n > 10000 {
        return; // the password makes every block symbolic
    }
    let (pw, salt) = if which == 0 { (crate::hash::long_bytes(n), any(9)) } else { (any(11), crate::hash::long_bytes(n)) };
    let mut out = [0u8; 40];
    pbkdf2_sha256(&pw, &salt, 2, &mut out);
    eq("key", &out, &spec::pbkdf2(&pw, &salt, 2, 40));
}

/// Passwords and salts of every length up to a few blocks.
pub fn h_pbkdf2_lengths() {
    let n = choose(0, if thorough() { 520 } else { 270 });
    let (a, b) = (any(n), any(6));
    let mut out = [0u8; 33];
    pbkdf2_sha256(&a, &b, 1, &mut out);
    eq("password", &out, &spec::pbkdf2(&a, &b, 1, 33));
    pbkdf2_sha256(&b, &a, 1, &mut out);
    eq("salt", &out, &spec::pbkdf2(&b, &a, 1, 33));
}

/// Many blocks through Salsa20/n.
pub fn h_salsa_long() {
    let blocks = pick(if thorough() { &[16, 17, 63, 64, 65, 129, 257, 513, 1025] } else { &[16, 17, 64, 65, 129, 257] });
    let rounds = choose(0, 1) * 4;
    let x = any(64 * blocks);
    let mut out = any(64 * blocks);
    salsa20(&x, rounds, &mut out);
    for b in 0..blocks {
        eq("block", &out[64 * b..64 * b + 64], &spec::salsa_core(&x[64 * b..64 * b + 64], rounds));
    }
}

/// Any 64-bit iteration count: whatever ends within the step bound has done
/// an amount of work that grows with the count.
pub fn h_pbkdf2_count() {
    let c = any_usize();
    let mut out = [0u8; 20];
    fuel(if thorough() { 100_000_000 } else { 30_000_000 });
    pbkdf2_sha256(b"pw", b"salt", c, &mut out);
    fuel(0);
    check("every iteration is done", work() / 20 >= c as u64);
    cover("finished");
}

/// Any 64-bit round count.
pub fn h_salsa_count() {
    let c = any_usize();
    let x = [9u8; 64];
    let mut out = [0u8; 64];
    fuel(if thorough() { 4_000_000 } else { 800_000 });
    salsa20(&x, c, &mut out);
    fuel(0);
    check("every round is done", work() / 2 >= c as u64);
    cover("finished");
}

/// Blocks far into a long key: the counter's higher bytes.
pub fn h_pbkdf2_far() {
    let far = [250, 65530, 70000][choose(0, 2)];
    let n = 32 * (far + 14) + 5;
    let pw = any(7);
    let salt = any(6);
    let mut out = vec![0u8; n];
    skip(10_000, far as u64);
    pbkdf2_sha256(&pw, &salt, 1, &mut out);
    skip(0, 0);
    for b in [0, 1, 2, far + 7, far + 8, far + 9, far + 10, far + 11, far + 12, far + 13] {
        eq("block", &out[32 * b..32 * b + 32], &spec::pbkdf2_block(&pw, &salt, 1, b as u32 + 1));
    }
    eq("last block", &out[n - 5..], &spec::pbkdf2_block(&pw, &salt, 1, far as u32 + 15)[..5]);
}

/// Derivations one after another that differ in one thing each.
pub fn h_pbkdf2_history() {
    let (p1, p2, s1, s2) = (any(70), any(70), any(4), any(4));
    let l = choose(0, 3);
    let (p1, p2) = match l {
        0 => (&p1[..5], &p2[..5]),
        1 => (&p1[..64], &p2[..64]),
        2 => (&p1[..], &p2[..]),
        _ => (&p1[..5], &p1[..6]),
    };
    let calls: [(&[u8], &[u8], usize, usize); 10] = [
        (p1, &s1, 1, 33),
        (p1, &s2, 1, 33),
        (p2, &s2, 1, 33),
        (p2, &s1, 1, 33),
        (p2, &s1, 2, 33),
        (p2, &s1, 3, 20),
        (p1, &s1, 3, 65),
        (p1, &s1[..3], 3, 65),
        (p1, &s1, 3, 65),
        (p1, &s1, 1, 33),
    ];
    for (p, s, c, n) in calls {
        let mut o = vec![0u8; n];
        pbkdf2_sha256(p, s, c, &mut o);
        eq("key", &o, &spec::pbkdf2(p, s, c, n));
    }
}

/// Blocks one after another, with the rounds and the input changing.
pub fn h_salsa_history() {
    let (a, b) = (any(64), any(64));
    for (x, r) in [(&a, 1), (&a, 2), (&b, 2), (&b, 1), (&a, 1), (&a, 4), (&a, 0), (&b, 4), (&a, 4)] {
        let mut o = [0u8; 64];
        salsa20(x, r, &mut o);
        eq("core", &o, &spec::salsa_core(x, r));
    }
    let two = [&a[..], &b[..]].concat();
    let mut o = [0u8; 128];
    salsa20(&two, 4, &mut o);
    eq("core", &o, &[spec::salsa_core(&a, 4), spec::salsa_core(&b, 4)].concat());
}

/// Derivations one after another that differ in one thing each, on one object
/// and on several.
pub fn h_scrypt_history() {
    let r = choose(1, 2);
    let n = choose(0, 1);
    let s = Scrypt::new(r, 2, 1);
    let (pw, pw2, salt, salt2) = (any(3), any(3), any(5), any(5));
    let t = Scrypt::new(3 - r, 2, 1);
    let u = Scrypt::new(r, 4, 1);
    let v = Scrypt::new(r, 2, 2);
    let mut calls: Vec<(&Scrypt, &[u8], &[u8], usize, usize, usize)> = vec![
        (&s, &pw, &salt, r, 2, 1),
        (&s, &pw, &salt2, r, 2, 1),
        (&s, &pw2, &salt2, r, 2, 1),
        (&s, &pw2, &salt, r, 2, 1),
        (&t, &pw2, &salt, 3 - r, 2, 1),
        (&u, &pw2, &salt, r, 4, 1),
        (&v, &pw2, &salt, r, 2, 2),
        (&s, &pw, &salt, r, 2, 1),
    ];
    if n == 1 {
        calls.reverse();
    }
    for c in calls {
        let mut o = [0u8; 33];
        check("ok", c.0.derive(c.1, c.2, &mut o).is_ok());
        eq("one changed", &o, &spec::scrypt(c.1, c.2, c.3, c.4, c.5, 33));
    }
}
