use crate::api::*;
use crate::spec;
use dumb_crypto::hmac::HMac;
use dumb_crypto::sha256::SHA256;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = SHA256::new();
    for p in parts {
        s.update(p);
    }
    s.digest()
}

/// One message, one update: every length in a range, arbitrary content.
pub fn h_sha_oneshot() {
    let top = if thorough() { 600 } else { 210 };
    let n = choose(0, top + 8);
    let n = if n <= top { n } else { [247, 248, 255, 256, 257, 311, 312, 1024][n - top - 1] };
    let m = any(n);
    let want = spec::sha256(&m);
    eq("digest", &sha(&[&m]), &want);
    let mut d = SHA256::default();
    d.update(&m);
    eq("default", &d.digest(), &want);
    if n == 120 {
        cover("two-block tail");
    }
}

/// Two pieces, every split point.
pub fn h_sha_two() {
    let top = if thorough() { 200 } else { 136 };
    let n = choose(0, top);
    let m = any(n);
    let want = spec::sha256(&m);
    for a in 0..=n {
        eq("two", &sha(&[&m[..a], &m[a..]]), &want);
    }
    eq("empty pieces", &sha(&[&[], &m[..n / 2], &[], &m[n / 2..], &[]]), &want);
}

/// Three pieces.
pub fn h_sha_three() {
    let ns: &[usize] = if thorough() { &[3, 63, 64, 65, 66, 119, 120, 127, 128, 129, 130, 191, 192, 193] } else { &[64, 65, 128, 130] };
    let n = pick(ns);
    let a = choose(0, n);
    let m = any(n);
    let want = spec::sha256(&m);
    let step = if thorough() || n < 100 { 1 } else { 5 };
    let mut b = a;
    while b <= n {
        eq("three", &sha(&[&m[..a], &m[a..b], &m[b..]]), &want);
        b += step;
    }
}

/// Many pieces of one size.
pub fn h_sha_pieces() {
    let k = choose(1, if thorough() { 200 } else { 130 });
    for n in [190usize, 259] {
        let m = any(n);
        let want = spec::sha256(&m);
        let mut s = SHA256::new();
        for c in m.chunks(k) {
            s.update(c);
        }
        eq("pieces", &s.digest(), &want);
        // growing pieces
        let mut s = SHA256::new();
        let (mut at, mut len) = (0, k % 9);
        while at < n {
            let e = (at + len).min(n);
            s.update(&m[at..e]);
            at = e;
            len += 1 + k % 7;
        }
        eq("growing", &s.digest(), &want);
    }
}

fn mac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut s = HMac::new(key);
    for p in parts {
        s.update(p);
    }
    s.digest()
}

/// Every key length in a range against several message lengths.
pub fn h_hmac_shapes() {
    let top = if thorough() { 300 } else { 150 };
    let k = choose(0, top + 6);
    let k = if k <= top { k } else { [183, 184, 192, 256, 320, 1000][k - top - 1] };
    let key = any(k);
    let ms: &[usize] = if thorough() { &[0, 1, 9, 28, 54, 55, 56, 63, 64, 65, 119, 120, 128, 200] } else { &[0, 9, 55, 56, 64, 120] };
    for &n in ms {
        let m = any(n);
        eq("mac", &mac(&key, &[&m]), &spec::hmac(&key, &m));
    }
    if k > 64 {
        cover("long key");
    }
}

pub fn h_hmac_split() {
    let ks: &[usize] = if thorough() { &[0, 1, 20, 32, 63, 64, 65, 131] } else { &[0, 64, 65] };
    let k = pick(ks);
    let n = choose(0, if thorough() { 140 } else { 72 });
    let key = any(k);
    let m = any(n);
    let want = spec::hmac(&key, &m);
    for a in 0..=n {
        eq("two", &mac(&key, &[&m[..a], &m[a..]]), &want);
    }
    eq("empty pieces", &mac(&key, &[&[], &m, &[]]), &want);
}

pub fn h_hmac_three() {
    let n = pick(&[63, 64, 65, 130]);
    let a = choose(0, 130);
    let key = any(17);
    let m = any(n);
    if a <= n {
        let want = spec::hmac(&key, &m);
        let step = if thorough() { 1 } else { 13 };
        let mut b = a;
        while b <= n {
            eq("three", &mac(&key, &[&m[..a], &m[a..b], &m[b..]]), &want);
            b += step;
        }
        let mut h = HMac::new(&key);
        for c in m.chunks(a.max(1)) {
            h.update(c);
        }
        eq("pieces", &h.digest(), &want);
    }
}

/// Sizes around the powers of two and some in between.
pub fn long_size() -> usize {
    let top = if thorough() { 18 } else { 16 };
    let k = choose(0, 4 * (top - 8) - 1);
    let b = 1usize << (9 + k / 4);
    match k % 4 {
        0 => b - 1,
        1 => b,
        2 => b + 1,
        _ => b + b / 2 - 7,
    }
}

/// n bytes: all arbitrary when there are few; otherwise a fixed bulk and an
/// arbitrary tail.
pub fn long_bytes(n: usize) -> Vec<u8> {
    if n <= 1100 {
        return any(n);
    }
    let t = 140;
    let mut v = Vec::with_capacity(n);
    let mut x = 7u8;
    for _ in 0..n - t {
        v.push(x);
        x = x.wrapping_mul(5).wrapping_add(77);
    }
    v.extend_from_slice(&any(t));
    v
}

/// Long messages: in one piece, and with a short first or last piece.
pub fn h_sha_long() {
    let n = long_size();
    let m = long_bytes(n);
    let want = spec::sha256(&m);
    eq("digest", &sha(&[&m]), &want);
    let a = 1 + n % 64;
    eq("short first", &sha(&[&m[..a], &m[a..]]), &want);
    eq("short last", &sha(&[&m[..n - a], &m[n - a..]]), &want);
    eq("halves", &sha(&[&m[..n / 2], &m[n / 2..]]), &want);
}

/// Long messages and long keys under HMAC.
pub fn h_hmac_long() {
    let n = long_size();
    let which = choose(0, 1);
    let (key, m) = if which == 0 { (long_bytes(n), any(9)) } else { (any(40), long_bytes(n)) };
    if which == 1 && n > 10000 {
        return; // the key makes every block symbolic
    }
    let want = spec::hmac(&key, &m);
    eq("mac", &mac(&key, &[&m]), &want);
    let a = m.len() / 3;
    eq("two", &mac(&key, &[&m[..a], &m[a..]]), &want);
}

fn state_bytes(cur: &[u32; 8], prev: &[u32; 8], blk: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for w in cur.iter().chain(prev.iter()) {
        o.extend_from_slice(&w.to_le_bytes());
    }
    o.extend_from_slice(blk);
    o
}
fn words(b: &[u8]) -> [u32; 8] {
    let mut o = [0u32; 8];
    for i in 0..8 {
        o[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    o
}
const LEVELS: [usize; 4] = [16, 24, 32, 54];
const TAILS: [usize; 12] = [0, 1, 8, 55, 56, 63, 64, 65, 119, 120, 128, 130];

/// After any number of blocks below 2^54: one more block advances the state
/// as the specification's, and any tail gives the digest of the whole message,
/// total length included.  By induction over the blocks.
pub fn h_sha_leap() {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = LEVELS[choose(0, 3)];
    let mut s = SHA256::new();
    let mut cur = spec::IV;
    for _ in 0..4 {
        let b = any(64);
        s.update(&b);
        let prev = cur;
        spec::sha_compress(&mut cur, &b);
        snap(&s, &state_bytes(&cur, &prev, &b));
    }
    let m = any_bits(bits);
    // the step from m to m + 1
    let (prev, b) = (words(&any(32)), any(64));
    let mut cur = prev;
    spec::sha_compress(&mut cur, &b);
    if !leap(&mut s, &state_bytes(&cur, &prev, &b), m, width) {
        return;
    }
    let b = any(64);
    quiet(true);
    s.update(&b);
    quiet(false);
    let prev = cur;
    spec::sha_compress(&mut cur, &b);
    if !leap_closed(&s, &state_bytes(&cur, &prev, &b), m + 1) {
        return;
    }
    cover("regular over blocks");
    for t in TAILS {
        let (prev, b) = (words(&any(32)), any(64));
        let mut cur = prev;
        spec::sha_compress(&mut cur, &b);
        if leap(&mut s, &state_bytes(&cur, &prev, &b), m, width) {
            let tail = any(t);
            s.update(&tail);
            eq("digest", &s.digest(), &spec::sha_finish(&mut cur, 64 * (m + 4), &tail));
        }
    }
}

/// The same for a MAC: the inner hash has taken the padded key and m blocks.
pub fn h_hmac_leap() {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = LEVELS[choose(0, 3)];
    let key = any(pick(&[20, 64]));
    let mut k0 = [0u8; 64];
    k0[..key.len()].copy_from_slice(&key);
    let mut s = HMac::new(&key);
    let mut cur = spec::IV;
    let ipad: Vec<u8> = k0.iter().map(|x| x ^ 0x36).collect();
    let opad: Vec<u8> = k0.iter().map(|x| x ^ 0x5c).collect();
    spec::sha_compress(&mut cur, &ipad);
    for _ in 0..4 {
        let b = any(64);
        s.update(&b);
        let prev = cur;
        spec::sha_compress(&mut cur, &b);
        snap(&s, &state_bytes(&cur, &prev, &b));
    }
    let m = any_bits(bits);
    let (prev, b) = (words(&any(32)), any(64));
    let mut cur = prev;
    spec::sha_compress(&mut cur, &b);
    if !leap(&mut s, &state_bytes(&cur, &prev, &b), m, width) {
        return;
    }
    let b = any(64);
    quiet(true);
    s.update(&b);
    quiet(false);
    let prev = cur;
    spec::sha_compress(&mut cur, &b);
    if !leap_closed(&s, &state_bytes(&cur, &prev, &b), m + 1) {
        return;
    }
    cover("regular over blocks");
    for t in [0, 9, 55, 56, 64, 119, 120] {
        let (prev, b) = (words(&any(32)), any(64));
        let mut cur = prev;
        spec::sha_compress(&mut cur, &b);
        if leap(&mut s, &state_bytes(&cur, &prev, &b), m, width) {
            let tail = any(t);
            s.update(&tail);
            let inner = spec::sha_finish(&mut cur, 64 * (m + 5), &tail);
            let mut outer = spec::IV;
            spec::sha_compress(&mut outer, &opad);
            eq("mac", &s.digest(), &spec::sha_finish(&mut outer, 64, &inner));
        }
    }
}

/// A hash or a MAC fed from a history.
trait Feed {
    fn feed(&mut self, b: &[u8]);
    fn end(&mut self) -> [u8; 32];
}
impl Feed for SHA256 {
    fn feed(&mut self, b: &[u8]) {
        self.update(b)
    }
    fn end(&mut self) -> [u8; 32] {
        self.digest()
    }
}
impl Feed for HMac {
    fn feed(&mut self, b: &[u8]) {
        self.update(b)
    }
    fn end(&mut self) -> [u8; 32] {
        self.digest()
    }
}

/// Any number of blocks below 2^54, cut the same way each: `carry` bytes
/// ahead, then pieces of `piece` bytes with empty ones in between.
fn cut_leap<T: Feed>(s: &mut T, mut cur: [u32; 8], blocks: u64, finish: &dyn Fn(&mut [u32; 8], u64, &[u8]) -> Vec<u8>) {
    let width = [8, 4, 2, 1][choose(0, 3)];
    let bits = [16, 30, 54][choose(0, 2)];
    let (carry, piece) = [(0, 33), (5, 64), (0, 1), (63, 8)][choose(0, 3)];
    let step = |s: &mut T, b: &[u8]| {
        for p in b.chunks(piece) {
            s.feed(p);
        }
        s.feed(&[]);
    };
    let mut held = any(carry);
    s.feed(&held);
    for _ in 0..4 {
        let b = any(64);
        step(s, &b);
        let all = [&held[..], &b[..]].concat();
        let prev = cur;
        spec::sha_compress(&mut cur, &all[..64]);
        held = all[64..].to_vec();
        snap(s, &state_bytes(&cur, &prev, &all));
    }
    let m = any_bits(bits);
    let again = |s: &mut T| {
        let (prev, all) = (words(&any(32)), any(64 + carry));
        let mut cur = prev;
        spec::sha_compress(&mut cur, &all[..64]);
        (leap(s, &state_bytes(&cur, &prev, &all), m, width), cur, all[64..].to_vec())
    };
    let (ok, mut cur, held) = again(s);
    if !ok {
        return;
    }
    let b = any(64);
    quiet(true);
    step(s, &b);
    quiet(false);
    let all = [&held[..], &b[..]].concat();
    let prev = cur;
    spec::sha_compress(&mut cur, &all[..64]);
    if !leap_closed(s, &state_bytes(&cur, &prev, &all), m + 1) {
        return;
    }
    cover("regular over blocks");
    for t in [0, 1, 50, 59, 64, 120] {
        let (ok, mut cur, held) = again(s);
        if ok {
            let tail = any(t);
            s.feed(&tail[..t / 2]);
            s.feed(&tail[t / 2..]);
            eq("digest", &s.end(), &finish(&mut cur, 64 * (m + blocks), &[held, tail].concat()));
        }
    }
}

pub fn h_sha_cut_leap() {
    cut_leap(&mut SHA256::new(), spec::IV, 4, &|cur, n, tail| spec::sha_finish(cur, n, tail).to_vec());
}

pub fn h_hmac_cut_leap() {
    let key = any(20);
    let mut k0 = [0u8; 64];
    k0[..20].copy_from_slice(&key);
    let ipad: Vec<u8> = k0.iter().map(|x| x ^ 0x36).collect();
    let opad: Vec<u8> = k0.iter().map(|x| x ^ 0x5c).collect();
    let mut cur = spec::IV;
    spec::sha_compress(&mut cur, &ipad);
    cut_leap(&mut HMac::new(&key), cur, 5, &|cur, n, tail| {
        let inner = spec::sha_finish(cur, n, tail);
        let mut outer = spec::IV;
        spec::sha_compress(&mut outer, &opad);
        spec::sha_finish(&mut outer, 64, &inner).to_vec()
    });
}

/// Hashes and codes one after another that differ in one thing each.
pub fn h_hmac_history() {
    let n = pick(&[0, 5, 64, 65, 100]);
    let (k1, k2, m1, m2) = (any(n), any(n), any(60), any(60));
    let calls: [(&[u8], &[u8]); 8] = [
        (&k1, &m1),
        (&k2, &m1),
        (&k2, &m2),
        (&k1, &m2),
        (&k1[..n / 2], &m2),
        (&k1[..n / 2], &m2[..59]),
        (&k1, &m1[..59]),
        (&k1, &m1),
    ];
    for (k, m) in calls {
        eq("mac", &mac(k, &[m]), &spec::hmac(k, m));
    }
    // one instance left unfinished while another is made
    let mut a = HMac::new(&k1);
    a.update(&m1[..30]);
    let mut b = HMac::new(&k2);
    b.update(&m2[..30]);
    let mut c = HMac::new(&k1);
    a.update(&m1[30..]);
    eq("first", &a.digest(), &spec::hmac(&k1, &m1));
    c.update(&m2);
    b.update(&m2[30..]);
    eq("third", &c.digest(), &spec::hmac(&k1, &m2));
    eq("second", &b.digest(), &spec::hmac(&k2, &m2));
}

pub fn h_sha_history() {
    let n = pick(&[0, 3, 55, 64, 120]);
    let (a, b) = (any(n), any(n));
    for m in [&a[..], &b[..], &a[..n / 2], &b[..n / 2], &a[..], &a[..n - n % 2]] {
        eq("digest", &sha(&[m]), &spec::sha256(m));
    }
    let mut x = SHA256::new();
    x.update(&a);
    let mut y = SHA256::new();
    y.update(&b[..n / 2]);
    let z = SHA256::default();
    drop(z);
    y.update(&b[n / 2..]);
    eq("second", &y.digest(), &spec::sha256(&b));
    eq("first", &x.digest(), &spec::sha256(&a));
    eq("default", &SHA256::default().digest(), &spec::sha256(&[]));
}
