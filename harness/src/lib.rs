//! Harnesses: one function per claim, all through dumb-crypto's public API.
//! `any*` yields arbitrary values (solver variables under the executor),
//! `choose`/`pick` ranges over a stated finite set of shapes.
#![allow(clippy::all)]

pub mod api;
pub mod spec;

mod aes;
mod cbc;
mod hash;
mod kdf;
mod mem;
mod misc;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C-unwind" fn $f() { $m::$f() } )*
        pub static HARNESSES: &[(&str, fn())] = &[ $( (stringify!($f), $m::$f as fn()) ),* ];
    };
}
harnesses!(
    hash::h_sha_oneshot,
    hash::h_sha_two,
    hash::h_sha_three,
    hash::h_sha_pieces,
    hash::h_hmac_shapes,
    hash::h_hmac_split,
    hash::h_hmac_three,
    kdf::h_pbkdf2_shapes,
    kdf::h_pbkdf2_iter,
    kdf::h_pbkdf2_region,
    kdf::h_pbkdf2_prefix,
    kdf::h_pbkdf2_blocks,
    kdf::h_salsa_core,
    kdf::h_salsa_many,
    kdf::h_scrypt_small,
    kdf::h_scrypt_large,
    kdf::h_scrypt_params,
    kdf::h_scrypt_kf_n,
    kdf::h_scrypt_kf_p,
    kdf::h_scrypt_small_params,
    kdf::h_scrypt_reuse,
    aes::h_aes_encrypt,
    aes::h_aes_decrypt,
    aes::h_aes_roundtrip,
    aes::h_aes_init,
    aes::h_aes_rekey,
    cbc::h_cbc_encrypt,
    cbc::h_cbc_enc_split,
    cbc::h_cbc_enc_three,
    cbc::h_cbc_roundtrip,
    cbc::h_cbc_dec_split,
    cbc::h_cbc_dec_three,
    cbc::h_cbc_hold,
    cbc::h_unpad,
    cbc::h_unpad_partial,
    cbc::h_cbc_uninit,
    cbc::h_cbc_uninit_seq,
    cbc::h_cbc_early_close,
    cbc::h_cbc_bad_key,
    mem::h_mem_hash,
    mem::h_mem_cbc,
    mem::h_mem_cbc_far,
    mem::h_mem_cbc_lives,
    mem::h_mem_aes,
    mem::h_mem_kdf,
    hash::h_sha_long,
    hash::h_hmac_long,
    kdf::h_pbkdf2_long,
    kdf::h_pbkdf2_lengths,
    kdf::h_salsa_long,
    hash::h_hmac_history,
    hash::h_sha_history,
    kdf::h_pbkdf2_history,
    kdf::h_scrypt_history,
    kdf::h_salsa_history,
    cbc::h_cbc_long,
    cbc::h_cbc_bulk,
    cbc::h_cbc_dec_long,
    cbc::h_cbc_stream,
    cbc::h_cbc_rekey,
    cbc::h_cbc_stream_leap,
    cbc::h_cbc_leap,
    aes::h_aes_history,
    aes::h_aes_leap,
    cbc::h_cbc_dec_leap,
    hash::h_sha_leap,
    hash::h_hmac_leap,
    hash::h_sha_cut_leap,
    hash::h_hmac_cut_leap,
    misc::h_total_errors,
    kdf::h_pbkdf2_count,
    kdf::h_salsa_count,
    kdf::h_pbkdf2_far,
    misc::h_iso_hash,
    misc::h_iso_aes,
    misc::h_iso_cbc,
    misc::h_total_hash,
    misc::h_total_cbc,
);
