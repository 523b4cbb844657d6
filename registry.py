"""Which harnesses decide which property, and what must be witnessed."""

# property -> (harnesses, witnesses that must be reached, bounds in words)
PROPS = {
    "C01": dict(h=["h_sha_oneshot", "h_sha_long", "h_sha_history"], covers=["two-block tail"],
                bounds="about 30 longer messages up to 98000 bytes (every byte symbolic up to 1100, beyond that the last 140); message length 0..210 and 247,248,255,256,257,311,312,1024 bytes (thorough 0..600 and 1024); every byte symbolic; several messages one after another"),
    "C02": dict(h=["h_sha_two", "h_sha_three", "h_sha_pieces", "h_sha_cut_leap"], covers=[], hopes=["regular over blocks"],
                bounds="two pieces: every split of every length 0..136 (thorough 0..200); three pieces: lengths 64,65,128,130, all first cuts (thorough 14 lengths, all cut pairs); equal and growing pieces of 1..130 (200) bytes over 190 and 259 byte messages; any number of blocks below 2^54 each cut in the same way (4 ways, shifted starts, empty pieces), by induction"),
    "C03": dict(h=["h_sha_leap", "h_hmac_leap", "h_sha_long"], covers=[], hopes=["regular over blocks"],
                technique="symbolic execution of the crate's LLVM IR with an inductive generalisation over the block count, decided by z3",
                bounds="any number of 64-byte blocks below 2^54 (every total length below 2^60 bytes) from any hash state, fed a block at a time, then a tail of 12 lengths up to 130 bytes; the step is shown to keep the generalised state (induction); about 30 messages up to 98000 bytes whole and cut in two"),
    "C04": dict(h=["h_hmac_shapes", "h_hmac_long", "h_hmac_history"], covers=["long key"],
                bounds="key length 0..150 (thorough 0..300) and 183..1000 in steps, message lengths 0,9,55,56,64,120 (thorough 14 lengths up to 200); about 30 longer keys and messages up to 98000 bytes; several keys and messages one after another"),
    "C05": dict(h=["h_hmac_split", "h_hmac_three", "h_hmac_long", "h_hmac_cut_leap"], covers=[], hopes=["regular over blocks"],
                bounds="every split of messages of 0..72 (140) bytes for key lengths 0,64,65 (8 lengths); three and many pieces of 63,64,65,130 byte messages; two pieces of messages of about 30 lengths up to 10000 bytes; any number of blocks below 2^54 each cut in the same way (4 ways), by induction"),
    "C06": dict(h=["h_pbkdf2_shapes", "h_pbkdf2_iter", "h_pbkdf2_long", "h_pbkdf2_lengths", "h_pbkdf2_count", "h_pbkdf2_history"], covers=[], hopes=["finished"],
                bounds="password lengths 0,9,64,65 x salt lengths 0,8,51,60,100 (thorough 14 x 14) x 9 output lengths up to 100, 1..2 iterations; iteration counts up to 257 (thorough 300) for an 8 byte password and 5 byte salt; all password and salt lengths up to 270 (520), about 30 longer ones up to 98000 bytes; for every 64-bit iteration count: a derivation that ends within 30 million IR instructions does the work the count asks for; ten derivations in a row that differ in one thing each"),
    "C07": dict(h=["h_pbkdf2_region", "h_pbkdf2_prefix", "h_pbkdf2_blocks", "h_pbkdf2_far"], covers=[], hopes=["iterations passed over"],
                bounds="output lengths 0..100 (200) inside a larger buffer; prefixes 0..130 (320); 258 blocks (thorough 521); windows of blocks around the 257th, 65537th and 70000th, reached by extrapolating the block loop's state"),
    "C08": dict(h=["h_salsa_core", "h_salsa_count", "h_salsa_history"], covers=[], hopes=["finished"],
                bounds="round counts 0..24 (64) and 31,32,33,64,100,127,128,255,256,300, all 64 input bytes symbolic; for every 64-bit round count: a call that ends within 800 thousand IR instructions does the work the count asks for; nine calls in a row"),
    "C09": dict(h=["h_salsa_many", "h_salsa_long"], covers=["several blocks"],
                bounds="0..5 (9) blocks, rounds 0,1,4,10, previous output contents symbolic; up to 257 (1025) blocks"),
    "C10": dict(h=["h_scrypt_small", "h_scrypt_large", "h_scrypt_history"], covers=[],
                bounds="(r,N,p) from 16 (thorough 30) combinations with r<=33 (64), N<=64 (128), p<=17 (33); four password/salt/output length shapes; one fixed passphrase for 12 larger combinations with r up to 257, N up to 512, p up to 257; eight derivations in a row that differ in one thing each"),
    "C11": dict(h=["h_scrypt_params", "h_scrypt_small_params", "h_scrypt_kf_n", "h_scrypt_kf_p"], covers=["refused", "accepted"],
                bounds="r, N, p: all 64-bit values up to the start of the work; r 0..2, N 0..9, p 0..2 run to completion"),
    "C12": dict(h=["h_scrypt_reuse", "h_scrypt_history"], covers=[],
                bounds="r 1..2, N=2, p=1; every output length 0..270 (520), previous output contents symbolic; eight derivations in a row that differ in one thing each"),
    "C13": dict(h=["h_aes_encrypt"], covers=[], bounds="every key of 16, 24, 32 bytes and every block"),
    "C14": dict(h=["h_aes_decrypt", "h_aes_roundtrip"], covers=[], bounds="every key of 16, 24, 32 bytes and every block"),
    "C15": dict(h=["h_aes_init", "h_aes_rekey"], covers=["accepted", "refused"],
                bounds="key lengths 0..70 (300), all contents; second key of 8 lengths"),
    "C16": dict(h=["h_cbc_encrypt", "h_cbc_long", "h_cbc_bulk", "h_cbc_leap"], covers=[], hopes=["regular over blocks"],
                bounds="message lengths 0..50 (100), every key of 16, 24, 32 bytes, every IV and content; 10 (18) longer messages up to 4112 (16385) bytes; 65552 and 131077 bytes (8 sizes) of fixed bulk and key with the last 20 arbitrary; any number of blocks below 2^58 fed in 4 ways from any chaining value (one fixed key), by induction"),
    "C17": dict(h=["h_cbc_enc_split", "h_cbc_enc_three", "h_cbc_long", "h_cbc_leap"], covers=[], hopes=["regular over blocks"],
                bounds="every split of 0..50 (70) byte messages; three and many pieces of 32 and 33 bytes (thorough 8 lengths up to 64); any number of blocks below 2^58 fed in 4 ways from any chaining value (one fixed key), by induction"),
    "C18": dict(h=["h_cbc_roundtrip", "h_cbc_dec_long", "h_cbc_bulk", "h_cbc_dec_leap"], covers=[], hopes=["regular over blocks"], bounds="message lengths 0..50 (70), every key of 16, 24, 32 bytes, IV and content; 65552 and 131077 bytes (8 sizes) of fixed bulk and key with the last 20 arbitrary; any number of blocks below 2^58 fed in 4 ways from any chaining value (one fixed key), by induction"),
    "C19": dict(h=["h_cbc_dec_split", "h_cbc_dec_three", "h_cbc_hold", "h_cbc_dec_long", "h_cbc_dec_leap"], covers=[], hopes=["regular over blocks"],
                bounds="every cut of ciphertexts of 0..33 (64) byte messages, cut pairs for 16 and 31 (7 lengths); hold-back for every cut of ciphertexts of 0..50 (80) bytes; any number of blocks below 2^58 fed in 4 ways from any chaining value (one fixed key), by induction"),
    "C20": dict(h=["h_unpad", "h_unpad_partial"], covers=["accepted", "refused"],
                bounds="0..2 (4) complete blocks of arbitrary content, 0..15 trailing bytes, several (all) cuts"),
    "C21": dict(h=["h_cbc_uninit", "h_cbc_uninit_seq"], covers=[], bounds="0..40 bytes written, with and without a refused key of 5 lengths; sequences of writes, closes and refused keys"),
    "C22": dict(h=["h_total_hash", "h_total_cbc", "h_total_errors", "h_cbc_bulk", "h_sha_leap", "h_cbc_leap", "h_cbc_dec_leap", "h_aes_leap"], covers=[],
                panics_of=["h_sha_leap", "h_cbc_leap", "h_cbc_dec_leap", "h_aes_leap"],
                bounds="message lengths 0..80 (200), 65552 and 131077 bytes under CBC; every sequence of 3 (5) operations out of 6; histories of any number of blocks (as C03, C17, C19); showing every error"),
    "C23": dict(h=["h_iso_hash", "h_iso_aes", "h_iso_cbc", "h_sha_history", "h_hmac_history", "h_pbkdf2_history", "h_scrypt_history"], covers=[],
                bounds="pairs of instances advanced alternately, 4x4, 3x3 and 3x3 shapes; hashes, codes and derivations one after another that differ in one thing each"),
    "C24": dict(h=["h_cbc_stream", "h_cbc_rekey", "h_cbc_stream_leap"], covers=[], hopes=["regular over messages"],
                bounds="three messages of 6x6 (9x9) lengths up to 33 bytes, 4 combinations of key sizes, new key or not; a new key after every prefix of 16, 17, 33 byte messages (7 lengths up to 47); any number of messages below 2^58 before one of 4 lengths (one fixed key), by induction"),
    "C25": dict(h=["h_aes_history", "h_aes_leap"], covers=[], hopes=["regular over operations"],
                bounds="every sequence of 3 (4) operations for 3 x 2 key sizes, every key and block; any number of operations below 2^58 in 3 patterns, by induction"),
    "C26": dict(h=["h_cbc_early_close", "h_cbc_bad_key"], covers=[], bounds="messages of 0,15,16,33 (10 lengths up to 48) bytes closed at every unfinished cut, once or several times, keys of 16 and 24 bytes; refused keys of 0,15,40 (7 sizes) bytes at every cut of messages and ciphertexts of 7,17 (6 lengths up to 48) bytes, keys of the three sizes"),
    "C27": dict(h=["h_mem_hash", "h_mem_cbc", "h_mem_cbc_far", "h_mem_cbc_lives", "h_mem_aes", "h_mem_kdf"], covers=[], bounds="50 (200) more calls after 20: hash and authenticator pieces of 0..130 bytes, CBC pieces of 0..48 bytes in 7 ways (one message, many, refused closes, no key, new keys, refused keys; fixed keys and bulk), 40 kilobytes (1.6 megabytes) in one message, 18 AES operations in 5 ways; whole lives of cipher and decipher of 4 lengths with arbitrary key, IV and content after a fixed one; 12 derivations with other inputs and parameters, refused ones included"),
}

# expected-violated harnesses: looked up in KNOWN_FINDINGS.json
# not suited to random native runs (arbitrary 64-bit cost parameters)
NO_RANDOM = {"h_scrypt_params", "h_scrypt_kf_n", "h_scrypt_kf_p", "h_pbkdf2_count", "h_salsa_count", "h_pbkdf2_far",
             "h_sha_leap", "h_hmac_leap", "h_sha_cut_leap", "h_hmac_cut_leap", "h_cbc_leap", "h_cbc_dec_leap", "h_cbc_stream_leap", "h_aes_leap", "h_hmac_long", "h_pbkdf2_long", "h_salsa_long", "h_cbc_long", "h_cbc_bulk", "h_cbc_dec_long"}
# states no run was seen to reach: only the native replay settles these
EXTRAPOLATED = {"h_sha_leap", "h_hmac_leap", "h_sha_cut_leap", "h_hmac_cut_leap", "h_cbc_leap", "h_cbc_dec_leap", "h_cbc_stream_leap", "h_aes_leap",
                "h_pbkdf2_far", "h_pbkdf2_count", "h_salsa_count"}
