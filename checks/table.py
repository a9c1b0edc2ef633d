"""Check table: which sources, seams and builds decide each property."""
import os, glob

_FEATURES = {k: "" for k in """NOSTR_FEATURE_NIP05 NOSTR_FEATURE_NIP10 NOSTR_FEATURE_NIP13 NOSTR_FEATURE_NIP18
NOSTR_FEATURE_NIP25 NOSTR_FEATURE_NIP26 NOSTR_FEATURE_NIP49 NOSTR_FEATURE_NIP51 NOSTR_FEATURE_NIP57 NOSTR_FEATURE_NIP65
NOSTR_FEATURE_RELAY NOSTR_FEATURE_RELAY_PROTOCOL NOSTR_FEATURE_HD_KEYS NOSTR_FEATURE_JSON_ENHANCED NOSTR_FEATURE_THREADING
NOSTR_FEATURE_CRYPTO_SECP256K1 HAVE_SECP256K1 HAVE_CJSON HAVE_LIBWEBSOCKETS HAVE_UTF8PROC HAVE_SCHNORRSIG_SIGN32""".split()}
_FEATURES["NOSTR_FEATURE_ENCODING"] = "ON"
_LIBS = ["-lssl", "-lcrypto", "-lcjson", "-lwebsockets", "-lutf8proc", "-lsecp256k1", "-lpthread", "-lm"]
_SAN = ["-fsanitize=address,alignment,bounds,signed-integer-overflow,integer-divide-by-zero,null,vla-bound,float-cast-overflow,return,unreachable",
        "-fno-sanitize-recover=all"]
_NCF = {k: "" for k in "NOSTR_FEATURE_NIP04 NOSTR_FEATURE_NIP17 NOSTR_FEATURE_NIP44 NOSTR_FEATURE_NIP46 NOSTR_FEATURE_NIP47 NOSTR_FEATURE_NIP59 NOSTR_FEATURE_CRYPTO_NOSCRYPT HAVE_NOSCRYPT".split()}
_NCI = ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "noscrypt")]
_NCSRC = ("nip17.c", "nip44.c", "nip46.c", "nip47.c", "nip47_session.c", "nip47_commands.c", "nip59.c")
BUILDS = {
    # ASan+UBSan build of the OpenSSL configuration
    "openssl": dict(cc="clang", features=_FEATURES, cflags=_SAN, ldflags=_SAN, libs=_LIBS),
    "mbedtls": dict(cc="clang", features=dict(_FEATURES, HAVE_MBEDTLS=""), cflags=_SAN, ldflags=_SAN,
                    libs=["-lmbedcrypto"] + _LIBS),
    # the NIP-51 private-item code is compiled; the harness supplies nostr_nip44_encrypt/decrypt
    "seam44": dict(cc="clang", features=dict(_FEATURES, NOSTR_FEATURE_NIP44=""), cflags=_SAN, ldflags=_SAN, libs=_LIBS),
    # the preferred backend: everything that needs noscrypt is compiled against lib/noscrypt/noscrypt.h (lib/ncshim.c)
    "noscrypt": dict(cc="clang", features=dict(_FEATURES, **_NCF), cflags=_SAN + _NCI, ldflags=_SAN, mcflags=_NCI, libs=_LIBS, extra_src=_NCSRC, extra_lib=["ncshim.c"]),
    "noscryptm": dict(cc="clang", features=dict(_FEATURES, HAVE_MBEDTLS="", **_NCF), cflags=_SAN + _NCI, ldflags=_SAN, mcflags=_NCI,
                      libs=["-lmbedcrypto"] + _LIBS, extra_src=_NCSRC, extra_lib=["ncshim.c"]),
    "schednc": dict(cc="clang", features=dict(_FEATURES, **_NCF), libflags=["-fsanitize=thread"], ldflags=["-no-pie"], cflags=["-fno-pie"] + _NCI, mcflags=_NCI, libs=_LIBS, extra_src=_NCSRC, extra_lib=["ncshim.c"]),
    # unsanitized, for heavy enumerations
    "plain": dict(cc="gcc", features=_FEATURES, cflags=["-O2"], libs=_LIBS),
    # instrumented with -fsanitize=thread whose callbacks are lib/mcsched.c's own (no TSan runtime)
    "sched": dict(cc="clang", features=_FEATURES, libflags=["-fsanitize=thread"], ldflags=["-no-pie"], cflags=["-fno-pie"], libs=_LIBS),
    "schedm": dict(cc="clang", features=dict(_FEATURES, HAVE_MBEDTLS=""), libflags=["-fsanitize=thread"], ldflags=["-no-pie"], cflags=["-fno-pie"],
                   libs=["-lmbedcrypto"] + _LIBS),
}
SCHED_WRAPS = """pthread_create pthread_join pthread_detach pthread_self pthread_equal pthread_mutex_init pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal
pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock pthread_once usleep sleep nanosleep sched_yield
strlen strcmp strncmp strcpy strncpy strcat strchr strrchr strstr memcmp""".split()
# need the noscrypt library, which this environment does not have (see DESIGN.md)
_NOSCRYPT = {"nip04.c", "nip17.c", "nip44.c", "nip46.c", "nip47.c", "nip47_session.c", "nip47_commands.c", "nip59.c"}

def lib_sources(repo, build):
    out = []
    for s in sorted(glob.glob(os.path.join(repo, "src", "*.c"))):
        if os.path.basename(s) in _NOSCRYPT and os.path.basename(s) not in build.get("extra_src", ()):
            continue
        out.append(s)
    return out

FAULT = dict(lib=["fault.c"], wraps=["malloc", "calloc", "realloc", "free", "strdup", "strndup", "__strdup"])

CHECKS = {}
NOT_APPLICABLE = {}
ENUM = "bounded exhaustive enumeration of the real code against a reference model (explicit-state model checking)"

CHECKS["C05"] = dict(src=["c05.c"], lib=["ref.c"], builds=["openssl"], level="model_checking",
    technique=ENUM,
    level_note="Exhaustive within the stated corruption bounds on the real entry points; trusts the reference acceptor and C-string inputs.",
    bounds="one or two corrupted characters per text (all 255 values at each position; all pairs at the first byte), lengths 0..279, output sizes 0..139",
    rule="texts are a valid base pattern with every byte value at every position / every pair of special characters / every length; distinct outcomes counted by (entry point, verdict, bytes)",
    assumptions=["C-string inputs (no embedded NUL)", "more than two simultaneously corrupted characters behave like one or two"])
CHECKS["C01"] = dict(src=["c01.c"], lib=["ref.c"], builds=["openssl", "mbedtls"], level="model_checking", technique=ENUM,
    level_note="Exhaustive over the stated alphabets on the real code in both crypto builds; trusts the reference serializer and SHA-256 (written from NIP-01/FIPS 180-4).",
    bounds="strings up to 4 alphabet elements and all byte pairs; integers at all powers; 2-3 tags x 3 values; histories of 5 (6) steps on two events; every buffer size",
    assumptions=["bytes >= 0x80 and 0x7f are copied verbatim (library convention)", "tag values without NUL"])
CHECKS["C04"] = dict(src=["c04.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every operation sequence up to the depth is executed on the real event code under ASan and compared, after every step, with a plain list-of-lists model; live allocations are accounted.",
    bounds="4 (5) operations over an alphabet of 18; 160 (1100) fill levels x 2 operations; tag widths 1..40 through two growths; lists up to 139 operations; 3 operations x 1 (2) allocation failures; up to 400 nonce refreshes",
    assumptions=["tag values without NUL", "an operation sequence longer than the bound fails like a shorter one or like the regular growth chains"])
CHECKS["C03"] = dict(src=["c03.c"], lib=["ref.c", "rj.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every text of the stated mutation neighbourhoods is fed to the real parsers (input ends at an inaccessible page) and judged by an independent JSON reader; every round trip is compared field by field; allocations accounted.",
    bounds="all pairs (triples) of member variants, all member subsets and orders, every single-byte replacement, deletion, structural insertion and truncation of three texts; every 2-byte string; 1 (2) allocation failures",
    assumptions=["where RFC 8259 and the bundled JSON reader differ (raw control characters, number spelling, duplicate names) either verdict is accepted, but never wrong fields",
                 "created_at beyond +-2^53 is not representable: it must be rejected, not altered"])
RNG = ["RAND_bytes", "RAND_priv_bytes", "mbedtls_ctr_drbg_seed", "mbedtls_ctr_drbg_random"]
CHECKS["C02"] = dict(src=["c02.c"], lib=["ref.c", "rng.c"], wraps=RNG, builds=["openssl", "mbedtls", "noscrypt", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Every stated alteration of signed events is put to the real verification and to a reference verdict (independent serializer and SHA-256, libsecp256k1 for the curve). Unforgeability itself is an assumption.",
    bounds="6 shapes x 10 keys x 4 previous states; every bit of id/pubkey/sig; all ordered pairs of ~700 close events; 14 edits; extreme r/s/pubkey; histories of 4 (6) operations; generator failures",
    assumptions=["BIP-340 as implemented by libsecp256k1 is unforgeable", "SHA-256 is collision free"])
CHECKS["C06"] = dict(src=["c06.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="All stated corruptions of valid encodings are decoded by every decoder and judged by an independent BIP-173 reader; texts and buffers end at inaccessible pages.",
    bounds="8514 keys x 3 encoders; all sizes x all prefix lengths; all 1-substitutions by all bytes; all 2-substitutions of three strings; all adjacent swaps; 19 prefixes x payload lengths 0..109",
    assumptions=["all-upper-case strings may be read or refused (BIP-173 allows them, NIP-19 writes lower case)", "prefixes other than npub, nsec, note may be read by the public-key decoder (its encoder takes any prefix)"])
CHECKS["C07"] = dict(src=["c07.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Encoders are compared with an independent TLV/bech32 writer, decoders with an independent TLV reader, on every case of the stated spaces; live allocations are accounted.",
    bounds="0..16 relays x 7 lengths x 28 field sets; all identifier/url lengths; all sequences of 3 (4) of 25 TLV items; every byte of four wire forms x 256; every character x 256; 1 (2) allocation failures",
    assumptions=["relays that are not ws/wss URLs may be skipped or refused; entities larger than the structure holds may be refused", "duplicate fields: value not judged"])
CHECKS["C08"] = dict(src=["c08.c"], lib=["ref.c"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every combination of condition variants is evaluated by the real matcher and by the definition written out independently.",
    bounds="full product of 8 ids x 5 authors x 5 kinds x 7 since x 7 until x 4 #e x 3 #p x 7 generic variants x 9 events; all tag sequences of length 4 (5) over 12 tags; sets of 3",
    assumptions=["since/until 0 mean absent (structure convention)"])
CHECKS["C09"] = dict(src=["c09.c"], lib=["ref.c", "rj.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every text of the stated neighbourhoods is parsed by the real parser (input ends at an inaccessible page), judged by an independent JSON reader, cloned, read back through all accessors and freed in both orders with allocation accounting.",
    bounds="13 members with 3-16 variants: all pairs over three backgrounds (triples); all subsets; every byte of three filters x 256; all sequences of 4 (5) life-cycle operations on three slots; 1 (2) allocation failures",
    assumptions=["empty arrays, duplicate members, arrays above 256 values and limits above 2^31-1 may be refused or kept", "malformed ids may be refused by parse or by validate"])
CHECKS["C10"] = dict(src=["c10.c"], lib=["ref.c", "rj.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every message text of the stated neighbourhoods is parsed by the real parser (text ends at an inaccessible page and is overwritten afterwards) and judged by an independent JSON reader and the protocol shapes; freed twice with allocation accounting.",
    bounds="18 first elements x 28^3 (28^4) element sequences; subscription ids 0..130 characters and every character; 0..40 filters; every byte of the messages x 256; every truncation; 1 (2) allocation failures",
    assumptions=["event and filter leniencies as in C03/C09 (missing members, duplicate names, number spelling)"])
CHECKS["C11"] = dict(src=["c11.c"], lib=["ref.c", "rj.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every message of the stated spaces is serialized by the real code and compared byte for byte with an independently written text (events: field by field through an independent reader); buffers end at inaccessible pages.",
    bounds="all byte pairs in every text; lengths 0..329; every buffer size of 35 messages; counts around all powers; ~5000 event shapes; contents to 128 KiB; 1 (2) allocation failures",
    assumptions=["texts longer than the message structure's fields are cut to the field size (structure convention)"])
CHECKS["C12"] = dict(src=["c12.c"], lib=["ref.c"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every pair, triple and arrival order of the stated event sets and every kind number is put to the real comparison and classification and to NIP-01 written out.",
    bounds="18^2 timestamps x ids differing in one byte (5 values, 32 positions, both sides); all common prefixes; arrivals of 6 (7) of 9 events; all 2304 x 18 triples; kinds 0..65535 and 8 ranges around int32 extremes",
    assumptions=["kinds outside every NIP-01 range count as regular"])
CHECKS["C13"] = dict(src=["c13.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every request of the stated space is parsed by the real code and put against every target; the verdict is compared with NIP-09 on plain lists; live allocations are accounted.",
    bounds="13 kinds x 8 identifiers x 4 author pairs x 3 target shapes x all lists of 2 (3) of 34 exact and near-miss tags; every bit of id and author; every byte of an address; identifier lengths 0..339 (779); lists up to 300; 1 (2) allocation failures",
    assumptions=["a d tag without a value counts as absent or as the empty identifier", "addresses whose number no kind has may be kept in the list but match nothing"])
CHECKS["C14"] = dict(src=["c14.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"] + ["time"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every validator and accessor is put to every case of the stated spaces under a controlled clock and compared with its documented predicate in 128-bit arithmetic.",
    bounds="9 clock values x 14 skews x boundary timestamps; expiration texts up to 5 (6) characters over 15, numbers around all powers of two; signed events x 8 alterations x every bit; texts of 0..139 characters x every byte; tag lists up to 4 (5) over 13 tags; every buffer size",
    assumptions=["expiration texts with leading blanks or a plus sign, or beyond int64, may count as absent", "address kinds that no event can have may be accepted or refused"])
CHECKS["C34"] = dict(src=["c34.c"], lib=["ref.c", "rj.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every document of the stated spaces is serialized by the real code and compared, as a JSON value, with an independently written one; buffers end at inaccessible pages; NIP lists are compared with a plain array after every operation.",
    bounds="all 2^13 text subsets x all/no other parts, at most one text present or missing (all subsets) for the other 254 part subsets; all byte pairs in 19 texts; all pairs of 16 numeric fields x 21 values; lists to 300; every size of 24 buffers; 5 (7) list operations; 1 (2) allocation failures",
    assumptions=["zero or negative limits, zero time and count mean unset (structure convention)", "period of admission/publication fees and kinds of admission/subscription fees are not part of the document"])
CHECKS["C18"] = dict(src=["c18.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"] + ["time"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Difficulty and verification are compared with NIP-13 written out on every stated case; mining with an exhaustive reference miner (independent serializer and SHA-256) under a controlled clock; histories against a plain model of the event.",
    bounds="all bit positions and two-byte continuations; 257 difficulties x 263 levels x 28 tag shapes x 3 placements; targets 1..9 (11) x budgets 0..40 x 12 shapes x 6 (24) contents, targets to 13 unlimited; 4 (6) of 9 operations; 1 (2) allocation failures",
    assumptions=["nonces are tried from 0 upwards, one per iteration", "a committed target that is not a plain number counts as none or is refused", "at most one nonce tag before mining"])
SECP = ["secp256k1_context_create", "secp256k1_ec_pubkey_create", "secp256k1_xonly_pubkey_from_pubkey", "secp256k1_xonly_pubkey_serialize"]
CHECKS["C19"] = dict(src=["c19.c"], lib=["ref.c", "rng.c"], wraps=RNG + SECP, builds=["openssl", "mbedtls"], level="model_checking", technique=ENUM,
    level_note="Every operation sequence up to the depth runs on the real code with randomness and curve backend behind failing seams; after every step the pair is judged through its public accessors against keys computed in an independent libsecp256k1 context, and memory is searched for key bytes.",
    bounds="3 (4) operations of 20 x 1 (2) failures; each of 39 operations after 4 predecessors x 2 failures; all single-bit alterations of 6 pairs; 139 x 139 shared secrets, 1024 x-only keys each",
    assumptions=["libsecp256k1 is right", "secrets are searched for as runs of four non-constant bytes"])
CHECKS["C21"] = dict(src=["c21.c"], lib=["ref.c", "fault.c"], builds=["openssl", "noscrypt"], level="model_checking", technique=ENUM,
    wraps=FAULT["wraps"] + ["HMAC", "secp256k1_context_create", "secp256k1_ec_pubkey_create", "secp256k1_ec_pubkey_serialize", "secp256k1_ec_seckey_tweak_add", "secp256k1_keypair_create", "secp256k1_keypair_xonly_pub", "secp256k1_xonly_pubkey_serialize"],
    level_note="Every stated seed, index sequence and path string is derived by the real code and by an independent BIP-32 (own SHA-512, HMAC and modular arithmetic; libsecp256k1 for points); path acceptance is compared with the written grammar.",
    bounds="seed lengths 0..129; 3 (4) derivation steps over 16 boundary indices from 20 parents; every path of up to 6 (7) characters over 16 characters starting with m (up to 5 otherwise); 45 number spellings x marks x frames; 1 (2) failures; 8 scripted digests",
    assumptions=["leading zeros in a component may be accepted or refused", "libsecp256k1 is right"])
CHECKS["C22"] = dict(src=["c22.c"], lib=["ref.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG + ["PKCS5_PBKDF2_HMAC"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every stated entropy, word replacement, word count, spelling and passphrase is put to the real code and to an independent BIP-39 (own SHA-2, HMAC, PBKDF2; the published word list, identified by its SHA-256) and BIP-32.",
    bounds="entropies with every bit set/cleared x buffer sizes; 2048 words x 36 positions; all replacements and swaps of 8 (60) mnemonics; 0..30 words; every byte at every place; all 1-4 letter words; 25 passphrases; 1 (2) allocation failures",
    assumptions=["supported lengths are 12 and 24 words (documented)", "passphrases that are not UTF-8 are outside", "if extra blanks are accepted the seed must be that of the words"])
CHECKS["C23"] = dict(src=["c23.c"], lib=["ref.c", "rng.c", "fault.c"], builds=["openssl"], level="model_checking", technique=ENUM,
    wraps=FAULT["wraps"] + RNG + ["EVP_PBE_scrypt", "EVP_CIPHER_CTX_new", "EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_CIPHER_CTX_ctrl", "EVP_EncryptUpdate", "EVP_DecryptUpdate", "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex"],
    level_note="Every stated alteration is re-encoded with a correct checksum and put to the real decryption; encryption is compared with an independent XChaCha20-Poly1305 and bech32. scrypt is replaced by a cheap function of all its parameters, except in one scenario that runs the real one.",
    bounds="29 passwords x 4 keys x 7 work factors x 4 salts; 256 work factors/versions/security bytes; all single- and double-bit changes; lengths 0..129 x 10 prefixes; every byte at every place; all password pairs; 2 (3) backend failures",
    assumptions=["password normalization is the caller's duty (documented); equality up to NFKC is accepted either way", "scrypt and ChaCha20-Poly1305 of OpenSSL are right"])
CHECKS["C24"] = dict(src=["c24.c"], lib=["ref.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG, builds=["openssl", "mbedtls", "noscrypt", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Every stated condition string is put to the real parser and evaluated on a grid of kinds and times against the NIP-26 grammar written out; tokens and events against an independent hash and libsecp256k1.",
    bounds="up to 3 (4) clauses of 44 (16 in third place in the quick tier); strings of up to 4 (5) of 15 characters after 11 prefixes; 1..140 clauses; 11 kinds x 21 times; all single-bit changes; 9 forgeries; 1 (2) failures",
    assumptions=["empty clauses, leading zeros and negative times may be accepted (with their meaning) or refused", "with several delegation tags any may decide, if valid"])
CHECKS["C29"] = dict(src=["c29.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every lnurl, invoice, tag list and receipt/request pair of the stated spaces is put to the real code under ASan and compared with BIP-173, the BOLT-11 amount rule in 128-bit arithmetic and the construction of the pair.",
    bounds="lnurls up to 89 bytes and prefixes up to 94; every byte at every position; amounts of up to 3 (4) digits and every overflow boundary; tag lists of up to 3 (4) of 20 tags x 16 output subsets; all pairs over 7 dimensions; 1 (2) allocation failures",
    assumptions=["an invoice's own checksum and signature are not checked by the library (its stable tests use an invoice with a wrong checksum)", "the receipt's p tag is not compared (a stable test verifies a receipt with another one)", "lnurls longer than 90 characters and upper-case ones may be refused"])
CHECKS["C28"] = dict(src=["c28.c"], lib=["ref.c", "rj.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every identifier and response document of the stated spaces is put to the real code, its inputs ending at an inaccessible page, and compared with a character-class definition and an independent RFC 8259 reader.",
    bounds="identifiers up to 7 (8) characters over 8 classes; every byte at every position; documents of up to 3 (4) of 56 members in 2 spacings; 3 documents damaged at every byte with every value; relay lists up to 4 of 16 entries; 1 (2) allocation failures",
    assumptions=["duplicate members, escaped keys and documents nested deeper than 20 leave more than one answer open", "upper-case keys may be refused or lower-cased"])
CHECKS["C27"] = dict(src=["c27.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every tag list over the stated shapes is put to the real readers and compared with the set of answers NIP-10/18/25 allow; creation and reading back with every stated argument, buffer size and single allocation failure.",
    bounds="up to 4 tags over 25 shapes (NIP-10), up to 3 (4) over 28 (NIP-18/25); 13 id spellings; buffer sizes around every needed size; texts of up to 3 (4) of 17 pieces x 8 separators; 1 allocation failure",
    assumptions=["lists mixing one marked role with unmarked tags may be read either way; a 'mention' is never root or reply", "a malformed id may make the event be rejected or the tag be ignored, but is never returned"])
CHECKS["C26"] = dict(src=["c26.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl"], level="model_checking", technique=ENUM,
    level_note="Every stated operation sequence and tag list is run on the real code under ASan and compared with a plain array of (url, read, write).",
    bounds="4 (5) adds over 11 urls x 4 flag pairs; 1..270 (399) relays; every first two bytes after 14 prefixes; tag lists up to 4 over 24 shapes; 1 (2) allocation failures on lists of 0..17",
    assumptions=["a relay with an unknown marker may be ignored or be both readable and writable", "of two tags for the same url the first may win or they may be merged"])
CHECKS["C25"] = dict(src=["c25.c"], lib=["ref.c", "fault.c"], wraps=FAULT["wraps"], builds=["openssl", "seam44"], level="model_checking", technique=ENUM,
    level_note="Every stated editing sequence, item and text is run on the real list code under ASan and compared with a plain array of items, before and after a round trip through an event. NIP-44 itself needs noscrypt (absent): a keyed stand-in supplied by the harness takes its place in the seam44 build.",
    bounds="4 (5) edits of 14 operations; 8 item types x texts of 52 in each field; every byte pair; 1..200 (700) items and the item limit; tag lists of up to 3 over 16 shapes; damaged private texts at every position; 1 (2) failures",
    assumptions=["an empty optional field and an absent one are the same", "metadata belongs to the addressable kinds (30000-39999)", "NIP-44 encryption is confidential and authentic"])
CHECKS["C17"] = dict(src=["c17.c"], lib=["ref.c", "fault.c", "mcsched.c"], wraps=FAULT["wraps"] + SCHED_WRAPS + ["time", "sysconf", "nostr_event_compute_id"], builds=["sched"], level="model_checking",
    technique="stateless model checking: all thread schedules of the real code up to a preemption bound, with a happens-before race detector on every memory access",
    level_note="The real mining code runs on real threads of which a controlled scheduler lets exactly one run; every choice at every synchronization operation is explored depth-first up to the preemption bound, together with every thread-creation or allocation failure.",
    bounds="1-3 threads, budgets 1-3 or unlimited, 2 (3) preemptions/failures together",
    assumptions=["code between synchronization operations is scheduled as a unit; that this loses nothing is checked by the race detector", "sequentially consistent atomics"])
RNGX = RNG + ["mbedtls_ctr_drbg_init", "mbedtls_ctr_drbg_free", "mbedtls_entropy_init", "mbedtls_entropy_free"]
_SCHED = dict(lib_sched=["mcsched.c", "fault.c"], lib_schedm=["mcsched.c", "fault.c"], wraps_sched=FAULT["wraps"] + SCHED_WRAPS, wraps_schedm=FAULT["wraps"] + SCHED_WRAPS)
CHECKS["C33"] = dict(src=["c33.c"], wraps=RNGX, builds=["openssl", "mbedtls", "sched", "schedm"], level="model_checking", **_SCHED,
    technique="bounded exhaustive enumeration of lengths, failures and thread schedules on the real code, with a happens-before race detector",
    level_note="Every length, failure position and schedule of the stated spaces runs on the real code over a generator that hands out unique bytes, checks its own life cycle and monitors who is inside.",
    bounds="lengths 0..4140 and around 2^31, 2^32; histories of 3 (4) requests with 2 (3) failures; 2-3 threads, 2 (3) preemptions/failures",
    assumptions=["OpenSSL's RAND_bytes is itself thread-safe (documented); the mbedTLS generator is not"])
SECPALL = ["secp256k1_" + x for x in "context_create context_destroy context_randomize ec_seckey_verify ec_pubkey_create ec_pubkey_parse ec_pubkey_serialize ec_seckey_tweak_add xonly_pubkey_from_pubkey xonly_pubkey_serialize xonly_pubkey_parse keypair_create keypair_xonly_pub schnorrsig_sign32 schnorrsig_verify ecdh".split()]
CHECKS["C16"] = dict(src=["c16.c"], lib=["ref.c"], wraps=RNG + SECPALL, builds=["openssl", "mbedtls", "sched", "schedm"], level="model_checking", **_SCHED,
    technique="bounded exhaustive enumeration of operation sequences and of thread schedules on the real code, with a happens-before race detector",
    level_note="Every sequence runs in a fresh process, every schedule under a controlled scheduler; the curve backend's contexts are counted and every use checked; results are judged with an independent context.",
    bounds="sequences of 3 (4) of 14 operations and 5 (7) of 5, context creation failing up to 2 (3) times; all pairs of 13 operations and triples of 6 on 2-3 threads, 2 (3) preemptions/failures",
    assumptions=["operations are not run concurrently with cleanup (init and cleanup themselves are)", "libsecp256k1 is right"])
CHECKS["C15"] = dict(src=["c15.c"], lib=["ref.c"], builds=["plain", "sched"], level="model_checking", lib_sched=_SCHED["lib_sched"], wraps_sched=_SCHED["wraps_sched"],
    technique="bounded exhaustive enumeration of values, histories and thread schedules on the real code, with linearizability checking and a happens-before race detector",
    level_note="Validation is compared with the documented ranges on every value of the stated spaces; histories run in fresh processes against a model of (active configuration, callback); under every schedule results must be explained by a sequential order.",
    bounds="values to 1.1 (4.4) million per field, all triples at 8 boundary values; environment texts of 4 (5) characters; 4 (5) of 17 operations; 2 threads x 2+1 (2+2) and 3 x 1 operations of 9, 2 (3) preemptions",
    assumptions=["environment texts with leading blanks or a plus sign may count as numbers", "cleanup leaves the configuration as it is", "the environment is not changed concurrently"])

LWS = ["lws_" + x for x in """create_context context_destroy client_connect_via_info service write close_reason set_opaque_user_data get_opaque_user_data
is_final_fragment is_first_fragment remaining_packet_payload cancel_service cancel_service_pt callback_on_writable context_user get_context get_protocol
wsi_user set_timeout rx_flow_control frame_is_binary send_pipe_choked""".split()]
_THR = ["pthread_create", "pthread_join", "pthread_mutex_init", "pthread_mutex_destroy"]
_RELAY = dict(lib=["ref.c", "rj.c", "fault.c", "mocklws.c"], lib_instrumented=["mocklws.c"], wraps=FAULT["wraps"] + LWS)
CHECKS["C31"] = dict(src=["c31.c"], builds=["openssl"], level="model_checking", **dict(_RELAY, wraps=_RELAY["wraps"] + _THR),
    technique="explicit-state exploration of all histories of application calls and network events on the real client over a mock network, compared step by step with a model of the connection",
    level_note="Every history up to the depth runs on the real client; libwebsockets is replaced at link time by a mock whose callback order follows traces recorded from the real library, and which checks every use of a connection or context; the service thread runs exactly when the history lets it.",
    bounds="5 (6) steps of 29 from a new relay with up to 1 (2) failed writes or late deliveries; 4 (5) from an established connection (thorough: with 1); 3 (4) from there with up to 2 (3); 25 URLs; 11 calls inside 5 callbacks; 1 (2) allocation failures in a life",
    assumptions=["libwebsockets 4.3.3 behaves as recorded (DESIGN.md)", "lws_write takes a message whole or fails"])

CHECKS["C30"] = dict(src=["c30.c"], builds=["openssl"], level="model_checking", **dict(_RELAY, wraps=_RELAY["wraps"] + _THR),
    technique="exhaustive enumeration of message sequences and of the ways of cutting them into fragments, run on the real client over a mock network and compared with what the messages say",
    level_note="The real receive path runs, with the fragments, first/final flags and remaining lengths that libwebsockets reports; every delivery is compared with an independent reading of each message.",
    bounds="37 valid and malformed messages: every two cuts of each, every cut of either of each ordered pair, all sequences of 3 (4) in pieces of 1, 3, 64 or all; all 2^(n-1) cuts of 5 short messages with empty pieces; lengths around ten buffer boundaries up to 24 MiB; all texts of 5 (6) of 12 characters; 1320 triples of similar subscription ids; 4620 event spellings; 1 (2) allocation failures",
    assumptions=["libwebsockets 4.3.3 delivers fragments as recorded (DESIGN.md)"])
CHECKS["C32"] = dict(src=["c32.c"], builds=["sched"], level="model_checking", **dict(_RELAY, lib=["ref.c", "rj.c", "mocklws.c"], wraps=LWS, lib_sched=_SCHED["lib_sched"], wraps_sched=_SCHED["wraps_sched"]),
    technique="stateless model checking: all schedules of application and service thread of the real client up to a preemption bound, with a happens-before race detector on every memory access",
    level_note="The real client and its real service thread run over a mock network under a controlled scheduler; every choice at every synchronization operation is explored depth-first up to the preemption bound; races, deadlocks, uses of freed memory, leaks and late callbacks are observed directly.",
    bounds="all pairs of 11 calls against 6 network events, single calls against all pairs of events, 6 calls inside 3 callbacks against 11 calls, every two calls during an attempt with 5 outcomes; 2 (3) preemptions, for single calls against single events 3 (4); thorough also all pairs against all pairs with 2",
    assumptions=["lws_write may be called from the application's thread (the client's design; libwebsockets itself asks for the service thread)", "sequentially consistent atomics", "one application thread"])
CHECKS["C20"] = dict(src=["c20.c"], lib=["ref.c", "fault.c", "rng.c"], wraps=FAULT["wraps"] + RNG + ["time"], builds=["openssl"], level="model_checking",
    technique="systematic fault injection: every operation run with every single and every pair of failing allocations, compared with its fault-free result",
    level_note="Every allocation the library or cJSON makes is a choice point; every operation of the driver runs on the real code under ASan with every subset of failures up to the bound, its result is compared with the fault-free one, and live allocations are accounted.",
    bounds="75 operations in 229 variants with every one and every two (three) failing allocations, OpenSSL's own (the first 300 of each operation) included one at a time; histories of 4 operations on an event, a list, a relay list and relay information with 1 (2) failing allocations",
    assumptions=["allocations inside libsecp256k1, utf8proc and libwebsockets succeed"])
CHECKS["C35"] = dict(src=["c35.c"], lib=["ref.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG, builds=["noscrypt", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Payloads are compared byte for byte with an independent NIP-44/NIP-04 writer; every stated alteration is put to the real decryption. The noscrypt library (absent here) is replaced by a stand-in over libsecp256k1.",
    bounds="lengths 1..1279 and around powers of two (all 1..65535); every bit, character, truncation; 22 sizes x 49 stated lengths under a right MAC; 45 configured windows; 1 (2) failures",
    assumptions=["noscrypt's primitives behave as NIP-44 prescribes (a stand-in written from the specification)", "base64 whose unused bits are not zero may be read or refused"])
CHECKS["C36"] = dict(src=["c36.c"], lib=["ref.c"], builds=["openssl", "mbedtls", "noscrypt", "sched"], level="model_checking", lib_sched=_SCHED["lib_sched"], wraps_sched=_SCHED["wraps_sched"],
    technique="exhaustive enumeration of questions and of thread schedules on the real code against the build's own configuration, with a happens-before race detector",
    level_note="Answers are compared with the configuration the library was built from in four builds; concurrent first calls run under every schedule to the bound.",
    bounds="NIP numbers and error codes -70000..70000 and aliases; 2-3 threads x 2 of 6 questions, 2 (4) preemptions",
    assumptions=["NIPs that have no switch (1, 9, 11, 19, 21, ...) may be reported either way"])
CHECKS["C37"] = dict(src=["c37.c"], lib=["ref.c", "rj.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG + ["time"], builds=["noscrypt", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Both layers of every wrap are opened, and every hostile message is written, by a reference with its own cryptography; the real code wraps and unwraps.",
    bounds="4 x 4 keys x 6 texts x 4 subjects x 3 replies x 4 times; 5 ways x 7 kinds x 7 shapes; 12 generator values x 40 places x 4 clocks; every signature bit, truncation and character; 1 (2) failures",
    assumptions=["noscrypt's primitives behave as NIP-44 prescribes (a stand-in written from the specification)"])
CHECKS["C38"] = dict(src=["c38.c"], lib=["ref.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG + ["time"], builds=["noscrypt", "schednc"], level="model_checking", lib_schednc=["mcsched.c"], wraps_schednc=SCHED_WRAPS,
    technique="explicit-state exploration of all histories of session calls on the real code against a model, and all thread schedules with a happens-before race detector",
    level_note="Every history up to the depth runs on the real sessions and is compared with a model after each call; concurrent calls run under every schedule to the bound.",
    bounds="5 (6) of 17 operations; 4 (5) payments with up to 2 permissions; 64 x 3 limits x 192 amounts; 2 threads x 10 operations with 3 (4), 3 threads x 4 with 1 (2) preemptions",
    assumptions=["whether the last second of a session or of a window still counts is not fixed", "a connection handed out is used only while its session lives"])
CHECKS["C39"] = dict(src=["c39.c"], lib=["ref.c", "rj.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG + ["time"], builds=["noscrypt", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Every request is opened, and every answer written, by a reference with its own cryptography and JSON reader; the real code makes and reads them.",
    bounds="9^4 arrangements and every character of a URI; 16 key pairs x 10 methods x 25 parameters; 27 answers x 3 readers x 6 tags x 16 outputs; 13 amounts x strings x records; 24 numbers; 1 (2) failures in 14 operations",
    assumptions=["noscrypt's primitives behave as NIP-44 prescribes (a stand-in written from the specification)", "builds without cJSON are not covered", "integers of more than 15 digits in answers may be rounded or refused", "an answer that does not say it is encrypted with NIP-44 may be refused"])
CHECKS["C40"] = dict(src=["c40.c"], lib=["ref.c", "rj.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG + ["time"], builds=["noscrypt", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Every response is opened, and every request written, by a reference with its own cryptography and JSON reader; the real code makes and reads them.",
    bounds="16 key pairs x 6 ids x 26 results x 28 errors; 7 ids x 10 methods x 8 parameters x 12 spellings; every truncation and 14 replacements of each character; 1 (2) failures",
    assumptions=["noscrypt's primitives behave as NIP-44 prescribes (a stand-in written from the specification)", "a request with an empty id or method, or without an array of parameters, may be refused or read as it is"])
CHECKS["C41"] = dict(src=["c41.c"], lib=["ref.c", "rj.c", "rng.c", "fault.c"], wraps=FAULT["wraps"] + RNG + ["time"], builds=["openssl", "noscryptm"], level="model_checking", technique=ENUM,
    level_note="Every function of the public headers that takes pointers runs with every subset of them NULL, every odd text for each text argument and every size of each buffer, each in a process of its own.",
    bounds="258 functions x all subsets of their pointer arguments (1 to 8 each); 130 text arguments x 73 odd texts (thorough: 22 x 22 for every pair of text arguments); 33 buffers x all sizes up to two more than needed",
    assumptions=["functions that would use the network are called without their relay only", "texts of the list of odd texts in checks/c41.c; strings inside structures and lists are left to the other properties"])

CHECKS["C42"] = dict(src=["c42.c"], lib=["ref.c", "rj.c"], wraps=RNG + ["time", "EVP_PBE_scrypt", "PKCS5_PBKDF2_HMAC"], builds=["sched", "schedm", "schednc"], level="model_checking", lib_schednc=["mcsched.c", "fault.c"], wraps_schednc=FAULT["wraps"] + SCHED_WRAPS, **_SCHED,
    technique="bounded exhaustive enumeration of pairs of calls and of thread schedules on the real code, with a happens-before race detector",
    level_note="All pairs of the public functions run in two threads on arguments of their own; what each call gives is compared with what it gives alone.",
    bounds="263 functions: each with itself from first use and initialized with 1 (2) preemptions; all 34716 pairs in either order (thorough: with 1 preemption, from first use and initialized); 5272 ordered pairs of 161 reading arguments on one object with 1 (2) preemptions",
    assumptions=["the stand-in for the noscrypt library, libsecp256k1 and OpenSSL are themselves thread-safe", "cleanup and the callback registration are left to C15 and C16"])