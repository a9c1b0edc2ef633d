#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Event id is SHA-256 of the NIP-01 canonical serialization",
  "For every event, computing the id stores the SHA-256 of exactly [0,pubkey-hex,created_at,kind,tags,content] written as minimal JSON (no whitespace, decimal integers, the escapes \\\" \\\\ \\b \\f \\n \\r \\t, other control characters as \\u00xx, every other byte verbatim). The canonical serialization offered to relays is that same byte string, it never depends on the id or signature fields or on which crypto backend was built, and computing it leaves every other field untouched.",
  ["inputs", "configurations"], "all events over an alphabet covering every byte class 0x01-0xff, integers at every magnitude boundary, tag shapes up to 3x3; both crypto builds; every output buffer size",
  "Tests hash a handful of ASCII events; a wrong escape, a number printed through floating point or one dropped element changes the id only for particular bytes or magnitudes.",
  ["src/event.c", "src/relay_protocol.c"], [("serialize_for_id / nostr_event_compute_id", "src/event.c"), ("nostr_event_serialize_canonical", "src/relay_protocol.c")],
  observe=["event id bytes", "canonical serialization text"])

p("C02", "Only intact events verify; signing always yields a verifying event",
  "Signing an event with a valid private key sets its pubkey, id and signature so that verification succeeds, whatever the event held before, and a failed signing reports an error. After signing, changing any single bit of id, pubkey or signature, or any part of created_at, kind, content or tags (value, order, count, boundary between values), makes verification and full relay validation fail, and an invalid private key never yields a signed event.",
  ["inputs", "histories", "configurations"], "every single-bit flip of id/pubkey/sig, every structural mutation of every tag/content position, every order of mutate/sign/verify steps up to the bound, boundary private keys, both crypto builds",
  "Tests flip one or two bytes; a verification that skips one comparison, one byte range or one field passes them.",
  ["src/event.c", "src/relay_protocol.c"], [("nostr_event_sign / nostr_event_verify", "src/event.c"), ("nostr_event_validate_full", "src/relay_protocol.c")])

p("C03", "Event JSON round-trips and malformed JSON is rejected cleanly",
  "Serializing an event to JSON and parsing it back yields an event equal in every field (id, pubkey, created_at, kind, tags, content, sig), for every event whose fields are representable, and the serialization is a single well-formed JSON object with exactly the NIP-01 members. Parsing text that is not a JSON object, or whose id, pubkey or sig is not exact-length hex, whose kind is outside 0..65535, whose created_at is not an integer that a JSON number holds exactly (beyond 2^53 in magnitude), or whose members have wrong JSON types, returns an error, leaks nothing and hands the caller no event. Parsing with an explicit length never reads beyond that length. (Absent or repeated members and empty tags may be accepted or refused.)",
  ["inputs"], "all events over the byte-class alphabet; every one-field corruption (type, length, digit, case, duplicate, missing, truncation at every byte) of a valid event's JSON",
  "Tests parse a few well-formed documents and two or three malformed ones.",
  ["src/event.c", "src/relay_protocol.c"], [("nostr_event_to_json / nostr_event_from_json", "src/event.c"), ("nostr_event_parse / nostr_event_serialize", "src/relay_protocol.c")])

p("C04", "An event's tags behave like a growing list of string lists",
  "After any sequence of content and tag operations on an event, including those that force the backing storage to grow or move and those that add or refresh a mining nonce, reading the tags back yields exactly the lists of strings that were added, in order and unaltered, and the content last set. An operation that reports an error leaves tags and content as they were; no operation touches memory outside the event, and destroying the event releases everything.",
  ["histories", "inputs"], "all operation sequences up to the bound over tag shapes straddling every storage-growth boundary, aliased arguments included, with storage forced to move on every growth",
  "Tests add a few small tags; relocation bugs need the storage to move at a particular fill level with particular earlier tags present.",
  ["src/event.c", "src/nip13.c"], [("nostr_event_add_tag (arena + pointer rebasing)", "src/event.c"), ("nostr_nip13_add_nonce_tag", "src/nip13.c")],
  state=[("tag_arena", "bump storage of all tag strings", "src/event.c")])

p("C05", "Hex parsing accepts exactly hex of the exact length",
  "A public key, private key, event id or signature given as text is accepted exactly when it has the exact number of characters, all of them hexadecimal digits, and then yields exactly the denoted bytes; anything else is rejected without a partial result being reported as success. Encoding writes lower-case digits only, needs and respects the stated buffer size, and decoding an encoding returns the original bytes. Digits of either case are read, except by the validators documented as lower-case only (64-digit ids, id prefixes, binary e/p tag values).",
  ["inputs"], "every byte value at every character position, every length around the exact one, every byte value encoded, every output size; all hex entry points",
  "Tests use a few valid strings and one with 'g'; lenient scanners accept signs, blanks and half digits at particular positions.",
  ["src/key.c", "src/utils.c", "src/relay_protocol.c", "src/event.c"], [("nostr_key_from_hex, nostr_privkey_from_hex", "src/key.c"), ("nostr_hex_decode", "src/utils.c"), ("nostr_hex_to_bytes, nostr_validate_hex64", "src/relay_protocol.c")])

p("C06", "Bech32 key encodings round-trip, match BIP-173 and detect errors",
  "Encoding any 32-byte key or id with a prefix produces the BIP-173 bech32 string for it and decoding returns the same bytes and nothing else; an nsec, npub and note decode only through their own kind of decoder. A string with any single character substituted, any two characters substituted or adjacent characters swapped, mixed case, wrong prefix, wrong payload length, or non-zero padding is rejected. Nothing is written beyond the buffer size given.",
  ["inputs"], "every single-bit key plus boundary keys; all 1-character substitutions over all 255 bytes, all 2-character substitutions over the charset (bounded set of keys), all truncations and all short payloads with correct checksum; every output buffer size",
  "Tests decode a few fixed vectors; error detection is a statement about all corruptions.",
  ["src/bech32.c"], [("bech32 encode/decode, checksum, bit conversion", "src/bech32.c")])

p("C07", "nprofile/nevent/naddr/nrelay and nostr: URIs round-trip",
  "Encoding a profile, event pointer, address or relay entity and decoding the result returns an equal structure (ids, relays in order, author, kind, identifier), through the bare bech32 form and through nostr: URIs, for every number and length of fields the structures accept (relays that are not ws or wss URLs, and entities beyond what the structure holds, may be refused instead); the wire form is the NIP-19 TLV layout. Unknown TLV types are skipped; truncated or over-long TLVs, missing mandatory fields, wrong-size fixed fields and corrupted checksums are rejected; no input makes the decoders read or write out of bounds or leak.",
  ["inputs"], "all combinations of relay counts/lengths, author/kind presence, identifier lengths at boundaries; every TLV byte string up to a bounded length with valid checksum; every corruption of one character",
  "Tests use two or three typical entities; the length and count boundaries (0, 1, max, max+1, 255 bytes) and malformed TLVs are not reached.",
  ["src/nip21.c", "src/bech32.c"], [("TLV encoding/decoding", "src/nip21.c"), ("nostr_uri_parse / nostr_uri_encode", "src/nip21.c")])

p("C08", "Filter matching equals the NIP-01 definition",
  "An event matches a filter exactly when every condition present in the filter holds: id in ids (prefix semantics where partial hex is accepted), author in authors, kind in kinds, created_at between since and until inclusive, and for each tag condition at least one event tag of that name whose first value is listed; an event matches a set of filters exactly when it matches at least one of them, and the search text is consulted only through the supplied callback. The verdict depends on nothing else: not on tag order, extra tag values, earlier calls or limit.",
  ["inputs"], "all combinations of present/absent/matching/non-matching conditions over a bounded alphabet of events and filters (ids/authors up to 2, kinds up to 3, two tag names, boundary timestamps), compared with an independent reference matcher",
  "Tests check about twenty hand-picked pairs; conditions interact only in particular combinations (several tag filters, several values, boundary times).",
  ["src/relay_filter.c"], [("nostr_filter_matches, nostr_filters_match, *_with_search", "src/relay_filter.c")])

p("C09", "Filter JSON parsing yields exactly the conditions written",
  "Parsing a filter object yields a filter with exactly the conditions written in it (ids, authors, kinds, since, until, limit, search, single-letter tag conditions, case-sensitively), ignoring unknown members; text that is not a JSON object or whose known members have wrong types, malformed ids or out-of-range values (negative or beyond 2^53 timestamps) yields an error or fails validation rather than a filter that matches more events. Cloning yields an independent equal filter, accessors return what was parsed, and parse, clone and free in any order neither leak nor double free.",
  ["inputs", "histories"], "all filter objects over a bounded alphabet of members x values (every JSON type for each member), every truncation of the text, every clone/free order",
  "Tests parse a dozen well-formed filters; silent widening of a malformed filter is invisible to them.",
  ["src/relay_filter.c"], [("nostr_filter_parse / clone / free / validate / getters", "src/relay_filter.c")])

p("C10", "Client messages parse to exactly what was sent or are rejected",
  "A client message array is parsed exactly when it has the NIP-01/42/45 shape of its type (EVENT with an event, REQ/COUNT with a valid subscription id and up to the maximum number of filters, CLOSE with a subscription id, AUTH with an event); the result carries the type, the subscription id, every filter in order and the event as sent. Any other text (wrong type, missing elements, wrong element types, over-long or empty subscription id, too many filters, trailing or truncated JSON) returns a specific error, after which freeing the message is safe; the given length is respected and nothing leaks.",
  ["inputs"], "all message arrays over a bounded alphabet of elements and arities 0..5, all JSON types per position, boundary subscription ids and filter counts, every truncation",
  "Tests parse one good message per type and a few bad ones.",
  ["src/relay_message.c"], [("nostr_client_msg_parse / free", "src/relay_message.c")])

p("C11", "Relay messages serialize to the exact JSON or report a too-small buffer",
  "Every relay message (EVENT, OK, EOSE, CLOSED, NOTICE, AUTH, COUNT) serializes to one well-formed JSON array with the elements the protocol prescribes, any text properly escaped, followed by a terminating NUL, and reports its exact length. For every buffer size smaller than needed the call fails with the buffer-too-small error without writing past the buffer, and for every sufficient size the result is identical.",
  ["inputs"], "all message types x byte-class texts x every buffer size from 0 to needed+1",
  "Tests use one comfortable buffer and one tiny one; off-by-one sizes need the whole range.",
  ["src/relay_message.c"], [("nostr_relay_msg_serialize", "src/relay_message.c")])

p("C12", "Replacement order is a total order and kinds are partitioned",
  "Comparing replaceable or addressable events follows NIP-01: the newer created_at wins and ties go to the lexically lower id; over all events the comparison is antisymmetric, transitive and total, so that the survivor of any set is the same in whatever order events arrive, for events of one address. Every kind number belongs to exactly one of regular, replaceable, ephemeral and addressable, as NIP-01 ranges say.",
  ["inputs", "histories"], "all pairs/triples over boundary timestamps (including negative and extreme) x ids differing in any one byte x kinds x d tags; all arrival orders of up to 5 events; all kinds 0..65535 and out of range",
  "Tests compare three pairs; transitivity and order independence quantify over triples and permutations.",
  ["src/relay_protocol.c"], [("nostr_event_compare_replaceable / addressable, nostr_kind_get_type", "src/relay_protocol.c")])

p("C13", "Deletion requests only ever delete the author's own events",
  "A deletion request is parsed from a kind 5 event as exactly its e and a references plus reason; it authorizes deleting a target only if the target has the same author and is referenced (by id, or for an addressable event by its exact kind:author:identifier address), never a deletion of someone else's event, and it authorizes every own event that is so referenced. Ill-formed references are ignored or rejected, never matched.",
  ["inputs"], "all combinations of request tags (up to 3, valid/invalid/foreign e and a tags, identifiers empty, with colons, long) x targets (author, id, kind class, identifier)",
  "Tests authorize one matching and one foreign event; address parsing has many near-miss shapes.",
  ["src/relay_protocol.c"], [("nostr_deletion_parse / authorized / authorized_address", "src/relay_protocol.c")])

p("C14", "Event and text validators decide exactly their documented conditions",
  "Full event validation accepts an event exactly when it is correctly hashed and signed, its kind is in range, its timestamp is at most the allowed skew in the future and it has not expired (the clock is not past its expiration), and reports the matching error and field otherwise; expiration, timestamp, address, subscription-id and hex-prefix validators and the tag accessors each decide exactly the documented predicate, for extreme values too, without overflow. Formatting a validation error never exceeds the buffer and is always terminated.",
  ["inputs"], "every boundary and extreme of the 64-bit timestamps and skews under a controlled clock, every character class and length around limits, every buffer size, events with every tag shape up to the bound",
  "Tests use the real clock and small values; overflow and boundary behaviour need controlled extremes.",
  ["src/relay_protocol.c"], [("nostr_event_validate_full, nostr_validate_*, nostr_event_get_expiration, tag accessors", "src/relay_protocol.c")])

p("C15", "The active configuration is always a whole, valid configuration",
  "After any sequence of initialize, update, environment load, callback registration and cleanup, the active configuration is exactly the last accepted one (of the first accepted initialization and the accepted updates after it; later initializations change nothing); a rejected configuration changes nothing, validation accepts exactly the documented ranges, and an environment variable is applied exactly when it holds a number. Each accepted change notifies the registered callback once with the previous and the new configuration. The callback may itself use the configuration functions. The limits in force (tags per event, content size of events being read) are the active ones. With several threads updating and reading at once there is no data race or deadlock and the final state is that of some sequential order of the calls.",
  ["histories", "schedules", "inputs"], "all operation sequences up to the bound, every field at min-1/min/max/max+1, all schedules of 2-3 threads with one to two operations each within the preemption bound",
  "Tests run one thread and a couple of configurations.",
  ["src/config.c"], [("config lock and copy-in/copy-out", "src/config.c")],
  state=[("current config, callback, initialized flag", "process-wide configuration", "src/config.c")])

p("C16", "Initialization and cleanup are safe in any order and from any thread",
  "Any number of threads may initialize, generate keys, sign, verify and use randomness concurrently on the library, without data races, deadlocks, leaked or doubly created global state; afterwards every operation behaves as after a single initialization. Repeated initialize and cleanup in any sequence leaves the library usable again after the next initialize, operations that need initialization either initialize it or fail with an error, and cleanup releases everything once.",
  ["schedules", "histories"], "all schedules of 2-3 threads (init/init, init/keygen, random/random) within the preemption bound, with happens-before race detection on every schedule; all init/cleanup/operation sequences up to the bound; both crypto builds",
  "Tests start threads and hope; which interleavings run is up to the OS.",
  ["src/key.c", "src/config.c"], [("nostr_init / nostr_cleanup, context lock", "src/key.c"), ("nostr_random_bytes", "src/key.c")])

p("C17", "Threaded mining returns one correct result under every schedule",
  "Mining with several threads, under every interleaving, terminates, returns success exactly when some thread found a nonce within its share of the iteration budget, and then leaves the event with exactly one nonce tag, other tags and content unchanged, and an id that is the event's true hash and meets the difficulty. Without success, or if threads or memory cannot be obtained, it reports an error, leaves the event consistent, joins every thread it started, and never races or leaks.",
  ["schedules", "fault_sequences"], "all schedules of 2-3 workers within the preemption bound, with zero, one or several workers able to succeed, every thread-creation and allocation failure point",
  "A test run sees one schedule; two workers finding a nonce at once, or a failing thread creation, needs a controlled scheduler.",
  ["src/nip13.c"], [("worker/collector protocol (found flag, result mutex)", "src/nip13.c")])

p("C18", "Proof of work: difficulty, mining and verification agree",
  "The difficulty of an id is its number of leading zero bits; verification at a level succeeds exactly when the id has at least that many leading zero bits, the event has a nonce tag, and the target committed in that tag, if there is one, is also reached by the id. Mining within a budget succeeds exactly when some nonce in the budget reaches the target, and the mined event then verifies, has one nonce tag carrying nonce and target and the id of its contents, and is otherwise unchanged except for created_at; otherwise it reports failure.",
  ["inputs", "histories"], "every bit position 0..256 of ids; all targets and budgets in a small range x event shapes (existing nonce tags of every shape) compared with an exhaustive reference miner",
  "Tests mine a single event at low difficulty.",
  ["src/nip13.c"], [("nostr_nip13_calculate_difficulty / verify_pow / mine_event", "src/nip13.c")])

p("C19", "A key pair never claims to be usable with mismatched or failed keys",
  "After any sequence of key-pair operations, with any randomness or backend failure injected, a key pair reported valid holds a private key in range and exactly the matching public key; operations that fail leave it either as it was or not valid, never half-updated. Destroying a key pair, and failing to create one, leaves no private key bytes behind in it; shared secrets computed by the two parties agree.",
  ["histories", "fault_sequences", "inputs"], "all operation sequences up to the bound x boundary keys (0, 1, n-1, n, n+1, all ones) x randomness failing or returning out-of-range values at every draw",
  "Tests run the happy path; failures of randomness cannot be provoked from outside.",
  ["src/key.c"], [("nostr_keypair_* state, nostr_key_generate retry, nostr_key_ecdh", "src/key.c")])

p("C20", "Running out of memory at any point is reported, never silent",
  "For every public operation and every single allocation that may fail inside it, the operation either still delivers its correct full result or reports an error; it does not crash, leak, double free, hand out a dangling result or silently deliver a truncated or altered one, and objects passed to it can still be used and destroyed.",
  ["fault_sequences"], "every allocation site reached by each operation in the driver, failed one at a time (thorough: every pair)",
  "Tests never see a failing allocation.",
  ["src/event.c", "src/relay_protocol.c", "src/relay_message.c", "src/relay_filter.c", "src/nip21.c", "src/nip51.c", "src/nip65.c", "src/zap.c", "src/nip05.c", "src/nip18.c", "src/nip26.c"], [("error paths of every allocating function", "src/*.c")])

p("C21", "HD derivation implements BIP-32 and parses exactly valid paths",
  "Master and child keys derived from any seed, parent and index equal BIP-32 private derivation (hardened and normal), and deriving along a path equals deriving its steps one by one. A path is accepted exactly when it is m followed by slash-separated decimal indices below 2^31 with an optional hardening mark (' or h); an out-of-range, empty, signed, blank or malformed component is an error, and an error leaves no usable partial key.",
  ["inputs"], "every path string up to a bounded length over the alphabet of path characters, boundary indices around 2^31, 2^32 and 2^64, all derivation step sequences up to the bound against an independent BIP-32 implementation",
  "Tests check the BIP-32 vectors and two bad paths.",
  ["src/hd_key.c"], [("nostr_hd_key_derive / derive_path", "src/hd_key.c")])

p("C22", "Mnemonics: generation, validation and seeds follow BIP-39",
  "A mnemonic validates exactly when it has 12 or 24 words (the supported lengths), separated by single spaces, its words are in the English list and the checksum over the encoded entropy is right; any generated mnemonic encodes the drawn entropy and validates; the seed equals PBKDF2-HMAC-SHA512 over the normalized mnemonic and passphrase. Changing any word so that the checksum no longer fits, any wrong word count and any unknown word is rejected, output sizes are respected and randomness failure is reported.",
  ["inputs", "fault_sequences"], "all 2048 replacements of each word position for each supported length, every word count 0..26, every output buffer size, boundary entropies, randomness failures",
  "Tests check a few published vectors.",
  ["src/hd_key.c"], [("nostr_mnemonic_generate / validate / to_seed", "src/hd_key.c")])

p("C23", "Encrypted private keys decrypt only with the right password, unaltered",
  "Encrypting a private key under a password and decrypting with the same password (the same bytes: Unicode normalization is documented as the caller's part) returns the same key; a different password, any corrupted bit of version, parameters, salt, nonce, associated data, ciphertext or tag, any wrong length or wrong prefix is rejected and releases no key bytes. Work factors out of range, randomness or key-derivation failures are reported as errors.",
  ["inputs", "fault_sequences"], "every single-bit change of the payload re-encoded with a correct checksum, every payload length around the exact one, every buffer size, every failing backend call",
  "Tests corrupt one character of the text (caught by the checksum, so the cryptographic checks behind it are never reached).",
  ["src/nip49.c"], [("nostr_ncryptsec_encrypt / decrypt / validate", "src/nip49.c")])

p("C24", "Delegations authorize exactly the events their conditions allow",
  "A delegation created by a delegator verifies for exactly that delegatee and condition string; an event carrying a delegation verifies exactly when the token is the delegator's signature over this delegatee and these conditions, the event's author is the delegatee, and the event satisfies every condition (one of the kinds if any are given, created_at strictly after every lower and strictly before every upper bound); where it carries several delegation tags, one of them must. Malformed condition strings are rejected, never treated as weaker conditions.",
  ["inputs"], "all condition strings over an alphabet of clauses up to 4 clauses plus all malformed strings up to a bounded length, boundary kinds/timestamps, every single-bit corruption of the token and keys",
  "Tests use a few well-formed conditions; contradictory, repeated and malformed clauses decide security.",
  ["src/nip26.c"], [("condition parser and checker, token verification", "src/nip26.c")])

p("C25", "NIP-51 lists round-trip with private items kept private",
  "Converting a list to an event and back with the owner's keys returns the same kind, for addressable kinds (30000 to 39999) the same identifier, title, description and image, and the same items (an empty optional field equals an absent one) with the same order within public and within private items, for all item kinds and text content; private items never appear in the public tags, and without the keys only public items are returned. List editing operations behave as on a plain sequence and reject out-of-range indices.",
  ["histories", "inputs"], "all editing sequences up to the bound over every item type x public/private x optional fields x special characters",
  "Tests round-trip a couple of lists.",
  ["src/nip51.c"], [("nostr_list_* and its private-content encoding", "src/nip51.c")])

p("C26", "NIP-65 relay lists round-trip and select the right relays",
  "Converting a relay list to an event and back returns the same relays with the same read/write flags in the same order; the read and write selections are exactly the relays so marked. Unmarked relays are both, events of other kinds are rejected, a relay with an unknown marker is either ignored or unmarked, malformed tags yield no relay, a URL already listed or not of the form ws(s)://host is refused.",
  ["histories", "inputs"], "all add sequences up to the bound over URLs x flags, all r-tag shapes (arity, markers, unknown markers), URL boundary cases",
  "Tests use one three-relay list.",
  ["src/nip65.c"], [("nostr_relay_list_*", "src/nip65.c")])

p("C27", "Reply, mention, reaction and repost tags mean what NIP-10/18/25 say",
  "Root and reply ids extracted from an event follow NIP-10 (explicit markers first, otherwise the first and last e tag that is not a mention; a direct reply has only a root), tags written by the reply helper are read back as the same root and reply; a created reaction or repost parses back to the same target, author, kind and content, and like/dislike classification follows NIP-25. Events of other kinds are rejected, malformed ids are never returned, outputs never exceed the given sizes, and quote extraction adds a q tag with the id or address, relay and author of every note, nevent and naddr reference in the text, in order, and nothing else.",
  ["inputs"], "all tag lists up to 4 tags over an alphabet of e/p/other tags with and without markers, relays and bad ids; all helper argument combinations; every output size",
  "Tests check the common shapes only.",
  ["src/nip10.c", "src/nip18.c", "src/nip25.c"], [("nostr_event_get_root_id/get_reply_id, nostr_reaction_*, nostr_repost_*, nostr_quote_tags_from_content", "src/nip10.c, src/nip18.c, src/nip25.c")])

p("C28", "NIP-05 identifiers resolve to exactly the key listed for the name",
  "An identifier is split exactly when it is a valid local part and domain, and the well-known URL built from it addresses that domain and name only. Given a response document, the key returned is the one its names object maps the local name to, and the relays are those listed for that key; a name that occurs elsewhere in the document, or as a value, or a document that is malformed or truncated, never resolves, and nothing leaks.",
  ["inputs"], "all identifiers up to a bounded length over an alphabet of legal and illegal characters; all response documents built from a bounded grammar (order of members, nested occurrences of the name, escapes, missing members), every truncation",
  "Tests parse two or three typical documents; confusion attacks need specific document shapes.",
  ["src/nip05.c"], [("nostr_nip05_parse / build_url / parse_response", "src/nip05.c")])

p("C29", "Zap requests and receipts carry the true amount and parties",
  "A zap request states exactly the amount, recipient, lnurl and relays given; parsing a receipt returns the invoice, preimage and embedded request it contains and the amount the invoice really states, and verification succeeds exactly when the receipt is of the right kind, validly signed by the named server, embeds exactly that request and its invoice states the amount the request asks for. Malformed lnurls (wrong prefix, character or checksum), invoice amounts and embedded requests are rejected, without overflow, leak or dangling results.",
  ["inputs"], "all invoice prefixes (digits x multiplier x none, overflow boundaries), all subsets, orders and duplicates of receipt tags, all lnurl shapes around length limits, all mismatches of a valid pair in one field",
  "Tests parse one invoice and one receipt.",
  ["src/zap.c"], [("nostr_zap_*", "src/zap.c")])

p("C30", "Relay input is handled the same however the network fragments it",
  "The events, notices and status results delivered to the application depend only on the sequence of complete messages the relay sent, not on how they were cut into network fragments or on malformed messages in between: each well-formed message is delivered exactly once, in order, to the right subscription, malformed ones are skipped (or, if their type is known, at most handed to the general message callback) without losing later ones, and over-long input closes or drops only what it must. No input makes the client read or write out of bounds or leak.",
  ["inputs", "fault_sequences"], "all ways of cutting bounded message sequences into fragments (every cut up to the bound), with malformed, oversized and interleaved messages between valid ones",
  "Tests never feed the receive path.",
  ["src/relay.c"], [("receive buffer and message dispatch", "src/relay.c")])

p("C31", "A relay connection's life cycle is consistent under any network behaviour",
  "For every sequence of application calls and network events (connect, established, connection error, close by either side, receive, writable, failed writes, disconnect, destroy, reconnect), calls are accepted exactly in the states in which they make sense, the state callback reports the transitions that happened, and each accepted subscribe, close and publish is sent exactly once as one well-formed message. The attempt goes to the host, port and path the URL names, with TLS exactly for wss. Disconnecting does not wait for the network, no callback follows it, calls that would start or end a connection are refused inside its callbacks. No sequence leaves the client using freed connection resources, and destroying the relay releases everything.",
  ["histories", "fault_sequences"], "all sequences of application calls and mock-network events up to the bound, with failing socket creation, context creation, thread creation and writes",
  "Tests without a network cannot reach any state beyond disconnected.",
  ["src/relay.c"], [("connection state machine, service thread, lws callbacks", "src/relay.c")])

p("C32", "The relay client is race-free between application and service threads",
  "While the service thread delivers messages, the application thread may subscribe, unsubscribe, publish, set callbacks, disconnect and destroy, under every interleaving, without data race, deadlock or use of freed memory, and after an unsubscribe has returned its callback is not called again.",
  ["schedules"], "all schedules of the application thread against the service thread within the preemption bound for each pair of operation and network event, with happens-before race detection",
  "Tests never run both threads.",
  ["src/relay.c"], [("relay mutex, service loop", "src/relay.c")])

p("C33", "Randomness is full-length, never silently failing, and serialized",
  "A request for random bytes either fills every byte of the buffer with fresh generator output and reports success or reports failure, for every length including zero and beyond the generator's request limit, in both crypto builds, with the generator failing at any point of the request; concurrent requests never share output, and a generator that is not itself thread-safe (the mbedTLS one) is only used under mutual exclusion.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "all lengths around every chunk boundary, generator failure at every call, all schedules of 2 threads within the preemption bound; OpenSSL and mbedTLS builds",
  "Tests only look at non-constant output.",
  ["src/key.c"], [("nostr_random_bytes", "src/key.c")])

p("C34", "Relay information documents serialize completely or not at all",
  "The NIP-11 information document serializes to one well-formed JSON object holding exactly the fields that were set, with their values and escapes, for every combination of set fields; every buffer smaller than needed yields the buffer-too-small error without overrun, and adding or replacing supported NIPs keeps exactly the requested list.",
  ["inputs", "histories"], "all subsets of fields (bounded), byte-class texts, every buffer size, all add/set NIP sequences up to the bound",
  "Tests serialize one document.",
  ["src/relay_nip11.c"], [("nostr_relay_info_serialize, nostr_relay_limitation_serialize, nostr_relay_info_add_nip/set_nips", "src/relay_nip11.c")])

p("C35", "Encrypted payloads are exactly NIP-44 and NIP-04, and nothing altered opens",
  "What one party encrypts the other decrypts to the same bytes, for every plaintext length NIP-44 allows; the payload is the one NIP-44 version 2 (NIP-04) prescribes for the two keys, the plaintext and a freshly drawn nonce (iv). A NIP-44 payload altered in any bit or character, truncated, extended, of another version, with a length or padding that does not fit, or meant for other keys, is refused; malformed NIP-04 texts are refused; configured size limits hold; a failure of the generator, the memory or the cryptography yields an error and no output.",
  ["inputs", "fault_sequences", "configurations"], "all plaintext lengths, every bit flip, character replacement, truncation and extension of payloads, every combination of stated and actual length under a right MAC, key pairs, size limits, failures at every point; two crypto builds",
  "No test reaches this code: it needs the noscrypt library; padding classes and malformed payloads need every length and position.",
  ["src/nip44.c", "src/nip04.c"], [("nostr_nip44_encrypt/decrypt, padding, base64", "src/nip44.c"), ("nostr_nip04_encrypt/decrypt", "src/nip04.c")])

p("C36", "The library describes itself as it was built",
  "The feature queries, the feature list, the cryptography backend and the version state exactly what the library was built with, on every call and from every thread; every error code has a text of its own and every other number the text for unknown errors.",
  ["inputs", "schedules", "configurations"], "all NIP numbers and error codes in a range around the valid ones and their aliases, all builds, all schedules of two and three threads asking",
  "Tests ask for a few NIPs in one build.",
  ["src/features.c", "src/relay_protocol.c", "src/key.c"], [("nostr_feature_*", "src/features.c"), ("nostr_error_string, nostr_version", "src/relay_protocol.c, src/key.c")])

p("C37", "A gift wrap is read by its recipient alone, from the author who sealed it",
  "Wherever NIP-17/NIP-59 is compiled in: what is wrapped is exactly what the recipient, and nobody else, unwraps, from the author who sealed it. The wrap is a kind-1059 event signed by a fresh one-time key that names only the recipient (besides the tags asked for), dated within the past two days as the seal is; the seal is a kind-13 event without tags signed by the author; the rumor is unsigned with the id of what it says. Unwrapping refuses a message whose rumor claims another author than the key that sealed it, or with a wrong kind, signature or key, or altered anywhere. Whatever fails on the way (randomness, memory, cryptography) gives an error and no output, never a wrap with the exact time or a guessable key.",
  ["inputs", "adversarial inputs", "failures"], "all parties x contents x subjects x times, five ways of wrapping, hostile seals and rumors rightly encrypted by a reference, every truncation and altered character, random values around every bound, every failure",
  "NIP-17 and NIP-59 are not even compiled in the test configuration; a test could exchange a handful of messages between two fixed keys.",
  ["src/nip17.c", "src/nip59.c"], [("nostr_nip59_*", "src/nip59.c"), ("nostr_nip17_*", "src/nip17.c")])
p("C38", "A wallet session spends within its permissions while it lives, and only then",
  "Wherever NIP-47 is compiled in: a session id is 64 random hex characters, unique, and names its own session and no other, compared exactly and completely. A payment is allowed only in a live session (not destroyed, not past its expiry), under the first permission whose name is the method or \"*\", and only while the amounts allowed since the permission's window began sum to at most its limit (limit 0: none), whatever the amounts; then it is allowed. There are never more sessions than configured, more than ten created in a second, nor more permissions in a session than configured, and up to those numbers they are given. All of it holds when calls come from several threads, without data races, and when memory or randomness fails, without leaks.",
  ["histories", "schedules", "inputs", "failures"], "all histories of create, destroy, extend, permit, pay and passing time up to a depth against a model; limits and amounts around every power of two; all schedules of two and three threads up to a preemption bound with a race detector; every single failure",
  "NIP-47 is not compiled in the test configuration; a test exercises one session from one thread with small amounts.",
  ["src/nip47_session.c"], [("nostr_nip47_session_*", "src/nip47_session.c")])

p("C39", "Wallet messages say exactly what was asked and what was answered",
  "Wherever NIP-47 is compiled in (with cJSON): a connection URI is accepted exactly when it is nostr+walletconnect:// with a 64-digit hex key, a relay and a 64-digit hex secret, and its requests are then signed by that secret's key, sent to that wallet (kind 23194, p and encryption tags, current time), readable by the two of them alone, and contain exactly the given method and the given JSON parameters, whole, or are refused. Answers are read from the event's author by the addressed key only: kind, result type, result, error code and message, notification, the words of an info event, balances, fees, heights and methods come out as they were sent (names compared exactly, integers up to 15 digits exactly, negative, fractional or out-of-range numbers refused), what is absent comes out as NULL or 0, malformed or altered messages are refused without output. Parameters built by the library contain exactly the given values, amounts up to 2^64-1 exactly; incomplete records are refused. When memory, randomness or cryptography fails, the result is an error without output or leak.",
  ["inputs", "adversarial inputs", "failures"], "all arrangements and single-character changes of a URI, key pairs x methods x parameters, answers x readers x tags x outputs, every alteration of an encrypted answer, amounts up to 2^64-1, every failure",
  "NIP-47 is not compiled in the test configuration; its tests use one URI and a few well-formed answers.",
  ["src/nip47.c", "src/nip47_commands.c"], [("nostr_nip47_*", "src/nip47.c, src/nip47_commands.c")])
p("C40", "Remote signing messages say exactly what was asked and what was answered",
  "Wherever NIP-46 is compiled in (with cJSON): a request is read only from a kind-24133 event, by the addressed key, from its author; its id (up to 64 bytes), method (up to 31) and parameters come out exactly as they were sent, the sender being the event's author, and a request without a string id and method, with longer ones, malformed or altered is refused. A response is a signed kind-24133 event of the current time naming its receiver alone, readable by the two parties alone, that contains exactly the id and either the error or the result as a string, character by character, whatever the string looks like, or is refused. When memory, randomness or cryptography fails, the result is an error without output or leak.",
  ["inputs", "adversarial inputs", "failures"], "key pairs x ids x results that look like JSON x errors, ids x methods x parameters in every order and spelling, every length, every truncation and replaced character, every failure",
  "NIP-46 has no tests and is not compiled in the test configuration.",
  ["src/nip46.c"], [("nostr_nip46_*", "src/nip46.c")])

p("C41", "Missing, odd or short arguments get an answer, never a crash",
  "Every function of the public headers (the byte utilities nostr_random_bytes, nostr_constant_time_memcmp and secure_wipe apart) returns without touching memory that is not its own, whichever of its pointer arguments are NULL, alone or together, and whatever its text arguments contain; when an argument it needs (one not documented as optional, and not part of an output the caller may leave out) is NULL it reports an error, or returns NULL, and a function that reports an error leaves its output strings and events unset. Into a caller's text buffer of N bytes nothing is written beyond N: success means that the whole text and its NUL fit, and it succeeds whenever they fit; only texts the caller may leave out altogether (relay hints, reaction contents, ids of the parse functions for reactions and reposts) may be cut off instead, still ended by a NUL.",
  ["inputs", "adversarial inputs"], "all functions x all subsets of missing pointers; all text arguments x odd texts, alone and in pairs; all sized text buffers x every size",
  "The tests miss one argument of a few functions; a forgotten check in one of 258 functions, or a buffer that is one byte short, is never called.",
  ["include/nostr.h", "include/nostr_relay_protocol.h"], [("every public function", "include/nostr.h")])
p("C42", "Calls that share nothing, or only read, never meet across threads",
  "Any two calls of public functions may run at the same time in different threads, from the first use of the library on, when each works on objects of its own or when both only read (take as const) the same one: no memory is touched by both without synchronization, both come back, and each gives the result it gives when it runs alone. (Threaded mining may find another nonce, a wallet session may get another name. nostr_cleanup and registering the configuration callback must not overlap with other calls.)",
  ["schedules"], "all pairs of public functions; all pairs of reading functions on one object; all schedules within the preemption bound",
  "The tests are single-threaded apart from two; a buffer made static or a table filled on first use in any one function passes them all.",
  ["include/nostr.h", "include/nostr_relay_protocol.h", "docs/THREAD_SAFETY.md"], [("every public function", "docs/THREAD_SAFETY.md"), ("nostr_nip44_encrypt", "src/nip44.c")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
