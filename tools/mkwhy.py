import json
import os
P=os.path.dirname(os.path.abspath(__file__))+'/design_why.json'
why={
"C01":("own SHA-256 and a NIP-01 serializer written from the text; buffers end at guard pages","an id is wrong for one escape, digit count or length in 2^n; tests use a few events"),
"C02":("own serializer and SHA-256, libsecp256k1 in a context of the harness; every single-bit change of id, key, signature and of each field; the generator fails at every request","an event that verifies although one field changed is found only by changing each field of each shape"),
"C03":("an independent RFC 8259 reader decides what a text says; every text of a mutation neighbourhood and every allocation failure","malformed texts are unbounded; a test holds a dozen"),
"C04":("a plain list of string lists compared after every step; all arena fill levels around growth","aliasing and growth errors need a particular fill level and operation order"),
"C05":("a character-class acceptor; every byte at every position","a single accepted wrong byte among 255 x 64 x entry points"),
"C06":("BIP-173 written out; all one- and two-character corruptions","error detection is a statement about all corruptions"),
"C07":("TLV and bech32 references; field lists around every capacity","capacity boundaries and TLV damage"),
"C08":("the NIP-01 definition as set membership on plain data","conjunctions of conditions over event shapes: each pair of dimensions interacts"),
"C09":("independent JSON reader; the conditions written, compared by accessor","which text becomes which condition, for every member spelling, type and number"),
"C10":("NIP-01/42/45 shapes on the parsed value","as C03, for arrays of messages"),
"C11":("expected text written independently and read by an independent reader; every output size","exactness of the buffer contract at each size"),
"C12":("order laws checked on all pairs and triples; all 65536 kinds","a total order is a statement over triples"),
"C13":("NIP-09 on plain lists","authorization: no combination of tags and authors may authorize"),
"C14":("each documented predicate written out, clock as a choice, 128-bit arithmetic","arithmetic boundaries, every clock value"),
"C15":("sequential model of (active configuration, callback); linearizability under every schedule; race detector","torn or half-applied configurations need an interleaving"),
"C16":("curve contexts are a counted seam: uses of destroyed contexts, leaks, double creation; all orders and schedules","double initialization, use after cleanup need an order or interleaving"),
"C17":("every attempted nonce observed; result judged by an independent difficulty count; all schedules, thread-creation failures","one wrong nonce in one interleaving"),
"C18":("bit-by-bit difficulty and a reference miner that tries every nonce","agreement for all digests and budgets"),
"C19":("public keys and shared points from libsecp256k1 in an own context; backend calls and generator fail","a key pair marked usable after a failure at one point"),
"C20":("success must equal the undisturbed result, failure must leave inputs usable; allocation accounting; OpenSSL's own allocations too","each operation has many allocation points, tests fail none"),
"C21":("own SHA-512, HMAC and arithmetic modulo n, path grammar; HMAC may return digests no input is known for","boundary indices, unusable digests, malformed paths"),
"C22":("own BIP-39 with the published word list; PBKDF2 and NFKD written out","checksum and word list: every word and replacement"),
"C23":("own XChaCha20-Poly1305; scrypt as a cheap function of all parameters, once the real one","every bit of the payload"),
"C24":("condition grammar evaluated clause by clause on a grid of kinds and times","conditions interact; repeated bounds"),
"C25":("a plain array of items; a keyed stand-in for NIP-44 that checks the keys it is given","editing sequences and items at every length limit"),
"C26":("a plain array of (url, read, write)","sequences of adds, growth, markers"),
"C27":("the set of answers NIP-10/18/25 allow for a tag list","every list of tag shapes and buffer sizes"),
"C28":("independent JSON reader; top-level names and relays alone","documents that resolve to another key: nested, truncated, malformed"),
"C29":("BIP-173, BOLT-11 amounts in 128-bit arithmetic, receipts by construction","overflow boundaries and mismatched pairs"),
"C30":("what each message says, read independently, is what must be delivered; mock network hands out every fragmentation","fragmentation is chosen by the network"),
"C31":("a model of the connection (state, subscriptions, callbacks) compared after every step; the mock checks the use of connections","orders of calls and network events, failures inside them"),
"C32":("race detector, the mock's checks and the C31 model's invariants under every schedule","interleavings of application and service thread"),
"C33":("a generator that hands out unique bytes, checks its life cycle and who is inside; failures at every request","a failure or interleaving at one request"),
"C34":("the document written a second time, compared as JSON values; plain array of numbers","every subset of members, every buffer size, every allocation failure"),
"C35":("NIP-44 v2 and NIP-04 written out (`refnip44.h`), the payload compared byte for byte","every length, alteration and stated length; the code is not even compiled by the tests"),
"C36":("the build's own configuration macros; race detector","every number, and first calls made at the same time"),
"C37":("a reference with its own cryptography that opens both layers of every wrap and writes every hostile message (`party.h`)","hostile but rightly encrypted messages, every altered character, and each failing step"),
"C38":("a model of the sessions compared after every call; race detector","every history and schedule up to the bound, and amounts near 2^64"),
"C39":("a reference that opens every request and writes every answer (`party.h`, `rj.c`)","every malformed, altered and oversized message, exact amounts; the code is not compiled by the tests"),
"C40":("a reference that writes every request and opens every response (`party.h`, `rj.c`)","results that look like JSON, every length and alteration; the code is not compiled by the tests"),
"C41":("AddressSanitizer and UBSan, the list of arguments that may be left out (in `checks/c41.c`), and the same call with ample buffers","every public function with every subset of its pointers missing, not the one call a test thought of"),
"C42":("a happens-before race detector over every access of the library, and what each call gives when it runs alone","two calls meet in every pair and every order of their synchronization, not by luck"),
}
missed={
"c04-nonce-growth-forgets-last-tag":"scenarios over tag widths and many growths added",
"c15-copy-shared-by-threads":"the reader now re-reads the configuration it holds at later scheduling points",
"c21-account-masked":"scenario `accounts` added","c27-kind-signed":"scenario `addresses` added","c27-reaction-long-content":"scenario `classes` added",
"c28-half-key-compared":"scenario `digits` added","c29-request-amount-32bit":"scenario `amounts` added","c29-server-key-almost":"scenario `serverkey` added",
"c31-control-in-subscription-id":"scenario `ids` added","c33-negative-is-success":"the generator now also fails with -1","c34-nip-truncated-after-255":"scenario `magnitudes` added",
}
try: sc=json.load(open(P))["scenarios"]
except Exception: sc={}
json.dump({"why":{k:{"oracle":a,"reach":b} for k,(a,b) in why.items()},"missed":missed,"scenarios":sc},open(P,'w'),indent=1,ensure_ascii=False)
