TRUST = "Trusted: the verifier's Go semantics (cross-checked by the conformance run), the SMT solvers, crypto primitives as uninterpreted functions with their algebraic laws, library models. Partial correctness; goroutines sequentialised or excluded."

P("C01", "Cipher and key primitives compute the documented function for every input",
  "Every symmetric cipher, hash, MAC and key object of the cipher layer computes the standard primitive on exactly the bytes it was given, draws exactly one fresh IV or key of the right length from the given random source, and refuses keys and ciphertexts of the wrong length. Decrypting an encryption under the same key returns the plaintext, and installing a key of the wrong length fails and leaves the key object unchanged.",
  ["inputs"], "All keys, plaintexts, ciphertexts (of every length) and random sources.",
  "The tests encrypt and decrypt a few fixed strings with well-formed keys; wrong lengths, short ciphertexts, failing random sources and key-object state after an error are never reached.",
  ["cipher/sha.go", "cipher/curve25519.go", "cipher/ed25519.go", "cipher/hmac.go", "cipher/nonce.go", "cipher/naclbox.go", "cipher/aes256/aes256.go"],
  [("IV handling and length checks", "cipher/aes256"), ("key setters and generators", "cipher/curve25519.go, cipher/ed25519.go")],
  "Proof of postconditions for every input of the cipher and aes256 packages. " + TRUST)

P("R01", "Root key agreement: both sides derive the same key, reflections are refused",
  "For every pair of identity, session and key-init keys, sender and recipient feed the same three Diffie-Hellman results in the same order, together with the previous root key hash, into the key derivation and so obtain the same root key. Whenever any two of the five public keys involved are equal (or a peer key equals one's own) the agreement fails and nothing is stored.",
  ["inputs"], "All key combinations, with and without a previous root key.",
  "Tests run the agreement with a handful of freshly generated, pairwise different keys and cannot show that every equal pair is refused or that the two sides agree for all keys.",
  ["msg/keys.go", "msg/encrypt.go", "msg/decrypt.go", "cipher/curve25519.go"],
  [("pairwise distinctness check", "msg/keys.go"), ("HKDF over the three shared secrets and the previous hash", "msg/keys.go"), ("the two directions of the agreement", "msg/encrypt.go, msg/decrypt.go")],
  "Proof of the agreement functions against dh/HKDF as uninterpreted functions; both sides' postconditions have the same right-hand side up to commutativity of dh. " + TRUST)

P("R02", "Message keys follow the documented hash chain on both sides",
  "From one root key both parties derive the same infinite sequence of message keys: the key number n of a direction is a fixed function of the root key, n, the direction's public key and both identities, the chain key advances one way with every message, and the sender's sending keys are the recipient's receiving keys. The root key is erased after use, and sessions are filed under a key both sides compute identically.",
  ["inputs", "histories"], "All root keys, identities, public keys, directions and key counts.",
  "Tests derive fifty keys for one pair of identities; agreement for all identities (including their ordering), all counts and both directions is a statement about a loop over unbounded input.",
  ["msg/keys.go", "msg/session/session.go"],
  [("chain derivation loop", "msg/keys.go"), ("session and state key calculation", "msg/session/session.go")],
  "Proof with a loop invariant over the number of keys. " + TRUST)

P("D01", "A message decrypts only if it is authentic and from the sender it names",
  "Decryption reports success only for a message whose packets arrive complete, in order and untampered under the message key shared with the sender, whose header was sealed by the header key, and whose attached sender identity record is self-signed, names the sender identity and contains the identity key that took part in the key agreement. A reported content signature was made over exactly the delivered content by that sender's signature key.",
  ["inputs", "histories"], "All byte strings offered for decryption, all session histories.",
  "The tests decrypt messages that were encrypted honestly; they cannot enumerate modified, truncated, re-ordered, spliced or forged messages.",
  ["msg/decrypt.go", "msg/header.go", "msg/outer.go", "msg/inner.go", "msg/preheader.go", "msg/procuid.go", "msg/first.go", "cryptengine/encrypt.go", "cryptengine/decrypt.go"],
  [("packet framing and counters", "msg/outer.go"), ("header key verification and sender check", "msg/header.go"), ("HMAC and signature verification", "msg/decrypt.go")],
  "Proof of the framing readers, the header and sender checks and of Decrypt as a whole, for all inputs; real keys and messages (tampering, truncation, splicing, forged senders) by the bounded conformance run. " + TRUST)

P("D02", "A message key is used once: replays are refused",
  "After a message has been decrypted, its message key is gone, so decrypting the same message again fails, while every other message key of the session stays usable. Looking up a used or never generated key reports an error instead of a key.",
  ["histories", "inputs"], "All sequences of storing, fetching and deleting message keys, all indices.",
  "Tests replay at most one message; that no sequence of operations revives a key, and that deletion touches no other key, ranges over all histories and indices.",
  ["msg/decrypt.go", "msg/session/memstore/memstore.go"],
  [("key lookup and deletion", "msg/session/memstore/memstore.go"), ("deletion after successful decryption", "msg/decrypt.go")],
  "Proof of the store's lookup and deletion for all indices and contents. " + TRUST)

P("P01", "Every encoded message has the same size, whatever it contains",
  "An encrypted message has one fixed encoded length, and its encrypted header one fixed length, independent of content length, signing, identities, counters and session state; content that does not fit is refused. Padding has exactly the requested length, comes from the random source, and decimal widths are counted correctly for every number.",
  ["inputs"], "All contents up to and beyond the maximum, all counters, identities and optional header fields.",
  "Tests encrypt a few contents; a size leak for one particular counter width or field combination would not be noticed.",
  ["msg/msg.go", "msg/header.go", "msg/encrypt.go", "msg/padding/padding.go", "util/digits/digits.go"],
  [("header padding", "msg/header.go"), ("content padding", "msg/encrypt.go, msg/padding/padding.go"), ("digit count", "util/digits/digits.go")],
  "Proof of the padding generator, the digit counter, the header sealing and of Encrypt as a whole: the number of bytes written is one constant for all inputs. " + TRUST)

P("T01", "Wire codecs are exact inverses and reject what they do not understand",
  "Every integer, base64 and packet-header encoding is decoded to the value that was encoded, with the documented byte order and field widths. A decoder that succeeds has consumed exactly the bytes whose encoding is its result; unknown types, wrong versions, wrong suites and truncated input are errors.",
  ["inputs"], "All values and all byte strings.",
  "Tests use one or two values per codec, so widths, byte order of large values, truncation at each position and unknown types remain open.",
  ["encode/convert.go", "encode/base64/base64.go", "msg/outer.go", "msg/inner.go", "msg/preheader.go", "msg/first.go"],
  [("little-endian integers", "encode/convert.go"), ("base64", "encode/base64/base64.go"), ("packet headers", "msg/outer.go, msg/inner.go, msg/preheader.go")],
  "Proof of the codecs for all values. " + TRUST)

P("H01", "A hash chain entry splits only if well-formed, into exactly its fields",
  "Splitting a key server hash chain entry succeeds exactly when it is valid base64 of the documented length with the documented type, and returns the documented slices, which concatenate to the entry again. Every other string is refused.",
  ["inputs"], "All strings.",
  "The tests split one fixed entry.",
  ["keyserver/hashchain/hashchain.go"],
  [("entry layout", "keyserver/hashchain/hashchain.go")],
  "Proof for all strings. " + TRUST)

P("M01", "The session store returns exactly what was stored, for every history",
  "The in-memory session store behaves as a map: a state, session, key entry or session key that was stored is what a later lookup returns, adding further message keys keeps all earlier ones and their order, deleting or cleaning up removes exactly the addressed entries, and a missing entry is reported as missing. Two states compare equal exactly when all their published fields are equal.",
  ["histories", "inputs"], "All sequences of store operations and all keys and values.",
  "The tests exercise a fixed sequence of store operations with a single session.",
  ["msg/session/session.go", "msg/session/memstore/memstore.go"],
  [("maps and slices of the store", "msg/session/memstore/memstore.go"), ("state comparison", "msg/session/session.go")],
  "Proof of each operation's effect on the abstract maps (including what it leaves unchanged); histories by composition. " + TRUST)

P("U01", "An identity record is accepted only if well-formed and self-signed",
  "The self-signature check of an identity record accepts exactly when the record's own signature key signed the canonical encoding of the content. The structural check accepts only records of the documented version with one encryption key of the documented suite, a signature key of the documented suite, and none of the fields that version forbids.",
  ["inputs"], "All records, including malformed keys, signatures and optional parts.",
  "Tests check records that the code itself created; rejected shapes form an unbounded set.",
  ["uid/uid.go"],
  [("self-signature verification", "uid/uid.go"), ("structural check", "uid/uid.go")],
  "Proof of the exact acceptance condition over the canonical encoding as an uninterpreted function. " + TRUST)

P("U02", "An identity update is accepted only as the signed direct successor",
  "An update is accepted exactly when its counter is the predecessor's counter plus one (without wrapping around) and the predecessor's signature key signed its content. An update created by the owner keeps the identity, increments the counter, and is signed by both the old and the new key; a signed nonce verifies exactly for the signed value and key.",
  ["inputs", "histories"], "All pairs of records, counters and nonces, and thus all update chains.",
  "Tests update once or twice from counter zero.",
  ["uid/uid.go"],
  [("successor verification", "uid/uid.go"), ("update construction", "uid/uid.go"), ("nonce signature", "uid/uid.go")],
  "Proof of the exact acceptance condition, in machine arithmetic with wraparound, and of Create and Update. " + TRUST)

P("U03", "A key server reply is accepted only for the record sent and only if signed",
  "A reply verifies exactly when the server key signed it and it carries the encryption, under the record's own hash, of exactly the record that was sent, at the index derived from that record. Decrypting a reply of any shape returns an error instead of crashing, and encrypting a record yields the documented hash, index and ciphertext.",
  ["inputs"], "All replies, including truncated and undecodable ones, all records and server keys.",
  "Tests verify a reply made by the same code for the same record.",
  ["uid/uid.go"],
  [("record encryption", "uid/uid.go"), ("reply decryption and verification", "uid/uid.go")],
  "Proof of the exact acceptance condition, and of KeyInit, which makes such messages. " + TRUST)

P("U04", "A key-init message yields a session key only if valid and signed",
  "A key-init message verifies exactly when it is unexpired, its lifetime bounds are consistent, its session anchor hash matches and the owner's signature key signed its content; the session key is only released from an anchor that decrypts, matches its hash and contains a valid session key of the right kind. Malformed anchors and keys are reported as errors.",
  ["inputs"], "All key-init messages, clocks, and signature keys.",
  "Tests cover one freshly created message and two or three deviations.",
  ["uid/keyinit.go"],
  [("validity window and signature check", "uid/keyinit.go"), ("session anchor decryption", "uid/keyinit.go")],
  "Proof of the exact acceptance condition. " + TRUST)

P("U05", "A key entry is accepted only if its hash and length match its public key",
  "A key entry verifies exactly when its suite and function are the documented ones, its public key has the right length and its hash is the hash of that key; a generated entry always verifies and holds the matching private key. Key accessors return exactly the published key, comparison is over all published fields, and no absent entry makes it crash.",
  ["inputs"], "All key entries, including malformed base64 and wrong lengths.",
  "Tests check generated entries and a few broken ones.",
  ["uid/keyentry.go"],
  [("verification", "uid/keyentry.go"), ("key generation and accessors", "uid/keyentry.go")],
  "Proof of the exact acceptance condition. " + TRUST)

P("K01", "A configuration is accepted only if signed by the pinned key, fresh, not older",
  "Certify accepts a downloaded configuration exactly when it decodes, its signature date is not before the last accepted one, lies at most four hours from the current time in either direction, and the pinned 32-byte public key signed exactly its entries (every key and value, in ascending key order, each with its length) together with that date; the returned configuration holds exactly the signed entries. A public key of any other length verifies nothing. A generated certificate is such a configuration, signed now.",
  ["inputs"], "All certificates (well-formed, tampered or undecodable), all maps, keys, dates and clocks.",
  "The package's tests do not compile on this Go version; even when they did, they verified one map with one altered date and one altered signature byte.",
  ["configclient/sortedmap/map.go", "configclient/sortedmap/signedmap.go", "configclient/client.go"],
  [("sorting and image", "configclient/sortedmap/map.go"), ("acceptance of a certificate", "configclient/sortedmap/signedmap.go"), ("download with the pinned key", "configclient/client.go")],
  "Proof for all maps: sorting yields the map's entries strictly ascending, the image is the hash of their encodings, acceptance is the stated condition. " + TRUST)

P("K02", "A configuration update takes over only certified data, keeps the old on failure",
  "An update asks every configured server in turn until one delivers a configuration certified by the pinned key and not older than the last one, and then uses exactly that configuration and its date. If the configuration names a CA certificate hash, the CA certificate in use afterwards is PEM encoded and has this hash; otherwise the CA certificate stays as it was. A failed update changes neither the configuration, nor the CA certificate, nor the last accepted date, never panics on what a server sends, and leaves later updates able to succeed.",
  ["inputs", "histories"], "All server responses, all sequences of updates and all starting states.",
  "The tests of the update need a running server and are skipped; partial failures over several servers and repeated updates are never reached.",
  ["configclient/client.go", "configclient/cahash/hash.go", "configclient/roundrobin/roundrobin.go"],
  [("update loop over servers", "configclient/client.go"), ("certificate hash", "configclient/cahash/hash.go"), ("server order", "configclient/roundrobin/roundrobin.go")],
  "Proof of the update for any network behaviour, and that the server order lists exactly the configured servers. The priority order itself and that every server is asked are checked by the conformance run. " + TRUST)

P("S01", "Service guard requests and wallet tokens are signed over all they say",
  "The signature of a reissue or spend request covers exactly its call type, the token and, for a reissue, the blinded new token and the parameters, each separately hashed; a signed request verifies exactly when the given key signed this image, an unsigned one only when no key is expected, and a signed one never without a key. A wallet authentication token names its public key, holds a fresh nonce, the time and the counter, and is accepted exactly when it has its length and this key signed everything before the signature; checking any other byte string is an error. The replay error of the server yields exactly the counter it names, any other error text is passed on and never crashes.",
  ["inputs"], "All packets, tokens, keys, counters, clocks and error texts.",
  "The packages' tests are not run reliably or sign and verify one packet; no test changes a part of a packet or a token, or feeds back a short or malformed error text.",
  ["serviceguard/common/types/types.go", "serviceguard/common/walletauth/walletauth.go"],
  [("images and signatures of the packets", "serviceguard/common/types/types.go"), ("authentication token", "serviceguard/common/walletauth/walletauth.go")],
  "Proof of the images and of the exact acceptance condition for all packets and tokens. " + TRUST)

P("S02", "A token key is used only if a trusted service guard signed exactly this key",
  "The ID of a blind signature key is the hash of its point, expiry, usage and signer, and a key verifies exactly when its ID is this hash and the given signer signed it; the key pool accepts a key exactly when its usage fits, it is unexpired, its signer is one of the trusted verification keys and it verifies; a key once in the pool is never replaced or lost. A lookup returns only the key of the requested ID, unexpired, under these rules even when the key comes from a storage back end, and otherwise an error. The current signing key of a generator is self-signed, was stored before it is used, is in the pool and is replaced when half of its lifetime has passed, the replaced one being kept as the previous key. The client trusts only signers from the list its trust root signed, or stored before.",
  ["inputs", "histories"], "All keys and pool contents, all histories of loading, fetching and generating keys, all storage answers and clocks.",
  "The package's tests load a key or two generated by the same code and are not run reliably; forged keys, wrong storage answers, failing storage and the rollover are never reached.",
  ["serviceguard/common/signkeys/keys.go", "serviceguard/common/keypool/generator.go", "serviceguard/client/clientlib.go"],
  [("key ID and signature", "serviceguard/common/signkeys/keys.go"), ("acceptance and lookup", "serviceguard/common/keypool/generator.go"), ("rollover", "serviceguard/common/keypool/generator.go")],
  "Proof over all pool contents with the pool invariant (every key under its own, signed ID). The locking is not modelled; the storage chain is bounded (conformance run). " + TRUST)

P("S03", "A reissue exchanges exactly the token given for one blinded under a trusted key",
  "A new token names the issuing key and its owner, or holds random bytes in place of the owner, and a fresh nonce; its hash covers key, owner flag, nonce and owner; a reissue request is made only with parameters whose key a trusted service guard signed, of the same usage and signer as the old token's key; it carries the old token unchanged, the blinding of exactly the new token's hash under this key, and the parameters, and is signed by the owner's key: an owned token is not reissued without one. What is kept locally belongs to this request; the signature that comes back is turned into a token only if it is a signature of the new token's hash under the issuing key, the token otherwise keeping its content; anything else is an error, never a crash. Every codec of tokens, keys, parameters and packets carries every field.",
  ["inputs"], "All tokens, keys, owners, parameters, server answers and random sources.",
  "The issuing tests need a server or are not compiled; only the shape of a new token is tested, with one key.",
  ["serviceguard/common/token/types.go", "serviceguard/common/types/types.go", "serviceguard/client/packetproto/methods.go"],
  [("token content and hash", "serviceguard/common/token/types.go"), ("request and unblinding", "serviceguard/client/packetproto/methods.go"), ("codecs", "serviceguard/common/types/types.go")],
  "Proof for all inputs, the blind signature library (jjm) and ASN.1 being external functions with recorded calls; that its signatures verify end to end is checked by the conformance run. " + TRUST)
P("S04", "Only a token its issuing key signed, unexpired, new and ours, is accepted",
  "A token received from somebody else is accepted only if the key it names is known, or fetched from the key server under exactly the requested key ID, and is signed by a trusted service guard; this key is not expired; the token's signature is one of its key, owner flag, nonce and owner; it is for the expected usage; it is owned by this wallet's key; and no token with its hash is stored yet; what is stored is what was verified, and a token that could not be stored is not accepted. The list of trusted service guards is taken only if the pinned key signed it. Any token, whatever its bytes, and any key server reply, whatever its JSON values, is an error or accepted as specified, never a crash; a refused token changes neither the wallet nor the keys already known.",
  ["inputs"], "All token encodings, keys, owners, usages, times, key server replies and wallet contents.",
  "The package's own tests do not compile: there is no test of receiving a token at all.",
  ["serviceguard/client/verify.go", "serviceguard/client/receive.go", "serviceguard/client/keylookup/impl.go"],
  [("verification", "serviceguard/client/verify.go"), ("receiving", "serviceguard/client/receive.go"), ("key lookup and verify list", "serviceguard/client/keylookup/impl.go")],
  "Proof for all inputs, the blind signature library (jjm), ASN.1, JSON-RPC and the wallet store being external functions with recorded calls; end-to-end acceptance and rejection with real signatures, over loopback servers, is checked by the bounded conformance run. " + TRUST)
P("S05", "Obtaining or reissuing a token never loses it, whatever fails and whenever",
  "A token is reissued only while its lock is held, by its owner's key, and the lock is given back on every path; the request, with what is needed to complete it, is stored before it is sent, and an interrupted reissue is resumed with exactly the stored request. The old token is deleted only after the answer was unblinded to a valid signature and the new token is stored or already there; an entry already present is never overwritten; every call goes to the server of the service guard whose key is meant, or to the wallet server, checked by the given certificates; a token is asked of the wallet server for the usage wanted, taken only with a key of a trusted service guard, and stored as received before it is reissued; an error of the store, of the wallet server or of the service guard is returned as an error, not hidden. Hence after any crash or failure the wallet still holds the old token, or the new one, or the stored request to get it, and trying again works; any reply of either server is an error or used as is, never a crash.",
  ["inputs", "crash_points", "histories"], "All wallet contents, owners, server replies and failures, and every point at which a store or server call fails or the process dies.",
  "The package's own tests do not compile; nothing exercises a failing store, a lost answer or a second attempt.",
  ["serviceguard/client/reissue.go", "serviceguard/client/walletserver.go", "serviceguard/client/guardrpc/client.go", "serviceguard/client/walletrpc/client.go"],
  [("reissue", "serviceguard/client/reissue.go"), ("tokens from the wallet server", "serviceguard/client/walletserver.go"), ("server calls", "serviceguard/client/guardrpc/client.go")],
  "Proof of the order of store, send, unblind, store and delete for all inputs and replies, over recorded calls of the store and the servers; that retrying after a crash at every call recovers the token is checked by a bounded conformance run with a crashing store. " + TRUST)

P("X01", "A mix message opens only at its mix, bounded and once, and leaves as it came",
  "A message for a mix opens only for the owner of the key it was sealed for, and only to exactly the header and message it was made from, with fresh randomness for every message; nothing of a message, whatever its bytes, makes a mix or a recipient crash. A mix takes a message only if its size is within the limits of its type and, for a relay message, if the nymaddress (its private part, which nobody but the owner can change) is unexpired and was made for this mix; it must see the hash of the message's first 256 bytes only once, until the nymaddress expires or two days have passed, and also the receiver's key if the nymaddress is single use. A forwarded message goes unchanged to the header's address; a relayed one goes to the mailbox of the nymaddress, sealed under a fresh key only the nymaddress' owner has, with the parts of the nymaddress the owner needs, and the owner reads exactly what the sender wrote or gets an error.",
  ["inputs"], "All messages, headers, nymaddresses, keys, times and sizes, and every failure of the random source.",
  "The package's own tests do not compile; they tried one message of each type, and no malformed, short, long, expired or changed one.",
  ["mix/mixcrypt/envelope.go", "mix/mixcrypt/clientmix.go", "mix/mixcrypt/mixclient.go"],
  [("envelope", "mix/mixcrypt/envelope.go"), ("client to mix", "mix/mixcrypt/clientmix.go"), ("mix to client", "mix/mixcrypt/mixclient.go")],
  "Proof for all inputs; ASN.1 encoding, curve25519, AES-GCM and HMAC are external functions with their inverse laws. " + TRUST)
P("N01", "A nymaddress binds mix, mailbox and nym so that only its owner can recognise it",
  "A nymaddress is made for a mix out of the candidates whose key outlives it, and is not made when there is none; its private part, encrypted for that mix's key with a fresh key, holds the mailbox, expiry, single-use mark and delays it was made with, and the mix reads exactly these. From a relay header and the mailbox it arrived at, the owner's secret recovers exactly the nym, and the key the mix used; for any header whose nonce, receiver key, encrypted nym or authentication was changed or cut differently, another mailbox or another secret there is an error. Malformed and expired addresses are errors; two addresses for one nym share no part made from randomness.",
  ["inputs"], "All secrets, mailboxes, nyms, candidate lists, expiry times, header and address bytes, and failures of the random source.",
  "The tests make one address from one candidate list, and change nothing in it.",
  ["mix/nymaddr/addr.go", "mix/nymaddr/crypt.go", "mix/mixaddr/addrlist.go"],
  [("address and header", "mix/nymaddr/addr.go"), ("nym encryption", "mix/nymaddr/crypt.go"), ("choice of the mix", "mix/mixaddr/addrlist.go")],
  "Proof for all inputs; ASN.1, curve25519, HMAC, AES-CTR and lioness are external functions with their inverse laws; that unequal inputs give unequal MACs is cryptography and only exercised by the conformance run. " + TRUST)
P("A01", "Mix addresses come only from signed statements, and keys end when they expire",
  "The addresses of a statement are taken over only if the statement's key signed the image of the whole list, in order, every field of it, and then exactly the unexpired ones are appended, without touching those already there; expiring a list keeps exactly the addresses that expire later, and a random address is one of the list. A mix's key list gives out a private key or entry only for a key it has that is not expired; expiring removes exactly the expired keys; a new key is fresh, its public part belongs to its private part, and it joins the list with the configured duration; and the statement made then lists exactly the mix's keys, signed with the mix's key. Keys survive being stored and read again.",
  ["inputs", "histories"], "All lists, statements, keys, clocks and histories of adding, expiring, storing and reading.",
  "The package's own tests do not compile; they looked at one list and one key.",
  ["mix/mixaddr/addrlist.go", "mix/mixaddr/privkey.go"],
  [("statements and lists", "mix/mixaddr/addrlist.go"), ("key list", "mix/mixaddr/privkey.go")],
  "Proof for all inputs of each operation (the image of a list has no separators, so it is the image that is signed); reading stored keys and the agreement over histories by the bounded conformance run. Locking is not modelled. " + TRUST)
P("W01", "A mix mail carries its message, and is kept until a server took it",
  "A message is created for the mix of the recipient's nymaddress, sealed as a relay message with its delays and token and mailed to that mix with the revocation ID the mix will know; a message that could not be created is never delivered and keeps its error. A mail holds its body in lines of at most 72 characters, and reading it gives exactly the body; a mail over the size limit, or one that is none, is an error, never a crash. Delivering a message tells the server exactly sender, recipient and mail and counts as sent exactly when the server took the mail; then nothing of it but the revocation ID is kept and it is not sent again. If a step failed it is kept whole with the reason, to be sent again unless the server refused for good. With an authority given nothing of the message is told to a server that does not prove its name by it. A message stored and read back, known errors included, is the same; a mix's keys and revocation answers are taken only from the mix found for the address, over a connection verified by the authority given.",
  ["inputs", "histories"], "All messages, addresses, delays, server replies at every step of the SMTP session, certificates, stored messages and answers of a mix.",
  "The tests store one message and write one mail; the delivery test needs the network, and no failing server, refusal or wrong certificate is tried.",
  ["mix/client/send.go", "mix/client/io.go", "mix/client/errors.go", "mix/client/mixrpc.go", "mix/smtpclient/client.go"],
  [("creation, delivery, storing", "mix/client/send.go"), ("mail form", "mix/client/io.go"), ("SMTP session", "mix/smtpclient/client.go"), ("calls to a mix", "mix/client/mixrpc.go")],
  "Proof for all inputs and all outcomes of every SMTP and HTTPS step; net/smtp, net/http, net/mail and x509 are external functions with recorded calls, exercised end to end over loopback servers by the bounded conformance run. " + TRUST)
P("W02", "Account calls are authenticated anew, retried on replay and answered as said",
  "Every call to an account server goes to the server named (for a payment without a known server, to the default one) under the certificate given, with the call's own arguments and an authentication token that the account's key signed; after a replay error it is made again, with a new token whose counter follows the one the server named, at most four times in all; any other error comes back as the server said it. The result is exactly what the server answered: the server of the account, whether it was deleted, its time, the messages since the given time in the order listed with ID, times and 32-byte user key, or the message fetched; an answer that lacks a part or has one of another type or length is an error and gives nothing, and no answer makes the client crash. The account's key is not changed.",
  ["inputs", "histories"], "All keys, tokens, servers, arguments, certificates and sequences of server answers, whatever their JSON values.",
  "The repository says of these functions that all tests were removed; no test calls one.",
  ["mix/client/accountrpc.go", "mix/client/receive.go", "serviceguard/common/walletauth/walletauth.go"],
  [("account calls", "mix/client/accountrpc.go"), ("fetching a message", "mix/client/receive.go")],
  "Proof for all inputs and answers of what a successful call sent and what it returns; the retry counter over sequences of answers by the bounded conformance run against loopback servers; JSON-RPC, HTTPS and the clock are external. " + TRUST)
P("J01", "A JSON call reaches only the certified server, and its answer comes back as sent",
  "A client for an https URL trusts exactly the certificates given with it, and is not made without one or for a malformed URL; a call is one POST to the client's URL carrying the method and the arguments (an empty object for none), over a connection that was verified by those certificates only; the answer's result is returned as sent, the server's error as its text, and an answer that is no JSON-RPC result is an error, never a crash.",
  ["inputs"], "All URLs, certificates, methods, arguments and answers.",
  "The test makes one call over plain HTTP.",
  ["util/jsonclient/jsonclient.go"],
  [("client and calls", "util/jsonclient/jsonclient.go")],
  "Proof that the connection's trust is exactly the given certificates and that the request is the one asked for; net/http, x509 and the JSON-RPC codec are external functions with recorded calls, exercised by the bounded conformance run. " + TRUST)

P("V01", "Key server data is only accepted along a verified hash chain and signature chain",
  "Synchronising copies every missing hash chain entry of a domain to exactly its position, without gaps, and an answer that does not hold what was asked for is an error, never a crash; a chain is valid only if every entry is well formed and linked to the one before and the entries given for the own IDs are in it; and a public ID fetched by search or lookup is stored at a position only if that entry was made for this identity and exactly this message, the message signed itself, the domain's key server signed the reply with its key of that time, and an update is the successor signed with the previous key; every entry for the identity is found or the search fails. An identity counts only in its one canonical form: local parts are mapped to lower case a to z, 2 to 9 and single inner - and . (0, 1 and j as o, l and i), anything else is refused.",
  ["inputs", "histories"], "All chains, replies, messages, positions, identities and malformed answers.",
  "The package has no tests.",
  ["cryptengine/hashchain.go", "uid/uid.go", "uid/identity/identity.go", "keyserver/hashchain/hashchain.go"],
  [("hash chain", "cryptengine/hashchain.go"), ("identities", "uid/identity/identity.go")],
  "Proof over the contracts of the ID messages, for every chain length and every reply; the local key database enters by the contracts proved under K03 and assumptions on what SQLite finds; the JSON-RPC call, CKDF's key derivation and MapLocalpart are external functions with assumed contracts, exercised by the bounded conformance run against a real database and a loopback key server. " + TRUST)
P("V02", "Own IDs and key init messages are exchanged only with a checked key server",
  "The key server of a domain is reached only at its configured or given address with the expected authority, its capabilities are asked for once and a method it does not announce is not called; registering or updating sends the own ID once and succeeds only if the server signed the stored reply for exactly this ID; a new ID is linked to the last known hash chain entry and stored with its keys, except a key server's; own key init messages are stored only with the server's signature; a fetched one is stored only if the owner of the ID signed it and it is valid for the ID's repository; and keys from the local database are used only at full length.",
  ["inputs", "histories"], "All identities, answers, capabilities, tokens, stored keys and malformed replies.",
  "The package has no tests.",
  ["cryptengine/keyinit.go", "cryptengine/uid.go", "cryptengine/keystore.go", "cryptengine/cache/cache.go", "uid/keyinit.go", "uid/uid.go"],
  [("key init messages", "cryptengine/keyinit.go"), ("own IDs", "cryptengine/uid.go"), ("stored keys", "cryptengine/keystore.go"), ("clients", "cryptengine/cache/cache.go")],
  "Proof over the contracts of the ID and key init messages; the local key database enters by the contracts proved under K03; the JSON-RPC call and the JSON codec are external functions with assumed contracts, exercised by the bounded conformance run against a real database and a loopback key server. " + TRUST)

P("E01", "An encrypted database opens with its passphrase only; rekeying never loses it",
  "The key file of a database holds the number of iterations, a fresh random salt, and the database's random key encrypted under a fresh IV by the key derived from exactly the passphrase, salt and iterations, and reading it with the passphrase gives this key; a key file cut anywhere, or with an impossible number of iterations, is an error. A database is made only if neither of its files existed, with a fresh key, and never unencrypted; it is opened only if encrypted, with the key of its key file, and only after this key has opened it. Rekeying starts only after the old passphrase opened the database, keeps the database's key, and replaces the key file in one step by a complete new one under the new passphrase: whatever step fails or wherever the process dies, the key file is the old one or the new one. The engine makes or rekeys its key database only with passphrases as they were entered, the new one twice alike.",
  ["inputs", "crash_points"], "All passphrases, iteration counts, key file contents, failures of the file system and of the random source, and every point at which the process dies.",
  "Tests rekey one database once; no failing or interrupted step and no damaged key file is tried.",
  ["encdb/encdb.go", "encdb/keyfile.go", "keydb/keydb.go", "msgdb/msgdb.go", "cryptengine/db.go"],
  [("key file", "encdb/keyfile.go"), ("creating, opening and rekeying", "encdb/encdb.go")],
  "Proof for all inputs and all outcomes of every file system step, in recorded order; the operating system, database/sql and go-sqlcipher are external functions with recorded calls; that the tables given are made, and real files and databases, by the bounded conformance run. A write which reported success is assumed to be in the file. " + TRUST)
P("S06", "The wallet store keeps every token and hands it to one holder at a time",
  "Whatever the history of operations and reopenings: a token of the wallet store comes back as it was last stored, with its keys, parameters and the state of a reissue, and storing reports an error if it was not stored; a lock is taken only on the token asked for and only if it is free, under an ID above zero which is returned, and until the token is unlocked, deleted, or the store is opened when the lock is more than MaxLockAge old, the token is not locked again, not counted and not handed out by a search, nor given to a reader with another lock ID; a search for a token to spend hands out, after locking it, the token of the usage and owner asked for which expires first, never an own one or one in reissue; deletion removes a token with its state, and clearing removes only tokens which expired ExpireEdge ago. The authentication token, its tries and the verification keys survive reopening, also when another part of the cache is set first.",
  ["inputs", "histories", "schedules"], "All tokens and cache contents, all histories of operations and reopenings, concurrent lockers, and every outcome the database reports.",
  "The tests of the package need a driver this repository no longer names, so none runs; they lock and read a few fixed tokens in one session and never reopen the store.",
  ["serviceguard/client/walletstore/store.go", "serviceguard/client/walletstore/types.go"],
  [("statements and locks", "serviceguard/client/walletstore/store.go"), ("columns, state and cache texts", "serviceguard/client/walletstore/types.go")],
  "Proof for all inputs and all outcomes of the database that tokens and cache texts read back as written, that each function runs the statement of its own (its text is proved from the constructors) with each value in its place and draws the stated conclusion from the answer; what SQLite makes of the statements, and concurrent lockers, are exercised by the bounded conformance run against a model, with reopening. MySQL is not run. " + TRUST)
P("Q01", "The message database keeps each nym's data and loses no message in its queues",
  "Each operation of the message database runs the statement made for it, with every value in its place and resolved for the nym (and contact) it names: nyms, contacts, accounts, upkeep times, values, messages and message ID caches come back as last stored, survive reopening, and nothing never stored is found; only identities that are mapped, and unmapped ones that map to them, are accepted; a message is shown to, listed for and deleted by its own nym only. A message is put into the out queue and marked as no longer to be sent together or not at all, and likewise taken from it and marked as sent at the given date (or as to be sent again); an entry of the in queue is removed together with adding its decrypted message as a received one from its sender at the date it was received, or not at all. If a step fails, the operation reports an error, everything is as before, and the database stays usable. The queues give their entries in the order they were added, out queue entries marked for resending left out; deleting a nym removes all that belongs to it and nothing else.",
  ["inputs", "histories"], "All values, all histories of operations, and every outcome the database reports at every step.",
  "The package's tests no longer compile, so none runs; as written they run each operation once or twice on one nym, with no failing statement.",
  ["msgdb/msgdb.go", "msgdb/messages.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "msgdb/accounts.go", "msgdb/contacts.go", "msgdb/nyms.go", "msgdb/cache.go", "msgdb/keyvalue.go", "uid/identity/identity.go"],
  [("statements", "msgdb/msgdb.go"), ("transactions of the queues", "msgdb/outqueue.go, msgdb/inqueue.go"), ("ownership of messages", "msgdb/messages.go")],
  "Proof for all inputs and all outcomes of the database, at every step, that each of the operations runs the statement of its own (its text is proved from Open) with each value in its place, within the transaction where there is one, and draws the stated conclusion from the answer; what SQLite makes of the statements is exercised by the bounded conformance run against a model, with reopening and failing statements. " + TRUST)
P("K03", "What the key database stores is what it gives back",
  "Each operation of the key database runs the statement made for it, with every value in its place: the message keys of a session are found under its session key, number and direction as they were added, also when sessions are extended or added in turn, and a session with all its new keys is stored in one transaction or not at all, and the transaction is closed in either case; deleting a message key deletes this key only. Session states, session keys, values, key init messages, hash chain entries (domains without regard to case), own IDs with their private keys and replies, and the ID messages of others by position come back as last stored, survive reopening, and nothing never stored is found; an own ID message is given out only if its self-signature verifies.",
  ["inputs", "histories"], "All values, all histories of operations, and every outcome the database reports.",
  "Tests add and read one or two entries per table.",
  ["keydb/keydb.go", "keydb/session.go", "keydb/sessionkey.go", "keydb/sessionstate.go", "keydb/keyvalue.go", "cryptengine/keystore.go"],
  [("statements", "keydb/keydb.go"), ("sessions", "keydb/session.go"), ("session states", "keydb/sessionstate.go"), ("session keys", "keydb/sessionkey.go")],
  "Proof for all inputs and all outcomes that each function runs the statement of its own (its text is proved from Open) with each value in its place, within the transaction where there is one, and returns the columns it scanned; what SQLite makes of the statements is assumed and exercised by the bounded conformance run against a model, with reopening. " + TRUST)
