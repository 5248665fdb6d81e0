"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
NT = "Existing tests only exercise the bundled ECDSA library (a few curves, fixed keys and vectors); "
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                  "observe_at": observe, "hook_needed": None}})

p("C01", "A wallet signature is accepted for its message and key, and for nothing else",
  "A signature made by any private-key wallet (generated, imported or deterministic, compressed or not) over any byte string is accepted by that wallet and by every wallet holding only the matching public key. The same signature is rejected for any other message, by any other key, and after either of its two numbers is changed (save for replacing s by the group order minus s, which ECDSA itself allows). A wallet that holds no private key refuses to sign.",
  ["inputs"], "all private keys, all messages (empty to many kilobytes), all wallet kinds, all alterations of message, key or signature numbers",
  NT + "no test signs or verifies with a wallet, and the claim ranges over every key and message.",
  ["nbc/wallet/address.py", "nbc/wallet/hdwallet.py", "nbc/util/ecc.py", "nbc/util/ecdsa/keys.py", "nbc/util/ecdsa/ecdsa.py"],
  [("sign/verify over sha256d", "nbc/util/ecc.py sign, verify"), ("key material kept by wallets", "nbc/wallet/address.py Address.__init__; nbc/wallet/hdwallet.py point, prvkey")],
  ["Address.sign/verify", "HDWallet.sign/verify", "util.ecc.sign/verify"])
p("C02", "Signature checking agrees with textbook ECDSA and never crashes",
  "For any byte strings offered as message, public key and signature, checking returns a plain yes or no and never raises. For a well-formed (DER) signature the answer is yes exactly when the public key is a valid curve point encoding (33 or 65 bytes) and the two numbers satisfy the ECDSA equation on secp256k1 for the double SHA-256 of the message; a signature that is accepted in spite of a sloppy encoding still satisfies that equation.",
  ["inputs"], "all messages, all public-key byte strings, all signature byte strings including truncated, mutated and adversarial ones",
  NT + "no test feeds malformed signatures or keys to the wallet-level check.",
  ["nbc/util/ecc.py", "nbc/util/key.py", "nbc/util/ecdsa/ecdsa.py", "nbc/util/ecdsa/keys.py", "nbc/util/ecdsa/der.py"],
  [("liberal DER decoding", "nbc/util/ecc.py sigdecode_der, remove_integer"), ("range and equation checks", "nbc/util/ecdsa/ecdsa.py Public_key.verifies"), ("public key decoding", "nbc/util/key.py decompress_public_key")],
  ["util.ecc.verify", "Address.verify", "HDWallet.verify", "Alert.verify"])
p("C03", "A saved single-key wallet loads back as the same wallet",
  "Saving a single-key wallet to a file, with or without a passphrase, and loading it with the same passphrase (given or typed at the prompt) yields a wallet with the same private key or none, public key, compression, network, channel number and address, which signs and verifies for the original. The file written without a passphrase is recognisable as unencrypted and loads without any prompt.",
  ["inputs", "histories"], "all keys, compressed or not, with or without private key, both networks, all channel numbers, all byte passphrases, repeated save/load cycles",
  NT + "wallet files are not tested at all.",
  ["nbc/wallet/__init__.py", "nbc/wallet/address.py"],
  [("config dump and load", "nbc/wallet/address.py dump_to_cfg, load_from_cfg"), ("file format", "nbc/wallet/__init__.py saveTo, loadFrom")],
  ["wallet.saveTo", "wallet.loadFrom", "Address properties"])
p("C04", "A saved deterministic wallet loads back as the same wallet",
  "Saving a deterministic wallet at any depth, private or public-only, with or without a passphrase, and loading it with the same passphrase (given or typed at the prompt) yields a wallet with the same keys, chain code, depth, child number, parent fingerprint, network, channel number and address. Extended keys and every later child derivation come out the same from the loaded wallet as from the original.",
  ["inputs", "histories"], "all seeds, derivation paths, private/public-only forms, networks, channel numbers, byte passphrases and save/load/derive sequences",
  NT + "wallet files and derivation are not tested at all.",
  ["nbc/wallet/__init__.py", "nbc/wallet/hdwallet.py"],
  [("config dump and load", "nbc/wallet/hdwallet.py dump_to_cfg, load_from_cfg"), ("point compression", "nbc/wallet/hdwallet.py point_compress, point_decompress")],
  ["wallet.saveTo", "wallet.loadFrom", "HDWallet accessors"])
p("C05", "An encrypted wallet file hides the key and refuses a wrong passphrase",
  "A wallet file saved with a passphrase contains no private key in clear in any encoding, and is exactly the AES-128-CBC encryption (zero IV, passphrase cut or zero-padded to 16 bytes) of the length-prefixed, zero-padded key, so files interoperate across versions. Loading it with a passphrase that differs in its first 16 bytes, or after its encrypted key was altered so that it no longer decrypts to a well-formed key record (length header, zero padding, key checksum or range), is refused with an error instead of yielding a wallet with another key.",
  ["inputs"], "all wallets of both kinds, all pairs of distinct effective passphrases, all alterations (bit flips, truncation) of the stored encrypted key",
  NT + "encryption of wallet files is not tested at all; a wrong-passphrase acceptance shows only for a small fraction of passphrases.",
  ["nbc/wallet/address.py", "nbc/wallet/hdwallet.py", "nbc/util/pyaes/aes.py"],
  [("encrypt/decrypt with padding", "nbc/wallet/address.py _aesEncrypt, _aesDecrypt"), ("validation of the decrypted payload", "Address.load_from_cfg, HDWallet.load_from_cfg")],
  ["wallet.saveTo", "wallet.loadFrom", "file contents"])
p("C06", "Saving a wallet over an old file never loses both",
  "If saving a wallet fails, the process dies or the power goes at any point, the target file still holds either the complete old wallet or the complete new one, loadable with the respective passphrase. A save that fails on the medium (out of space, not writable) or because of a bad passphrase type reports an error, leaves the old file's content as it was and leaves no stray files behind; after a save that returns, the file holds the new wallet and an existing file keeps its permissions and owner.",
  ["crash_points", "fault_sequences"], "every point of execution of a save, every failing write size, old and new wallets of both kinds with and without passphrases",
  NT + "no test saves a wallet, and none injects crashes or write errors.",
  ["nbc/wallet/__init__.py"], [("file replacement", "nbc/wallet/__init__.py saveTo")], ["file contents after a crash or failed save"])
p("C07", "Deterministic derivation follows BIP32 and commutes with public-only derivation",
  "From any seed, the master key and every child along any path have exactly the private key, public key, chain code, depth, child number and fingerprints that BIP32 defines. Deriving a non-hardened child publicly gives the public half of the privately derived child, with the same address for the same channel number, and a public-only wallet refuses hardened derivation and never exposes a private key. Depth is limited to 255 and indexes to 32 bits.",
  ["inputs", "histories"], "all seeds, all index paths (hardened or not, boundary indexes), all points at which the private half is dropped",
  NT + "no test derives a child key.",
  ["nbc/wallet/hdwallet.py"], [("child derivation", "nbc/wallet/hdwallet.py child"), ("master generation", "from_master_seed"), ("fingerprint", "fingerprint, hash_160")],
  ["HDWallet.child", "HDWallet.prvkey/pubkey/chain/depth/childnum/fingerprint/parentfp"])
p("C08", "Extended keys export and import losslessly and corrupt ones are refused",
  "The extended private or public key exported from any deterministic wallet is the BIP32 serialisation for its network, and importing it yields a wallet with the same key material, chain code, depth, child number, parent fingerprint and network, whose exports and derived children equal the original's. An import whose text was altered, truncated or extended, whose version is unknown, or whose key bytes are not a valid key is refused with an error.",
  ["inputs", "histories"], "all wallets on both networks at all depths, both export kinds, all textual corruptions and all malformed payloads with a correct checksum",
  NT + "extended keys are not tested.",
  ["nbc/wallet/hdwallet.py", "nbc/util/base58.py"], [("serialisation", "to_extended_key"), ("parsing and checksum", "from_extended_key"), ("point recovery", "point_decompress")],
  ["HDWallet.to_extended_key", "HDWallet.from_extended_key"])
p("C09", "An address string is the specified digest of its public key, network and channel",
  "The address of a wallet is base58check of the network byte, the four-hex-digit channel number and SHA-256 of the two RIPEMD-160 digests of the halves of SHA-512 of its public key in the wallet's own (compressed or full) form. Wallets built from the private key and from the public key alone agree, compressing and decompressing a wallet change only the form and are inverse, and out-of-range private keys or malformed public keys are refused.",
  ["inputs"], "all keys, both forms, both networks, all channel numbers (including those wider than 16 bits)",
  NT + "addresses are not tested.",
  ["nbc/wallet/address.py", "nbc/util/key.py"], [("address digest", "nbc/util/key.py publickey_to_address, pubkeyhash_to_address"), ("wallet construction", "nbc/wallet/address.py Address")],
  ["Address.address", "HDWallet.address", "util.key.publickey_to_address", "Address.compress/decompress"])
p("C10", "Wallet import format round-trips keys and refuses anything altered",
  "Exporting a 32-byte private key (optionally flagged compressed) in wallet import format gives the standard text, and importing that text gives the key back. Text that was mistyped, truncated, extended, carries another prefix, a wrong payload length or a wrong compression mark is refused with a value error and never yields a key.",
  ["inputs"], "all 32-byte keys, both forms, all prefixes, all textual corruptions and all checksummed payloads",
  NT + "wallet import format is not tested.",
  ["nbc/util/key.py", "nbc/util/base58.py"], [("export/import", "nbc/util/key.py privkey_to_wif, privkey_from_wif"), ("checksum", "nbc/util/base58.py decode_check")],
  ["util.key.privkey_to_wif", "util.key.privkey_from_wif", "Address(privKey=...)"])
p("C11", "Base58 and checked base58 are exact, lossless and detect corruption",
  "Encoding any byte string in base58, including leading zero bytes, gives the canonical text and decoding gives the bytes back; integers likewise. The checked form returns the payload only when the trailing four bytes are the first four of its double SHA-256, reporting nothing for every altered, shortened or reordered text, and characters outside the alphabet are an error.",
  ["inputs"], "all byte strings, all integers, all texts over and outside the alphabet",
  NT + "base58 is not tested.",
  ["nbc/util/base58.py"], [("codec", "b58encode, b58decode, b58encode_int, b58decode_int"), ("checksum", "encode_check, decode_check")],
  ["util.base58 functions"])
p("C12", "Public key compression is exact, invertible and refuses non-points",
  "Compressing a 65-byte public key keeps x and the parity of y, and decompressing gives the same key back, in every routine of the library that does so, full keys passing through unchanged. Byte strings that are not the encoding of a point on secp256k1 (wrong length, wrong tag, x without a point, y not matching) are refused with a value error when decompressed, and anything but a 65-byte full key is refused when compressed.",
  ["inputs"], "all curve points of both parities, all 33- and 65-byte strings, strings of every other length",
  NT + "key compression is not tested; errors show for half of the points or for rare x only.",
  ["nbc/util/key.py", "nbc/util/ecdsa/numbertheory.py", "nbc/wallet/hdwallet.py"], [("codec", "nbc/util/key.py compress_public_key, decompress_public_key"), ("square root", "nbc/util/ecdsa/numbertheory.py square_root_mod_prime")],
  ["util.key.compress_public_key", "util.key.decompress_public_key", "wallet public keys"])
p("C13", "Splitting, combining and delegated address generation preserve the key",
  "Splitting a private key into any number of parts and combining all of them gives the original key; combining adds the keys modulo the group order irrespective of order. The parts are drawn afresh over the whole range of keys at every split, so that all but one of them say nothing about the key. The address that an outsider computes from a public key and a part is the address of the combined private key for the same network and channel number, and malformed public keys are refused.",
  ["inputs"], "all private keys, all part counts, all orders of combination, all networks and channels",
  NT + "key splitting is not tested.",
  ["nbc/util/piecewise.py"], [("additive sharing", "split_private_key, combine_private_keys"), ("delegated address", "get_address")],
  ["util.piecewise functions"])
p("C14", "Partial key sets recover only the original key",
  "From a key split into N partial sets of which m are required, any m of the sets, or more, recover the original key, as they do after being encoded for and read back from a QR code. Any collection of the sets recovers either the original key or nothing, fewer than m sets recover nothing, and mixing in parts of another key is reported or ignored as asked but never yields a wrong key.",
  ["inputs"], "all keys, all (m, N) pairs, all selections and mixtures of sets",
  NT + "partial key sets are not tested.",
  ["nbc/util/piecewise.py"], [("partial sharing", "partial_split_private_key, partial_combine_private_keys"), ("QR form", "partial_split_qr_encode, partial_split_qr_decode")],
  ["util.piecewise partial functions"])
p("C15", "Both sides of a key agreement derive the same secret",
  "For any two key pairs the shared secret computed from one private and the other public key, in compressed or full form, is the same on both sides and equals the 32-byte x coordinate of the product point. An invalid public or private key is refused with a value error rather than producing a secret.",
  ["inputs"], "all pairs of keys in all encodings, all malformed keys",
  NT + "key agreement is not tested.",
  ["nbc/util/ecc.py"], [("shared secret", "nbc/util/ecc.py shared_secret")], ["util.ecc.shared_secret"])
p("C16", "AES and its modes compute the standard ciphers",
  "For 16-, 24- and 32-byte keys the block cipher encrypts and decrypts as FIPS-197 defines. ECB, CBC, CFB with any segment size up to the block, OFB and CTR with any starting counter produce the standard ciphertext over any message cut into any permitted pieces, decryption inverts encryption, and block-mode input or keys of a wrong length are refused.",
  ["inputs", "histories"], "all keys of the three sizes, all initial vectors and counters (including counter wrap-around), all messages and all ways of feeding them in pieces",
  NT + "the AES code is not tested.",
  ["nbc/util/pyaes/aes.py", "nbc/util/pyaes/util.py"], [("key schedule and rounds", "AES"), ("modes", "AESModeOfOperation*"), ("counter", "Counter")],
  ["util.pyaes AES classes"])
p("C17", "Streaming encryption gives the same result however the data is fed",
  "Feeding a message to a streaming encrypter in any pieces gives, after finishing, the encryption of the whole padded message, and the streaming decrypter fed with any pieces of it returns the message. Finished streams refuse more data, and a padded ciphertext of wrong length or with invalid padding is refused.",
  ["inputs", "histories"], "all modes and keys, all messages, all ways of cutting them into non-empty pieces, all invalid paddings",
  NT + "the streaming layer is not tested.",
  ["nbc/util/pyaes/blockfeeder.py", "nbc/util/pyaes/util.py"], [("buffering", "BlockFeeder.feed"), ("padding", "append_PKCS7_padding, strip_PKCS7_padding")],
  ["pyaes.Encrypter", "pyaes.Decrypter"])
p("C18", "ECDSA signing and verification are correct on every supported curve",
  "On each supported curve, a signature of any data or digest verifies with the matching key and its numbers are those the standard prescribes for the nonce used. Verification accepts exactly the pairs in range that satisfy the ECDSA equation, rejecting changed data, numbers, out-of-range values and other keys with a bad-signature error, and a digest longer than the curve is refused with a bad-digest error.",
  ["inputs"], "all six curves (and small test curves), all private keys including boundaries, all digests and nonces, all (r, s) pairs",
  NT + "only a handful of fixed or freshly generated keys per curve, no boundary values, no small-curve enumeration.",
  ["nbc/util/ecdsa/ecdsa.py", "nbc/util/ecdsa/keys.py", "nbc/util/ecdsa/curves.py"], [("signature equations", "Private_key.sign, Public_key.verifies"), ("digest to number and size check", "SigningKey.sign_digest, VerifyingKey.verify_digest"), ("curve constants", "nbc/util/ecdsa/ecdsa.py generators")],
  ["SigningKey.sign/sign_digest/sign_number", "VerifyingKey.verify/verify_digest"])
p("C19", "Deterministic nonces are exactly those of RFC 6979",
  "For every curve order, private key, hash function and digest, the deterministic nonce is the one RFC 6979 defines, also when candidates have to be rejected or the digest and order differ in size. Deterministic signing uses it, so it is repeatable and two different messages do not share a nonce.",
  ["inputs"], "all orders (supported curves and arbitrary sizes), all keys, hash functions SHA-1 to SHA-512 and digests, including inputs that force candidate rejection",
  NT + "only the RFC's published vectors are checked; rejection of candidates practically never happens there.",
  ["nbc/util/ecdsa/rfc6979.py", "nbc/util/ecdsa/keys.py"], [("nonce generation", "rfc6979.generate_k, bits2int, bits2octets"), ("deterministic signing", "SigningKey.sign_deterministic, sign_digest_deterministic")],
  ["rfc6979.generate_k", "SigningKey.sign_deterministic"])
p("C20", "Elliptic curve arithmetic obeys the group law",
  "On every curve, point addition, doubling and multiplication by any non-negative integer (by any integer where the point's order is known) give the group operation, including the neutral element, inverses, points of order two, equal points and multiples at or beyond the order. Results are always on the curve, equality identifies equal points only, and points off the curve are refused. The test of a public point accepts exactly the coordinates that are in range, on the curve and of the generator's order.",
  ["inputs"], "exhaustively all points and pairs of small curves, random points and scalars on the supported curves, boundary scalars around powers of two and multiples of the order",
  NT + "one small curve and one P-192 chain are sampled.",
  ["nbc/util/ecdsa/ellipticcurve.py"], [("group operations", "Point.__add__, double, __mul__, __rmul__"), ("membership", "CurveFp.contains_point")],
  ["ellipticcurve.Point operations"])
p("C21", "The number theory routines return mathematically correct results",
  "For all arguments in their domain the routines for modular power and inverse, greatest common divisor, least common multiple, Jacobi symbol, modular square root, factorisation, totient, Carmichael function, order, primality and next prime return the mathematically defined value (primality up to its documented error probability). A square root is returned exactly when one exists and its square is the argument; a non-invertible argument, an even Jacobi modulus or a negative exponent raises an error instead of returning a wrong value.",
  ["inputs"], "exhaustively all small arguments, random arguments up to several hundred bits, all residues modulo all small primes",
  NT + "the self-test samples some small primes and random numbers for square root and inverse only.",
  ["nbc/util/ecdsa/numbertheory.py"], [("algorithms", "nbc/util/ecdsa/numbertheory.py")], ["numbertheory functions"])
p("C22", "Serialised keys read back as the same keys and bad ones are refused",
  "Every private and public key on every supported curve, written as a raw string, DER or PEM, reads back as the same key, and OpenSSL reads and writes the same DER and PEM. Truncated, extended, mislabelled or off-curve raw and public encodings and out-of-range private keys are refused, and a damaged private-key file never yields a key other than the one its private-key field states.",
  ["inputs"], "all curves, all private keys including boundary and small values, all corruptions of each encoding",
  NT + "one random key per curve and format, a few hand-made corruptions.",
  ["nbc/util/ecdsa/keys.py", "nbc/util/ecdsa/der.py"], [("encodings", "SigningKey/VerifyingKey to_string, to_der, to_pem, from_*"), ("validation", "VerifyingKey.from_string, SigningKey.from_secret_exponent")],
  ["SigningKey and VerifyingKey constructors and writers"])
p("C23", "DER building blocks encode canonically and decode what they encode",
  "Integers, octet strings, bit strings, object identifiers, sequences, constructed tags and lengths of any size encode to canonical DER and decode to the same value with the trailing bytes returned untouched. Decoding any other byte string either raises an ordinary error or returns a value consistent with the bytes, never taking in bytes beyond the declared length.",
  ["inputs"], "all non-negative integers, all strings, all identifier paths, all nestings and all byte strings as input",
  NT + "a few integers, lengths and identifiers.",
  ["nbc/util/ecdsa/der.py"], [("encoders and decoders", "nbc/util/ecdsa/der.py")], ["der.encode_*", "der.remove_*", "der.topem/unpem"])
p("C24", "Signature encodings are lossless and the canonical variants give the low form",
  "Encoding the two signature numbers as a string, a pair of strings or DER and decoding gives the same numbers for every order and every pair in range. The canonical variants give the smaller of s and order minus s, exactly, for every s, and so never change whether the signature is valid; encodings of the wrong length or with trailing data are refused.",
  ["inputs"], "all orders of any size, all r and s below the order, in particular those around half the order",
  NT + "random signatures sampled; values around half of the order never occur.",
  ["nbc/util/ecdsa/util.py"], [("encodings", "sigencode_*, sigdecode_*, number_to_string, string_to_number"), ("low form", "sigencode_*_canonize")],
  ["ecdsa.util functions"])
p("C25", "Random and seed-derived scalars are in range, reproducible and exact",
  "Whatever bytes the random source returns, a random scalar for any order lies between one and the order minus one and is reachable over that whole range; generated keys and the nonces of signatures are such scalars, drawn from the source that was given and afresh for every signature. Scalars derived from a seed are in range and reproducible for every order, and distinct seeds or orders are not systematically collapsed onto few values.",
  ["inputs"], "all orders from 2 bits upward (byte-aligned or not), all entropy streams, all seeds",
  NT + "a few orders and random streams.",
  ["nbc/util/ecdsa/util.py"], [("rejection sampling", "randrange"), ("seed expansion", "PRNG, randrange_from_seed__*")],
  ["ecdsa.util.randrange", "ecdsa.util.randrange_from_seed__*", "SigningKey.generate", "Address.generate"])
p("C26", "Every protocol message survives encoding and decoding unchanged",
  "Encoding any valid message of any type gives exactly the bytes of the wire format (magic, padded command, length, checksum, and the fields in their defined order, width and byte order), and decoding those bytes gives a message of the same type and network with the same field values and the same bytes when encoded again. The length announced for the first message in a buffer is exactly its size, or unknown while the header is incomplete, whatever follows it.",
  ["inputs"], "all message types, all field values in range, all list lengths up to their limits, all magics, trailing data",
  NT + "the protocol layer is not tested.",
  ["nbc/protocol/messages.py", "nbc/protocol/format.py"], [("framing", "Message.binary, parse, first_msg_len"), ("field codecs", "nbc/protocol/format.py Ft*")],
  ["Message.binary", "Message.parse", "Message.first_msg_len"])
p("C27", "A corrupted or foreign message frame is refused",
  "A frame whose magic differs, whose checksum does not match its payload, or that is cut short is refused with the format error, and one whose command is not one of the supported ones is refused with the unknown-message error; a changed byte in the payload is always noticed. Message types documented as unsupported are not accepted from the wire.",
  ["inputs"], "all messages, all single and multiple byte changes in magic, checksum, length or payload, all truncations, all command names",
  NT + "the protocol layer is not tested.",
  ["nbc/protocol/messages.py", "nbc/protocol/format.py"], [("frame checks", "Message.parse"), ("type registry", "_AutoRegister, Message.register")],
  ["Message.parse"])
p("C28", "Parsing any payload is total, bounded and yields only valid messages",
  "For any payload bytes under a correct header, parsing ends after work bounded by the bytes received, whatever counts and lengths the payload announces, with either a message or one of the three documented errors. A message that is returned has only field values that construction would accept, and re-encoding it gives back the bytes that were consumed, up to equivalent encodings of lengths and an absent optional last field.",
  ["inputs"], "all byte strings as payload for all message types, in particular truncated, oversized-count and mutated valid payloads",
  NT + "the protocol layer is not tested, and hostile payloads cannot be listed.",
  ["nbc/protocol/messages.py", "nbc/protocol/format.py"], [("bounded parsing", "CompoundType.parse, FtArray.parse, parse_var_set, FtBytes.parse, FtVarString.parse")],
  ["Message.parse"])
p("C29", "Messages can only be built from values that can be sent",
  "Building a message or message part with a value of the wrong type, out of range, of the wrong length or over a list limit is refused with the parameter error, and with missing, unknown or doubly given fields with a type error. Whatever is accepted encodes without error, keeps the given value, and is not affected when a list passed in is changed afterwards.",
  ["inputs"], "all message and part types, all field values valid or not, positional and keyword forms",
  NT + "the protocol layer is not tested.",
  ["nbc/protocol/format.py"], [("validation", "CompoundType.__init__, Ft*.validate")], ["constructors of messages and message parts"])
p("C30", "Variable-length integers and network addresses use the one correct encoding",
  "Every count from zero to 2^64-1 is written in the shortest of the four forms and read back exactly, and all four forms are read correctly; text and byte fields are preceded by their exact length. Every IPv4 or IPv6 address text is written as its 16 network-order bytes (IPv4 mapped into IPv6) and read back as the same address, and text that is not an address is refused when building.",
  ["inputs"], "all integers around every boundary, all four forms, all IPv4 and IPv6 addresses in all usual spellings (dotted tails of IPv6 excepted), arbitrary other text",
  NT + "the protocol layer is not tested.",
  ["nbc/protocol/format.py"], [("integers", "FtVarInteger"), ("addresses", "FtIPAddress"), ("strings", "FtVarString")],
  ["encoded bytes of messages", "protocol.NetworkAddress"])
p("C31", "Printing or logging a message never fails and changes nothing",
  "The printable and the debug form of every message that can be built or parsed are text and never raise. Switching on protocol or debug logging changes no byte sent and no command delivered, and wallets print without revealing their private key.",
  ["inputs", "configurations"], "all message types and field values, all log levels, all wallets",
  NT + "no test prints a message, a wallet, or runs with logging on.",
  ["nbc/protocol/messages.py", "nbc/protocol/format.py", "nbc/node/connection.py", "nbc/wallet/address.py", "nbc/wallet/hdwallet.py"], [("text forms", "CompoundType.__str__, Ft*.str, _debug"), ("logging", "Connection.handle_message, send_message")],
  ["str(message)", "node log output", "str(wallet)"])
p("C32", "Transaction, header and Merkle digests are those of the chain format",
  "The hash of any transaction and of any block header is the double SHA-256 of its serialisation (the first 80 bytes for a header), the same for built and parsed objects and unaffected by other uses of the object. The Merkle root of any non-empty list of transactions is the pairwise double SHA-256 with the last entry duplicated on odd levels, leaves its inputs alone, and the standard genesis block is reproduced from the coin's constants.",
  ["inputs"], "all transactions, headers and transaction lists of any length",
  NT + "no test touches blocks or transactions.",
  ["nbc/protocol/format.py", "nbc/util/__init__.py", "nbc/coins/newbitcoin.py", "nbc/util/hash.py"], [("hashes", "Txn.hash, BlockHeader.hash"), ("Merkle root and header", "get_merkle_root, get_block_header")],
  ["Txn.hash", "BlockHeader.hash", "util.get_merkle_root", "util.get_block_header"])
p("C33", "Alert contents and signature are read exactly as signed",
  "For every alert whose payload is well formed, each of its fields reads back the value that was encoded, in any order of access and repeatedly, and reading a field of a malformed payload is an error every time. The alert verifies exactly with the key that signed its payload bytes and with no change to payload, signature or key.",
  ["inputs", "histories"], "all field values and set sizes, all access orders, all keys, all alterations",
  NT + "alerts are not tested.",
  ["nbc/protocol/messages.py"], [("payload parsing", "Alert._parse_and_get"), ("signature", "Alert.verify")], ["Alert attributes", "Alert.verify"])
p("C34", "Target, difficulty and hash text helpers follow the compact format",
  "The 32-byte target of every compact bits value is its 23-bit big-endian mantissa shifted by the exponent, and the difficulty is the ratio of the difficulty-one target to it. A header satisfies its bits exactly when its proof-of-work number does not exceed the target, and converting hashes to and from displayed hexadecimal reverses the byte order and is lossless.",
  ["inputs"], "all compact values whose target fits 256 bits, all headers, all byte strings",
  NT + "these helpers are not tested.",
  ["nbc/util/__init__.py"], [("compact format", "get_target, get_difficulty, verify_target"), ("hex helpers", "hex_to_bin, bin_to_hex")],
  ["util.get_target", "util.get_difficulty", "util.verify_target", "util.hex_to_bin", "util.bin_to_hex"])
p("C35", "Received messages are delivered once, in order, however the stream is cut",
  "However a peer's byte stream is cut into reads, the node acts on exactly the valid messages in it, each once and in order with its field values, and skips messages that are unknown, corrupted or malformed while continuing with the next. No stream from one peer stops the node or disturbs the delivery of another peer's messages, and the received byte counts equal what arrived.",
  ["inputs", "schedules", "histories"], "all message sequences with bad ones mixed in, all ways of cutting and interleaving streams of several peers",
  NT + "the node is not tested.",
  ["nbc/node/connection.py", "nbc/protocol/messages.py"], [("reassembly", "Connection.handle_read"), ("dispatch", "Connection.handle_message")],
  ["command handlers of a node", "Connection.rx_bytes"],
  [("receive buffer", "bytes not yet forming a message", "nbc/node/connection.py Connection")])
p("C36", "The node answers the peer protocol correctly",
  "On every connection, incoming or outgoing, the node first announces its version with its own details; it acknowledges a version, records the peer's announced details, answers a ping with a pong of the same nonce, and answers an address request with at most 1000 known addresses, the most recently seen first. Messages it has no action for change nothing.",
  ["histories", "inputs"], "all sequences of messages from several peers, all address books, all nonces and version details",
  NT + "the node is not tested.",
  ["nbc/node/basenode.py", "nbc/node/connection.py"], [("commands", "BaseNode.command_*"), ("version announcement", "Connection.__init__")],
  ["bytes sent to peers", "Connection properties"])
p("C37", "Outgoing messages reach the peer whole and in order under partial writes",
  "However the operating system splits writes, the bytes a peer receives are exactly the encodings of the messages sent to it, in order and once. Sent byte counts equal what was taken, a connection asks to write exactly while something is unsent, and a failing write closes that connection only.",
  ["schedules", "fault_sequences", "histories"], "all sequences of sends and partial, refused or failing writes on several connections",
  NT + "the node is not tested.",
  ["nbc/node/connection.py"], [("send buffer", "Connection.send_message, writable, handle_write")], ["bytes written to sockets", "Connection.tx_bytes"])
p("C38", "The address book stays bounded and holds what peers announced",
  "Whatever peers announce, the node never keeps more than 2500 addresses. Below that limit every announced address is kept with the time and services announced last (an address handed out from a full book carries them too), peers that completed the handshake are added with the services they announced, closed peers are dropped, and addresses whose services are not known are not handed out (a service word of zero is known).",
  ["histories", "inputs"], "all histories of address announcements (including repeated and many), handshakes and disconnections",
  NT + "the node is not tested.",
  ["nbc/node/basenode.py"], [("address book", "command_address, command_version_ack, disconnected")], ["address lists the node sends", "address book size"])
p("C39", "A misbehaving peer is dropped and its address kept out for an hour",
  "A peer punished more often than the tolerance of five (less what heartbeats forgave) is disconnected, and connections from its IP address, from any port, are refused for one hour and accepted again afterwards. Other addresses are not affected, and a node that does not listen accepts no connection.",
  ["histories", "schedules"], "all histories of punishments, heartbeats, time passing and incoming connections from several addresses and ports",
  NT + "the node is not tested.",
  ["nbc/node/basenode.py", "nbc/node/connection.py"], [("ban list", "punish_peer, handle_accept"), ("score", "add_banscore, reduce_banscore")], ["accepted and closed sockets"])
p("C40", "Idle peers are pinged and silent ones dropped, on time and not before",
  "A connection whose last bytes were sent more than 30 minutes ago sends a ping, and no more than one per five minutes; one from which nothing was received for more than three hours (since it was opened, if nothing ever was) is closed, and none is pinged or closed earlier. The time a peer was last heard from is recorded as that time.",
  ["schedules", "histories"], "all timings of reads, writes and polling on a connection",
  NT + "the node is not tested.",
  ["nbc/node/connection.py"], [("timers", "Connection.readable, timestamp")], ["bytes sent", "closing of sockets"])
p("C41", "The node keeps seeking peers without duplicates and without getting stuck",
  "While fewer peers are connected than sought and an unconnected address (or, with an empty book, a seed) is known, heartbeats keep connecting to new ones, at most five at a time, never to its own address or one already connected, and failed attempts leak no socket and do not prevent later ones. Connections made without force never exceed the peer limit, few known addresses make it ask peers for more (in time all of them), and heartbeats come at most every ten seconds.",
  ["histories", "schedules", "fault_sequences"], "all address books, connection failures, limits and heartbeat timings",
  NT + "the node is not tested.",
  ["nbc/node/basenode.py", "nbc/node/connection.py"], [("peer seeking", "heartbeat, add_any_peer, add_peer"), ("connection set-up", "Connection.__init__, handle_close")], ["sockets opened", "peer list"])
p("C42", "The node's external address is the one most peers report",
  "The address the node announces as its own is, once peers have reported theirs, one reported by the greatest number of connected peers, and an explicitly set address always wins. A minority of lying peers therefore cannot change it.",
  ["histories", "inputs"], "all histories of peers connecting, reporting and leaving",
  NT + "the node is not tested.",
  ["nbc/node/basenode.py"], [("majority", "_check_external_ip, external_ip")], ["BaseNode.external_ip", "version messages sent"])
p("C43", "Port mappings are taken only when free and removed exactly",
  "Adding a port mapping never replaces another host's existing mapping, chooses a free valid port, and reports failure instead of raising when the gateway fails or no port is free. Removing the mapping deletes exactly the one that was added and nothing else.",
  ["histories", "fault_sequences"], "all tables of existing mappings, all gateway failures, all add/remove sequences",
  NT + "port mapping is not tested.",
  ["nbc/node/__init__.py"], [("mapping", "add_portmap, remove_portmap")], ["gateway mapping table"])
p("C44", "Remote lookups return the addressed number or nothing, never an error",
  "The number found by following a path through a fetched JSON document is returned as an integer, and anything else (missing keys, wrong types, bad documents) gives nothing instead of an error. Gathering heights from several sources returns within its time limit with exactly the answers that arrived, whatever the other sources do, and seed lookups collect every resolved address, each answer handed out once.",
  ["inputs", "schedules", "fault_sequences"], "all documents and paths, all mixes of slow, failing and good sources, all resolver answers",
  NT + "these helpers are not tested.",
  ["nbc/util/__init__.py", "nbc/util/bootstrap.py"], [("JSON path", "fetch_url_json_path_int, fetch_url_int"), ("gathering", "guess_block_height"), ("seeds", "DNSSeeder")], ["return values"])
p("C45", "Digests, version numbers and coin lookup are exact",
  "The digest helpers equal the standard SHA-1, SHA-256, double SHA-256, RIPEMD-160 and RIPEMD-160 of SHA-256 of any data. Version numbers made from four parts split back into them and out-of-range parts are refused; looking up a coin by name or symbol in any letter case finds exactly that coin and nothing for other names.",
  ["inputs"], "all byte strings, all version parts, all names and symbols",
  NT + "these helpers are not tested.",
  ["nbc/util/hash.py", "nbc/util/__init__.py", "nbc/coins/__init__.py"], [("digests", "nbc/util/hash.py"), ("version numbers", "get_version, make_version"), ("lookup", "get_coin")], ["return values"])
p("C46", "A node serves until it is stopped and then leaves nothing behind",
  "A running node survives every failed attempt to accept a connection (aborted, reset, out of descriptors or memory): it keeps listening, its peers stay connected and answered, and whoever keeps waiting is accepted later. When its event loop ends, by StopNode or by an error, it has closed its listening socket and all its connections and removed exactly the port mapping it added, so the address can be used again. Starting a node at an address in use is refused with AddrInUseError, leaves no socket behind and does not disturb the node that runs there.",
  ["histories", "fault_sequences"], "all histories of connections, failures of accepting, gateway failures, and every moment to stop",
  NT + "the node is not tested; a failure of accepting needs a loaded system.",
  ["nbc/node/basenode.py", "nbc/node/__init__.py"], [("accepting", "BaseNode.handle_accept"), ("stopping", "BaseNode.serve_forever"), ("address in use", "BaseNode.__init__")], ["sockets open", "peers", "gateway mapping table", "exceptions"])

for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
    print(json.dumps(r))
