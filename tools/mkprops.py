#!/usr/bin/env python3
"""Generates /verif/properties.jsonl from the table below (kept here so that the file stays in step)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Base58 and Base58Check are lossless and reject corruption",
 "For every byte string, Base58 encoding followed by decoding returns exactly that byte string (leading zero bytes included), the text equals the one the Base58 definition prescribes, and any text with a character outside the alphabet decodes to nothing. For every payload and version byte, Base58Check encode then decode returns both unchanged, and a text whose four checksum bytes do not match its contents is refused with an error and no payload.",
 ["inputs"],"all byte strings and version bytes, and all texts including near-misses of valid ones",
 "The tests use a dozen fixed vectors; leading-zero runs, long inputs and single-character corruptions form an unbounded space in which big-number conversion and length handling can go wrong.",
 ["xbase/base58.go"],[("Base58Encode/Base58Decode","xbase/base58.go"),("Base58CheckEncode/Base58CheckDecode","xbase/base58.go")])
p("P02","Bech32 and segwit addresses follow BIP173 in both directions",
 "Every valid (human-readable part, data) pair encodes to the BIP173 text and decodes back to itself, in lower or upper case; every text that BIP173 calls invalid (bad length, mixed case, bad characters, bad checksum, and for segwit addresses an illegal witness version, program length or padding) is refused with an error. Up to four wrong characters in a valid text are always refused.",
 ["inputs"],"all human-readable parts, witness versions and programs, and all mutations of valid texts",
 "Fixed vectors sample a few strings; BCH error detection and the many rejection rules must hold for all strings.",
 ["xbase/bech32.go","xbase/witness.go"],[("Bech32Encode/Decode","xbase/bech32.go"),("WitnessEncode/Decode, bit regrouping","xbase/witness.go")])
p("P03","Wire primitives read back what was written and never past the end",
 "Any sequence of fixed-width integers, variable-length integers, byte strings and texts written to a wire buffer reads back in the same order with the same values and occupies the documented little-endian layout; the advertised size of a variable-length integer is the size written. Reading from any byte string, with any claimed length, yields either bytes that are really there or an error, leaves the position consistent, and never crashes or reserves memory for data that is not there.",
 ["inputs","histories"],"all sequences of writes and reads, all byte strings including hostile length prefixes",
 "The unit tests write one value of each kind; boundary values, long sequences and lengths near the integer limits are not sampled.",
 ["xbase/buffer.go","xbase/hash.go"],[("Buffer readers/writers","xbase/buffer.go"),("bounds check","xbase/buffer.go check()"),("id byte reversal","xbase/hash.go")])
p("P04","An address text names exactly one output script on one network",
 "For every 20- or 32-byte hash and each address kind, the address text decodes on its own network to an address of the same kind with the same hash, the same text and the standard output script for that kind, and parsing that output script gives the address back; text and script equal those of the published formats. This holds on the two published networks and on any network the user describes (version bytes, human readable part). The text of one network is refused on another with other constants, and malformed, mistyped or unsupported texts are refused rather than read as a different destination.",
 ["inputs"],"all hashes, kinds, networks, letter cases and corrupted texts",
 "Tests decode a handful of addresses; funds go to the wrong place if any hash, kind or network combination is confused.",
 ["xcore/address.go","xcore/address_p2pkh.go","xcore/address_p2sh.go","xcore/address_p2wpkh_v0.go","xcore/address_p2wsh_v0.go","xcore/script.go","network/network.go"],
 [("DecodeAddress","xcore/address.go"),("ToString/LockingScript of each kind","xcore/address_*.go"),("ParseLockingScript","xcore/script.go")])
p("P05","Curve arithmetic is the secp256k1 group",
 "For all scalars and all points reachable from the generator, including the point at infinity, equal points and opposite points, addition, doubling, negation-by-coordinates, base and arbitrary scalar multiplication give the coordinates of the mathematical group and satisfy its laws; results are always on the curve with coordinates in range, and inputs are left unchanged. Point encoding round-trips and membership tests accept exactly the curve's points.",
 ["inputs"],"all scalars (zero, one, order-1, order, larger, short, sparse) and all points",
 "Tests check some multiples of the generator; exceptional cases of Jacobian formulas are reached only by particular pairs of operands.",
 ["xcrypto/secp256k1/secp256k1.go","xcrypto/secp256k1/sec.go","xcrypto/secp256k1/scalar.go"],[("Add/Double/ScalarMult/ScalarBaseMult","xcrypto/secp256k1/secp256k1.go"),("SecMarshal/SecUnmarshal","xcrypto/secp256k1/sec.go"),("Scalar Add/Mul/Neg/Inverse style helpers","xcrypto/secp256k1/scalar.go")])
p("P06","Key encodings are canonical and strictly parsed",
 "Every private key's public key is the corresponding curve point; serialising it compressed or uncompressed and parsing it returns the same point, and its hash is that of the serialised bytes. Parsing any other byte string (wrong length, unknown prefix, coordinate out of range, point not on the curve) returns an error, never a key and never a crash; adding keys corresponds to adding points and scalars.",
 ["inputs"],"all private keys, and all byte strings near and far from valid encodings",
 "Tests cover a few encodings and errors; acceptance of a malformed key is visible only on particular bytes.",
 ["xcrypto/pubkey.go","xcrypto/prvkey.go"],[("PubKeyFromBytes","xcrypto/pubkey.go"),("SerializeCompressed/Uncompressed","xcrypto/pubkey.go"),("PrvKeyFromBytes/Serialize/Add","xcrypto/prvkey.go")])
p("P07","ECDSA signatures are deterministic, canonical and sound",
 "For every key and 32-byte digest the signature is the deterministic RFC 6979 one in low-S strict DER form, and it verifies under the signer's public key. It verifies under no other tested key, digest or altered signature bytes; verification and DER decoding agree with an independent implementation on every input and reject malformed encodings and out-of-range values without crashing.",
 ["inputs"],"all keys, digests, and signature byte strings obtained by mutation or at random",
 "A finite set of vectors can neither show agreement for all keys nor the absence of accepted forgeries.",
 ["xcrypto/ecdsa/ecdsa.go","xcrypto/ecdsa/rfc6979.go","xcrypto/signature_ecdsa.go"],[("EcdsaSign/EcdsaVerify","xcrypto/signature_ecdsa.go, xcrypto/ecdsa/ecdsa.go"),("nonce derivation","xcrypto/ecdsa/rfc6979.go")])
p("P08","Schnorr signatures are deterministic and sound",
 "For every key and 32-byte message the signature is the one fixed by the scheme (deterministic nonce, quadratic-residue nonce point, challenge over nonce, key and message), it is 64 bytes, round-trips through its encoding and verifies. No other tested key, message or altered signature verifies, and malformed or out-of-range encodings are rejected without crashing.",
 ["inputs"],"all keys, messages, and altered signatures",
 "Vectors sample a few keys; nonce parity handling and range checks fail only for particular values.",
 ["xcrypto/schnorr/schnorr.go","xcrypto/signature_schnorr.go"],[("Sign/Verify/GetK/GetE","xcrypto/schnorr/schnorr.go"),("Serialize/Deserialize","xcrypto/signature_schnorr.go")])
p("P09","BIP32 derivation, public/private consistency and key text",
 "For every seed and derivation path the derived keys, chain codes, depths, fingerprints and extended-key texts equal those prescribed by BIP32; for non-hardened steps deriving publicly and privately gives the same public key, and hardened derivation from a public key is refused. Extended-key text round-trips, and texts or paths that are malformed, corrupted, of inconsistent type or out of range are refused with an error.",
 ["inputs","histories"],"all seeds, all paths (hardened or not, any depth up to and beyond the limit), all mutated texts",
 "Published vectors cover six chains; leading-zero keys, deep paths, boundary indexes and corrupted texts are not covered.",
 ["xcore/bip32/hdkey.go"],[("Derive/DeriveByPath","xcore/bip32/hdkey.go"),("ToString/NewHDKeyFromString","xcore/bip32/hdkey.go")])
p("P10","BIP39 mnemonics and seeds follow the standard",
 "For every entropy of a permitted size the mnemonic is the BIP39 one, converts back to the same entropy, is judged valid, and with any passphrase yields the BIP39 seed; entropies of other sizes are refused. Word lists that are not valid BIP39 sentences (unknown words, wrong count, wrong checksum) are judged invalid and yield an error instead of bytes or a seed, and every supported operation agrees on which sentences are valid.",
 ["inputs"],"all entropies of all sizes, all mutations of sentences, all passphrases",
 "Test vectors sample two dozen sentences of simple patterns; checksum and padding arithmetic depends on every bit.",
 ["xcore/bip39/bip39.go"],[("NewMnemonic/EntropyFromMnemonic/IsMnemonicValid/NewSeed","xcore/bip39/bip39.go")])
p("P11","Hashes and PBKDF2 equal their definitions",
 "For every message, key, salt, iteration count and output length, SHA-256, double SHA-256, RIPEMD-160, HASH160 and PBKDF2 (over SHA-1, SHA-256, SHA-512 and RIPEMD-160) results equal an independent implementation of their specifications. Incremental hashing gives the same digest however the message is split, reading a digest does not disturb the running state, and no operation alters its inputs.",
 ["inputs","histories"],"all messages (all block-boundary lengths), all write/sum/reset histories",
 "Vectors cover few lengths; padding and buffering faults appear only at particular lengths or splits.",
 ["xcrypto/hash.go","xcrypto/ripemd160/ripemd160.go","xcrypto/ripemd160/ripemd160block.go","xcrypto/pbkdf2/pbkdf2.go"],[("digest functions","xcrypto/hash.go"),("RIPEMD-160 state","xcrypto/ripemd160/"),("PBKDF2 Key","xcrypto/pbkdf2/pbkdf2.go")])
p("P12","Merkle trees and proofs are sound and complete",
 "For every non-empty list of leaf hashes the root equals Bitcoin's merkle root (odd levels duplicate the last node), and for every leaf in it the produced proof verifies to that root. A proof (leaves being 32-byte hashes) does not verify for another leaf, on another side, to another root or after any of its elements is altered, dropped, repeated or reordered; the empty list and hashes that are not in the list give an empty root or proof, not a crash.",
 ["inputs"],"all leaf counts (odd, even, powers of two and neighbours), all positions, all proof mutations",
 "Tests use a few block examples; odd-level duplication depends on the count and position.",
 ["xcrypto/merkle.go"],[("NewMerkle/Root/Proofs/Verify","xcrypto/merkle.go")])
p("P13","Paillier encryption is correct and homomorphic",
 "For every generated key pair and plaintext below the modulus, decryption inverts encryption, encryptions of the same plaintext differ, and the homomorphic operations decrypt to the sum, difference and scalar multiple or quotient modulo the modulus. Out-of-range plaintexts or ciphertexts and undecidable operations are refused with an error, not a wrong value or a crash, and operands are not altered.",
 ["inputs","histories"],"all plaintexts (0, 1, N-1, random), all short operation sequences on ciphertexts",
 "Tests do one operation on small fixed numbers; composition of operations and boundary plaintexts are not sampled.",
 ["xcrypto/paillier/paillier.go","xcrypto/paillier/homomorphism.go"],[("Encrypt/Decrypt","xcrypto/paillier/paillier.go"),("Add, Sub, AddPlaintext, MultPlaintext, DivPlaintext","xcrypto/paillier/homomorphism.go")])
p("P14","Two-party ECDSA yields an ordinary signature of the joint key",
 "For every pair of keys and every digest, honest execution of the two-party protocol lets both sides compute the same joint public key (the product of their secrets times the generator) and a low-S signature of the digest that an ordinary verifier accepts under it. After a tampered protocol message, or when the other party uses a different digest or key, a party never ends up with an accepted signature of its digest other than the one of the honest run; either the run reports an error or the result fails verification.",
 ["inputs","histories","fault_sequences"],"all key pairs, digests, both roles, and tampering of each protocol message",
 "Tests run one honest execution; nonce and share values that trigger boundary handling are random.",
 ["xcrypto/mpc_ecdsa.go"],[("EcdsaParty phases","xcrypto/mpc_ecdsa.go")])
p("P15","Multi-party Schnorr yields an ordinary signature of the aggregate key",
 "For every set of keys and every 32-byte message, honest execution of the aggregation protocol gives every participant the same aggregate public key, nonce and combined signature, which an ordinary Schnorr verifier accepts. Repeating a phase with the same inputs gives the same result; a tampered share or nonce, or a different message, never produces an accepted signature.",
 ["inputs","histories","fault_sequences"],"all participant counts, keys, messages, nonce parities and single-message tamperings",
 "Tests run fixed two- and three-party examples; half of the nonce choices take the other parity branch.",
 ["xcrypto/mpc_schnorr.go","xcrypto/schnorr/schnorr.go"],[("SchnorrParty phases","xcrypto/mpc_schnorr.go")])
p("P16","Scriptless (adaptor) ECDSA signatures reveal exactly the adaptor secret",
 "For every pair of parties, digest and adaptor secret, the incomplete signature does not verify as an ordinary signature, completing it with the secret does verify under the joint key, and anyone holding the incomplete and the completed signature recovers exactly the adaptor secret (up to its sign when the completed signature is known only in its published low-S form). A wrong secret never completes the signature, and tampered protocol values are detected or yield no valid signature.",
 ["inputs","histories"],"all keys, adaptor secrets and digests, all wrong secrets",
 "The test runs one fixed exchange; the sign normalisation that makes recovery ambiguous depends on random values.",
 ["xcrypto/scriptless_ecdsa.go"],[("ScriptlessEcdsaParty phases","xcrypto/scriptless_ecdsa.go")])
p("P17","Transactions serialise canonically and round-trip",
 "Every transaction serialises to the standard network format (witness form exactly when some input carries witness data), decoding that text gives a transaction that serialises to the same bytes, and its identifiers are the double hash of the form without and with witness data. The identifier without witness data does not depend on witness data, and any change to any other field changes it; decoding into a used object gives the same result as into a new one.",
 ["inputs","histories"],"all field values, counts, script lengths and witness stacks",
 "Tests use a few captured transactions; field widths, count encodings and witness combinations vary without bound.",
 ["xcore/transaction.go"],[("Serialize/Deserialize/SerializeNoWitness/DeserializeNoWitness","xcore/transaction.go"),("Hash/ID/WitnessHash/WitnessID","xcore/transaction.go")])
p("P18","Decoding untrusted transactions and blocks of bytes is safe",
 "For every byte string, decoding it as a transaction either succeeds, in which case re-encoding gives the bytes that were consumed, or returns an error; it never crashes, hangs, or reserves memory out of proportion to the input. Truncating a valid encoding anywhere makes decoding fail.",
 ["inputs"],"all byte strings: random, truncated, with altered counts and lengths",
 "The space of hostile byte strings is unbounded; tests contain only a few well-formed ones.",
 ["xcore/transaction.go","xbase/buffer.go"],[("Deserialize","xcore/transaction.go"),("bounds check","xbase/buffer.go")])
p("P19","Legacy signature digests follow the standard for every hash type",
 "For every transaction, input index, previous script and hash type byte, the digest to be signed for a non-witness input equals that of the original Bitcoin algorithm, so that it commits to exactly what the hash type says. In particular with the default type, changing any output, input, sequence, version, lock time or the spent script changes the digest, and computing it alters nothing.",
 ["inputs"],"all transactions, all input indexes, all 256 hash type bytes",
 "Tests only use the default hash type on small transactions; commitment is a statement about every field of every transaction.",
 ["xcore/transaction.go"],[("RawSignatureHash","xcore/transaction.go"),("RemoveOpcode","xvm/scriptreader.go")])
p("P20","Segwit v0 signature digests follow BIP143 in every call history",
 "For every transaction, witness input and hash type byte, the digest to be signed equals that of BIP143, including the spent amount. It depends only on the transaction's current contents: earlier digest computations, with any hash types and at any time, and later additions of inputs or outputs never cause a stale or altered digest.",
 ["inputs","histories"],"all transactions, hash types and interleavings of digest computations with edits",
 "Each unit test computes one digest on a finished transaction; caching faults appear only in particular call orders.",
 ["xcore/transaction.go"],[("WitnessV0SignatureHash and its cached parts","xcore/transaction.go")])
p("P21","What the wallet signs, it verifies",
 "For every mix of spendable coin kinds (key hash, script hash, witness key hash, witness script hash), key encodings, hash types, and m-of-n policies, building and signing a transaction with the right keys yields a transaction that verifies, also after being serialised, decoded and given back its spent outputs. Its unlocking data is exactly the standard one for each coin kind, and signing is deterministic.",
 ["inputs","histories"],"all coin mixes, keys, amounts, hash types and multisig parameters",
 "Tests sign a handful of single-kind examples; combinations of kinds and policies are not sampled.",
 ["xcore/transaction.go","xcore/transactionbuilder.go","xcore/script_p2pkh.go","xcore/script_p2sh.go","xcore/script_p2wpkh_v0.go","xcore/script_p2wsh_v0.go","xcore/script_multsig.go"],
 [("SignIndex/EmbedIdxSignature/Verify/SetTxIn","xcore/transaction.go"),("BuildTransaction","xcore/transactionbuilder.go")])
p("P22","No transaction verifies without the authorisation its outputs demand",
 "Verification fails for every signed transaction after any change the signatures commit to (outputs, inputs, amounts of witness coins, sequence, lock time, version), when signed with wrong keys or too few of them, and when unlocking data is removed, truncated, reordered, replaced, or crafted without the required signatures in any way, including control-flow tricks and surplus or missing stack items. A script-hash coin requires both the committed script and its successful execution.",
 ["inputs","programs"],"all mutations of signed transactions and all adversarial unlocking programs",
 "Soundness quantifies over all attackers' inputs; the tests try one or two wrong keys.",
 ["xcore/transaction.go","xvm/engine.go","xvm/instruction_crypto.go","xcore/script_p2wsh_v0.go"],[("Transaction.Verify","xcore/transaction.go"),("Engine.Verify","xvm/engine.go")])
p("P23","The script engine executes programs as the reference semantics does",
 "For every pair of unlocking and locking programs over the supported opcodes, the engine accepts exactly when an independent interpreter of the script language (with this engine's documented deviations) accepts: same stack effects, number encoding rules, conditional nesting, signature checks and multi-signature matching. The outcome depends only on the two programs and the signature checker, not on earlier use, tracing, or spare capacity of the given slices.",
 ["programs"],"all well-formed and ill-formed programs over the opcode table, with a modelled signature checker",
 "The test file holds 26 programs; interactions of stack operations, conditionals and signature opcodes are combinatorial.",
 ["xvm/engine.go","xvm/stack.go","xvm/instruction.go","xvm/instruction_flowcontrol.go","xvm/instruction_crypto.go","xvm/instruction_stack.go","xvm/instruction_bitwise.go","xvm/instruction_numeric.go"],[("Engine.Verify/Execute/Step","xvm/engine.go"),("opcode handlers","xvm/instruction_*.go")])
p("P24","The script engine and script parser are safe on arbitrary bytes",
 "For every two byte strings taken as unlocking and locking scripts, verification, execution, parsing, disassembly and opcode removal finish, return a verdict or an error, never crash, never alter the given bytes, and never reserve memory out of proportion to the scripts and the stack they build.",
 ["inputs","programs"],"all byte strings, including hostile counts for multi-signature opcodes and truncated pushes",
 "Scripts come from the network; tests only run hand-written ones.",
 ["xvm/engine.go","xvm/scriptreader.go","xvm/instruction_crypto.go"],[("opCheckMultiSig","xvm/instruction_crypto.go"),("NextInstruction","xvm/scriptreader.go")])
p("P25","Scripts are built and parsed without loss, numbers included",
 "Any sequence of data pushes, integers and opcodes given to the script builder produces the shortest standard encoding, which parses back to the same sequence; executing a pushed integer or byte string leaves that value on the stack. Script numbers encode minimally and decode back for every value in range, and non-minimal or oversized encodings are refused; removing an opcode removes exactly its occurrences outside push data.",
 ["inputs","programs"],"all byte strings of all push-size classes, all integers, all opcode sequences",
 "Push-size boundaries, negative and extreme integers and opcode bytes inside data are sampled only at a few points.",
 ["xvm/scriptbuilder.go","xvm/scriptreader.go","xvm/scriptnum.go","xvm/instruction.go"],[("AddData/AddInt64/AddOp","xvm/scriptbuilder.go"),("ScriptNum.Bytes/MakeScriptNum","xvm/scriptnum.go"),("RemoveOpcode","xvm/scriptreader.go")])
p("P26","The transaction builder conserves value and respects fee limits",
 "For every set of coins, payments, change address, data outputs and fee settings, a built transaction spends exactly the given coins, pays exactly the requested amounts to the requested scripts in order, returns everything else except the fee to the change address, and never pays a fee different from the requested or estimated one or above the configured maximum. When that is impossible (insufficient funds, arithmetic overflow, missing parts, missing change address) it returns an error and never a transaction.",
 ["inputs","configurations"],"all amounts up to the 64-bit limits, all numbers of coins and payments, all fee settings",
 "Tests fix a few amounts; silent loss of value appears at particular sums and limits.",
 ["xcore/transactionbuilder.go","xcore/coinbuilder.go"],[("BuildTransaction","xcore/transactionbuilder.go")])
p("P27","Reported sizes, weight and fees are those of the real transaction",
 "For every transaction the reported base, total and virtual sizes and weight equal those computed from its actual serialisations by the standard definitions, and the reported fee is inputs minus outputs. Size estimates for ordinary payments are upper bounds on the real virtual size as documented, grow with added inputs and outputs, and estimated fees are the rate times the size.",
 ["inputs"],"all transactions, signed or not, with and without witness data; all input and output counts",
 "Tests compare two or three transactions; rounding and witness accounting differ by kind and size.",
 ["xcore/transaction.go","xcore/estimate.go"],[("BaseSize/WitnessSize/Weight/Vsize/Size/Fees","xcore/transaction.go"),("EstimateSize/EstimateNormalSize/EstimateFees","xcore/estimate.go")])
p("P28","Protocol messages round-trip and hostile payloads are rejected safely",
 "Every protocol message with any field values encodes to its protocol layout, reports the size it encodes to, and decodes to an equal message without altering the original; a version message made for a network carries the version, port, user agent and last block set for it; element limits are enforced for every way of adding elements and when decoding. Any byte string given as a payload is decoded or refused with an error, without a crash or memory use out of proportion to it.",
 ["inputs"],"all field values and element counts of every message kind; all byte strings as payloads",
 "Tests encode one example per message; lost fields and limits show only for other values.",
 ["xprotocol/message.go","xprotocol/msgversion.go","xprotocol/msginv.go","xprotocol/msggetdata.go","xprotocol/msgheaders.go","xprotocol/msggetheaders.go","xprotocol/msgreject.go","xprotocol/msgping.go","xprotocol/msgpong.go","xprotocol/msgtx.go","xprotocol/msgverack.go","xprotocol/blockheader.go","xprotocol/invvect.go"],[("Encode/Decode/Size of each message","xprotocol/msg*.go")])
p("P29","Message streams deliver every message intact, in order, in both directions",
 "For every sequence of messages and every way the transport splits the bytes, the reader receives exactly the written messages in order, then the end of the stream; a frame with the wrong network magic, a wrong checksum, an oversized or truncated payload is refused with an error and never delivered. Concurrent writers never interleave their frames, and a blocked reader never prevents writing. Pauses, and earlier calls in either direction, do not make a later call fail, and a peer that has fallen silent makes a call fail rather than hang.",
 ["histories","schedules","fault_sequences"],"all message sequences, chunkings, frame corruptions and reader/writer interleavings",
 "Tests write one message over an ideal in-memory pipe; chunking, corruption and interleaving are not exercised.",
 ["xprotocol/stream.go","xprotocol/connection.go","xprotocol/command.go"],[("Stream.ReadMessage/WriteMessage","xprotocol/stream.go")])
p("P30","RPC calls send the request asked for and report every outcome faithfully",
 "Every call sends one well-formed JSON-RPC request with the given method, parameters and credentials, and returns the decoded result of the reply; every server error, HTTP failure, malformed or missing result is returned as an error and never as a zero value or crash. Typed results preserve every field value the server sent.",
 ["inputs","fault_sequences"],"all methods, parameters, reply bodies, status codes and malformed replies",
 "The tests use one canned reply per method; servers may answer anything.",
 ["xrpc/client.go","xrpc/method.go","xrpc/models.go"],[("Client.request","xrpc/client.go"),("typed methods","xrpc/method.go")])
p("P31","Library calls leave the caller's data alone",
 "No encoding, decoding, hashing, signing, verifying, script or builder operation modifies the byte slices, big integers or keys passed to it, including the unused capacity behind a slice, and values it returned earlier do not change because of later calls. Operations documented as queries can be repeated with the same result.",
 ["inputs","histories"],"all public operations taking slices or numbers, with arguments that have spare capacity or share storage",
 "Unit tests pass fresh exact-capacity slices once, so aliasing is invisible to them.",
 ["xbase/bech32.go","xcore/transaction.go","xcrypto/schnorr/schnorr.go","xvm/engine.go","xcrypto/secp256k1/secp256k1.go"],[("append on caller slices","xbase/bech32.go, xcore/transaction.go, xvm/engine.go"),("big.Int receivers","xcrypto/*")])
p("P32","Parsers of keys, signatures, addresses and texts never crash",
 "For every byte string or text, parsing it as a public key, signature (both kinds), point, address, extended key, derivation path, mnemonic, script text or identifier returns a value or an error; it never crashes, hangs or uses memory out of proportion to the input. A value that is returned serialises to a text or byte string that parses to the same value.",
 ["inputs"],"all byte strings and texts, random and mutated from valid ones",
 "Hostile input space is unbounded and tests feed only a few malformed examples.",
 ["xcrypto/pubkey.go","xcrypto/signature_ecdsa.go","xcrypto/signature_schnorr.go","xcrypto/secp256k1/sec.go","xcore/address.go","xcore/bip32/hdkey.go","xcore/bip39/bip39.go","xvm/scriptbuilder.go"],[("parsers","as listed")])
p("P33","Multi-signature policies are exact thresholds",
 "For every m-of-n policy, an m-of-n spend is accepted exactly when it carries m signatures by m different policy keys in policy order over the current transaction. Fewer signatures, repeated signatures, signatures out of order, by foreign keys, or over other data are rejected, for both the plain and the witness form.",
 ["inputs"],"all m and n up to the limits, all subsets, orders and substitutions of signers",
 "The number of signer subsets and orders is combinatorial; tests try one or two.",
 ["xvm/instruction_crypto.go","xcore/script_multsig.go","xcore/script_p2sh.go","xcore/script_p2wsh_v0.go"],[("opCheckMultiSig","xvm/instruction_crypto.go"),("GenMultiSigScript","xcore/script_multsig.go")])
p("P34","Generated secrets are fresh and unpredictable",
 "Every freshly generated private key, extended key, entropy, encryption key and encryption randomness differs from all others generated, uses its whole range without bias toward particular bits, and cannot be reproduced from the time at which it was generated. Generated values are always valid for their use.",
 ["histories"],"all sequences of generation calls, including many within one clock tick",
 "A unit test sees one generated value; repetition and bias are statements about many.",
 ["xcore/bip39/bip39.go","xcore/bip32/hdkey.go","xcrypto/prvkey.go","xcrypto/mpc_ecdsa.go","xcrypto/paillier/paillier.go"],[("NewEntropy","xcore/bip39/bip39.go"),("NewHDKeyRand","xcore/bip32/hdkey.go")])
p("P35","Errors carry their documented code and always format",
 "Every error of the library's error tables keeps its number and state (an unlisted number gives the documented unknown error), renders its arguments into its message, and can be printed in every format without a crash. Creating errors from several goroutines or repeatedly never changes errors created earlier or the tables.",
 ["inputs","histories","schedules"],"all error numbers, argument lists, format verbs and creation histories",
 "Tests create one error of one kind.",
 ["xerror/error.go","xerror/stack.go","xcore/error.go","xvm/error.go"],[("NewError/Format","xerror/error.go")])
p("P36","Disassembly and execution traces show the script that runs",
 "For every script that parses, the disassembly names each instruction in order with exactly the data it pushes, and from any instruction border the remaining disassembly is that of the rest of the script. With tracing on, an execution leaves one row for every instruction it passed, in order and with rising step numbers within one verification, naming that instruction, the complete stack after it and the instructions still to come, in all of the scripts a verification runs; printing the trace shows those rows. Tracing never changes a verdict, rows handed out stay as they were, and without tracing no rows are recorded.",
 ["inputs","histories"],"all scripts, script pairs, and sequences of runs of one engine with tracing switched on and off",
 "The tests log the disassembly and the trace of a few scripts without comparing them; what is shown is what a user debugs a script with.",
 ["xvm/engine.go","xvm/scriptreader.go","xvm/stack.go","xvm/trace.go","xvm/instruction.go"],[("Engine.Traces/PrintTrace/EnableDebug/DisableDebug","xvm/engine.go"),("DisasmString/DisasmRemaining","xvm/scriptreader.go"),("Stack.String","xvm/stack.go")])
p("P37","The printed transaction is the transaction",
 "In every state (assembled, decoded with or without its spent outputs, unsigned, partly or completely signed, verified) a transaction can be printed without a crash and without being changed, the same way twice, and the text shows every input with the output it spends, the value, the locking, unlocking and redeem scripts, the digest signed last and the first witness item, every output with its value and script, in order, and the sizes, weight, fees and rates of the serialisation.",
 ["inputs","histories"],"all transactions and the states they pass through while being built, signed, reloaded and verified",
 "Tests only log the text; crashes and wrong values depend on the state and kind of each input.",
 ["xcore/transaction.go"],[("Transaction.ToString","xcore/transaction.go"),("sizes and fees","xcore/transaction.go BaseSize/WitnessSize/Fees")])
p("P38","Values can be used from several goroutines at once",
 "Operations that run at the same time in several goroutines, on values of their own and on keys, extended keys, addresses, trees, scripts and byte slices they only read, each give the result they give alone, without a data race, a crash or a deadlock: no operation keeps hidden state that another one can see. Setting the package-wide word list is the only exception.",
 ["schedules","inputs"],"all combinations of operations, arguments shared for reading, and interleavings",
 "Tests run one operation after the other; shared scratch space or unsynchronised lazy initialisation shows only under overlap.",
 ["xbase/buffer.go","xcrypto/hash.go","xcrypto/ripemd160/ripemd160.go","xcrypto/secp256k1/secp256k1.go","xcrypto/ecdsa/rfc6979.go","xcore/bip32/hdkey.go","xcore/bip39/bip39.go","xvm/instruction.go","xcore/transactionbuilder.go"],[("curve initialisation","xcrypto/secp256k1/secp256k1.go SECP256K1()"),("package-level tables and numbers","xvm/instruction.go opcodes, xcrypto/ecdsa/rfc6979.go, xcore/bip39/bip39.go")])
p("P39","Coins of a joint key are spent together, and only together",
 "A coin locked to the joint key of two parties, in the plain or the witness form, is spent by the signature their protocol run (two-party ECDSA, or the adaptor form once the secret is applied) makes over that input's digest, for every transaction, input position and hash type: the parties compute one key and address, the embedded signature completes the transaction, and it verifies before and after being sent as bytes. Neither party alone, the adaptor signature without its secret, nor a signature for other committed data spends the coin, and the published signature reveals the secret to the other party.",
 ["inputs","histories"],"all key pairs, secrets, transactions mixing joint and other coins, hash types and signing orders",
 "The tests and examples run one fixed key pair and transaction; what can go wrong lies between the protocol, the digests and the embedding.",
 ["xcrypto/mpc_ecdsa.go","xcrypto/scriptless_ecdsa.go","xcore/transaction.go","examples/two_party_ecdsa_transaction_p2wpkh.go"],[("Phase1..Phase5, ScriptlessPhase1..6","xcrypto/mpc_ecdsa.go, xcrypto/scriptless_ecdsa.go"),("EmbedIdxEcdsaSignature, RawSignatureHash, WitnessV0SignatureHash","xcore/transaction.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
