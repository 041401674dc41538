import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name="state",meaning=state)]
    if observe: d["anchors"]["observe_at"]=[observe]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Parsing does not depend on how the bytes arrive",
 "Whatever sequence of chunks, pauses and empty polls a serialized object (script, witness, transaction input, output, transaction, PSBT, Electrum transaction, signature, public, private or extended key) arrives in, raw or hex, including bytes that arrive while the device is already parsing, the receiver reports 'incomplete' until the last byte is in and 'done' once it is in. Its content is then exactly what the sender encoded, and the byte counts it returned add up to the length of the encoding. It never consumes a byte beyond the end of the encoding.",
 ["inputs","schedules"],"every well-formed encoding of every streamable type and every arrival schedule of its bytes",
 "The suite never parses anything in more than one piece; there are 2^(n-1) ways to cut an n-byte message and bytes also arrive during a call.",
 ["src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/Electrum.cpp","src/Bitcoin.cpp","src/BitcoinCurve.cpp","src/HDWallet.cpp","src/BaseClasses.cpp"],
 [("resumable stream parsers","from_stream() of every Streamable"),("status/bytes_parsed state machine","Streamable in src/BaseClasses.h"),("in-memory raw/hex source","ParseByteStream in src/BaseClasses.cpp")],
 "status, bytes_parsed and per-class partial-parse fields","getStatus(), the return value of parse, public fields, re-serialization")
p("C02","Serialization does not depend on output flow control",
 "However little room the output side offers at a time, and wherever a transfer is paused and resumed by offset, the concatenation of what is emitted for an object is its one full encoding, the announced length equals the number of bytes emitted, each call reports exactly the bytes it emitted, and nothing is emitted once the end is reached or when there is no room. This holds raw and hex, for every streamable type, including a PSBT before and after signing.",
 ["inputs","schedules"],"every object of every streamable type and every sequence of output windows and resume offsets",
 "The suite serializes only whole objects into sufficient buffers; windows x offsets x object shapes cannot be sampled by hand.",
 ["src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/Electrum.cpp","src/Bitcoin.cpp","src/BitcoinCurve.cpp","src/HDWallet.cpp","src/BaseClasses.cpp"],
 [("offset-resumable serializers","to_stream(stream, offset) of every Streamable"),("length()","length() of every Streamable"),("in-memory sink","SerializeByteStream in src/BaseClasses.cpp")],
 None,"bytes accepted by the output stream, return values, length()")
p("C03","A failed or abandoned transfer leaves no residue",
 "After a transfer into an object was cut short, garbled or rejected at any point, resetting the object and receiving a good message into it gives exactly the result a fresh object would give; likewise a new message received after a completed one replaces it completely. The object can be reset or destroyed at any point of a transfer without memory errors or leaked memory.",
 ["histories","crash_points","fault_sequences"],"every history of cut, garbled, completed and repeated transfers into one object, every cut point",
 "Requires combinations of cut point, previous content and next content on the same object; the suite uses each object once.",
 ["src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/Electrum.cpp","src/Bitcoin.cpp","src/BitcoinCurve.cpp","src/HDWallet.cpp"],
 [("reset() and start-of-parse cleanup","reset()/clear() and the PARSING_DONE branch of each from_stream()"),("destructors","~Script, ~Witness, ~Tx, ~PSBT, ~ElectrumTx")],
 "partial-parse state left in the object and its members","status, re-serialization and public fields after the retry; heap balance")
p("C04","A garbled or hostile stream is contained",
 "Whatever bytes arrive (bit flips, lost, duplicated, swapped or truncated spans, hostile length fields, non-hex characters), the receiver never accesses memory out of bounds, never loops, never leaks, and reports 'done' only for bytes that form a complete encoding, so that serializing the received object gives back the consumed bytes (a PSBT gives back its transaction, a bare scalar its value modulo the group order). Once it reports 'failed' it stays failed and consumes nothing more until reset. A PSBT whose claimed previous transaction does not hash to the spent outpoint, or lacks that output, is rejected.",
 ["inputs","fault_sequences","schedules"],"every corrupted or adversarial byte stream, under every chunking",
 "The corruption space is unbounded and no test feeds a malformed message.",
 ["src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/Electrum.cpp","src/Bitcoin.cpp","src/BitcoinCurve.cpp","src/HDWallet.cpp","src/BaseClasses.cpp"],
 [("length and format checks","varint/DER/prefix checks in from_stream()"),("field validation","PSBT::add")],
 None,"sanitizers, step budget, heap balance, status, re-serialization")
p("C05","Running out of memory never passes for success",
 "If memory runs out at any point while a message is received, the receiver either still ends up with exactly the right content or reports failure (or the allocation failure itself surfaces); it never reports 'done' with missing, truncated or altered content. Nothing is accessed out of bounds or leaked, and once memory is available again a reset and retry succeeds.",
 ["fault_sequences","inputs"],"every message and every subset of failing allocations while it is received",
 "No test makes an allocation fail; which allocation fails decides which half-built state must be survived.",
 ["src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/Electrum.cpp"],
 [("allocation failure branches","calloc/realloc/new call sites in from_stream(), copy and assignment")],
 None,"status and content after the parse, heap balance, sanitizers")
p("C06","Tasks working on separate objects do not interfere",
 "Several tasks, each working on its own objects (parsing, serializing, hashing, deriving keys, signing, verifying), obtain exactly the results they would obtain alone, however the scheduler interleaves or preempts them. The only exceptions are the one shared buffer that holds a freshly generated mnemonic and the global last-error code.",
 ["schedules"],"every interleaving and preemption of tasks over disjoint objects",
 "The suite is single-threaded; hidden shared scratch state shows up only under particular interleavings.",
 ["src/BitcoinCurve.cpp","src/Bitcoin.cpp","src/HDWallet.cpp","src/Hash.cpp","src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/utility/trezor/hmac.c","src/utility/trezor/ecdsa.c","src/utility/trezor/rfc6979.c"],
 [("absence of shared mutable scratch state","all parsers, hash/HMAC contexts, curve arithmetic, signing")],
 "any static or global variable","results of each task compared with the same task run alone")
p("C07","Results never depend on the random number generator",
 "Public keys, derived children, shared secrets, ECDSA signatures (deterministic per RFC 6979, low-S, valid for the message and key, with the right recovery index), BIP-340 signatures, verification verdicts, and sums, differences and products of points and scalars are the standard ones, through plain and extended keys alike, for every behaviour of the random number generator, including stuck, repeating, biased or transiently all-zero output. Every such operation completes once the generator yields a usable value (neither all-zero nor all-one bits) again.",
 ["fault_sequences","inputs"],"every RNG output sequence, key, message and peer key",
 "Blinding makes every scalar multiplication consume randomness; the suite runs one RNG behaviour and three signatures.",
 ["src/utility/trezor/ecdsa.c","src/utility/trezor/rfc6979.c","src/utility/trezor/bignum.c","src/utility/trezor/rand.c","src/Bitcoin.cpp","src/BitcoinCurve.cpp","src/HDWallet.cpp"],
 [("blinded scalar multiplication","point_multiply/scalar_multiply/curve_to_jacobian in ecdsa.c"),("deterministic nonce","rfc6979.c, ecdsa_sign_digest"),("Schnorr","PrivateKey::schnorr_sign, PublicKey::schnorr_verify")],
 "RNG stream","returned keys, signatures and verdicts against an independent implementation")
p("C08","A PSBT signing session signs exactly what it should",
 "For every well-formed PSBT received over the link and every wallet key, signing adds, for exactly those inputs and derivation entries whose fingerprint, path and public key belong to the wallet, one partial signature that is valid under that public key for that input's own signature hash, spent amount and script (legacy, P2SH, native and nested segwit), and reports how many it added. The transaction itself is never altered, already present signatures are kept, the fee shown for confirmation is input amounts minus output amounts when all input amounts are known and sufficient, and zero otherwise, and an output is reported as the wallet's own exactly when one of its derivation entries leads from the wallet key to that entry's public key.",
 ["inputs","schedules","histories","fault_sequences"],"every PSBT, wallet and link schedule, including repeated signing by several wallets",
 "PSBT code has no test at all; script types x derivations x foreign keys x metadata order is a combinatorial space.",
 ["src/PSBT.cpp","src/Transaction.cpp","src/Script.cpp","src/HDWallet.cpp"],
 [("metadata collection","PSBT::from_stream, PSBT::add"),("signing","PSBT::sign"),("sighash","Tx::sigHash, Tx::sigHashSegwit"),("confirmation data","PSBT::fee, PSBT::isMine"),("output","PSBT::to_stream")],
 "unsigned transaction, per-input and per-output metadata","bytes on the output link, decoded by an independent PSBT decoder and verified independently")
p("C09","A restart at any instant is recoverable and changes nothing",
 "If the device loses power at any instant of a signing session (while receiving, parsing, signing or sending) and restarts with only its seed phrase, then repeating the request and resuming the reply at the offset already delivered yields, in total, byte for byte the reply of an uninterrupted session. No number or placement of restarts yields a different signature.",
 ["crash_points","fault_sequences"],"every crash instant, any number of crashes, any PSBT",
 "Crash instants are arbitrary machine states in the middle of any call; tests never interrupt anything.",
 ["src/PSBT.cpp","src/HDWallet.cpp","src/Bitcoin.cpp","src/utility/trezor/rfc6979.c","src/utility/trezor/ecdsa.c"],
 [("deterministic derivation and signing","HDPrivateKey::fromMnemonic, PrivateKey::sign"),("resumable output","PSBT::to_stream(offset)")],
 "only the mnemonic is durable","concatenation of bytes the host received across restarts")
p("C10","Incremental hashing does not depend on fragmentation or interleaving",
 "For every hash and keyed hash offered (SHA-256, double SHA-256, SHA-512, RIPEMD-160, hash160, tagged hash, HMAC-SHA-256/512), feeding a message in any fragments, including empty ones and single bytes, to any number of contexts in any interleaving gives the standard digest of the whole message. A finished context can be begun again and gives correct results.",
 ["schedules","inputs","histories"],"every message, fragmentation, context interleaving and reuse history",
 "Tests hash a few short messages in one piece; block-boundary bugs need particular fragment sizes.",
 ["src/Hash.cpp","src/Hash.h","src/utility/trezor/sha2.c","src/utility/trezor/ripemd160.c","src/utility/trezor/hmac.c"],
 [("block buffering","*_Update/*_Final in sha2.c and ripemd160.c"),("HMAC contexts","hmac.c"),("wrappers","Hash.cpp")],
 "hash contexts","digests against an independent implementation")
p("C11","A generated seed phrase carries exactly the randomness drawn",
 "Whatever the random number generator returns, a generated seed phrase of 12, 15, 18, 21 or 24 words is the BIP-39 encoding of exactly the random bytes drawn for it, with a valid checksum, so that the library's own check accepts it, and converts back to exactly those bytes, without reading outside the given text. A phrase damaged by replacing or swapping words is accepted by the library's check exactly when its BIP-39 checksum is valid, and unsupported sizes yield no phrase.",
 ["inputs","fault_sequences","histories"],"every RNG output sequence, word count and phrase mutation",
 "Entropy space is 2^128..2^256; tests use one fixed phrase.",
 ["src/Bitcoin.cpp","src/utility/trezor/bip39.c","src/utility/trezor/rand.c"],
 [("generation","generateMnemonic, mnemonic_generate, mnemonic_from_data"),("random bytes","random_buffer"),("validation","mnemonic_check, mnemonic_to_entropy")],
 "RNG stream","phrase, verdict and entropy against an independent BIP-39 codec")
p("C12","Secrets are wiped from memory the library gives up",
 "Once a private key, extended private key or secret scalar is destroyed, and once any operation on it returns or is aborted by a failure, no memory that the library has released (storage of the destroyed object, or a heap work buffer the library allocated and freed) and no static variable of the library still contains the secret number or chain code, raw or in its hex or base58 text form. String objects that carry text to or from the caller are the caller's to wipe. This holds for success and for every failure path (bad checksum, wrong length, failed allocation, cut transfer).",
 ["histories","fault_sequences","inputs"],"every history of key operations with failures injected at any point",
 "Residue in freed memory is invisible to tests, and it is the failure paths that skip the wipe.",
 ["src/Bitcoin.cpp","src/BitcoinCurve.h","src/HDWallet.cpp","src/Conversion.cpp","src/BaseClasses.cpp"],
 [("wiping destructors","~PrivateKey, ~HDPrivateKey, ~ECScalar"),("temporary buffers","fromBase58/fromBase58Check/toBase58Check, toString")],
 "freed heap blocks, destroyed object storage","a scan of every block at the moment it is freed and of object storage after destruction")
p("C13","An Electrum signing session signs exactly what it should",
 "For every well-formed Electrum unsigned transaction (legacy, or native or nested segwit) received over the link, exactly those inputs whose extended public key is the signing account's are signed, with the key at the given change and index, with signatures valid for that input's signature hash and amount, and the count is reported. The emitted transaction is otherwise unaltered, other inputs stay unsigned, and the fee shown is inputs minus outputs when all input amounts are known and sufficient, and zero otherwise.",
 ["inputs","schedules"],"every Electrum transaction, account and link schedule",
 "No test covers Electrum; the segwit variant parses by deliberately failing a sub-parser, which is sensitive to arrival timing.",
 ["src/Electrum.cpp","src/Electrum.h","src/Transaction.cpp","src/HDWallet.cpp"],
 [("parse","ElectrumTx::from_stream"),("signing","ElectrumTx::sign, Tx::signInput, Tx::signSegwitInput"),("fee","ElectrumTx::fee")],
 "transaction and per-input metadata","bytes on the output link decoded and verified independently")
p("C14","A progress callback can do anything and changes nothing",
 "While a key is being derived from a seed phrase, the progress callback is called with strictly increasing values, ending at exactly 1, at most 1; whatever the callback does in between (use other keys, hash, sign, parse, start another derivation), the derived key is the BIP-39/BIP-32 key of that phrase and password, and so are the results of the nested work. If the callback aborts the derivation, the key object holds no key and can be used again.",
 ["schedules","histories","fault_sequences"],"every phrase, password, nested activity and abort point",
 "The callback is never exercised by tests; re-entrancy bugs need specific nested operations at specific instants.",
 ["src/HDWallet.cpp","src/Hash.cpp","src/utility/trezor/hmac.c"],
 [("key stretching loop","HDPrivateKey::fromMnemonic"),("re-entrant HMAC","SHA512::beginHMAC/endHMAC")],
 "key object under construction, hash contexts","callback values, derived key versus an independent implementation")
p("C15","Objects behave as independent values over any history",
 "Over any history of building, copying, assigning (also to itself), appending, mutating, serializing and destroying scripts, witnesses, inputs, outputs, transactions, PSBTs and Electrum transactions, each object always holds exactly the value its own history gives it: changing or destroying one never changes another, copies equal their source at the time of copying, and its encoding, length and transaction ids (txid, wtxid) are those of that value. Nothing is accessed after it was freed, freed twice or leaked.",
 ["histories"],"every sequence of value operations on any number of objects",
 "Aliasing and ownership bugs need particular operation orders; no test copies these objects.",
 ["src/Script.cpp","src/Transaction.cpp","src/PSBT.cpp","src/Electrum.cpp","src/Bitcoin.h"],
 [("deep copy and assignment","copy constructors and operator= of Script, Witness, Tx, PSBT, ElectrumTx"),("growth","push, addInput, addOutput")],
 "owned arrays","re-serialization of every live object after every step against a value model; heap balance")
p("C16","Running out of memory never corrupts a transaction being built or signed",
 "If memory runs out at any point while an input or output is added to a transaction, or while a transaction input, a PSBT or an Electrum transaction is signed, then every part already held stays exactly as it was, an addition takes effect completely or not at all, and the returned count says which. Every signature that is added or returned is valid and complete, an input that could not be signed is left without a (partial) signature, and the reported number of signatures is the number actually added. A standard script that is built or copied (key hash, multisig, P2SH, P2WSH) is complete or empty; a copied transaction, PSBT or Electrum transaction is complete, or empty and marked as failed. An allocation failure may instead surface as an exception, with the same guarantees. Nothing is leaked, and once memory is available again the same operation succeeds.",
 ["fault_sequences","histories"],"every placement of allocation failures in every building or signing operation",
 "Allocation failures never happen in tests; a silently emptied script yields a signature over, or an output to, the wrong script.",
 ["src/Transaction.cpp","src/Script.cpp","src/PSBT.cpp","src/Electrum.cpp"],
 [("signature hashes","Tx::sigHash, Tx::sigHashSegwit"),("signing","Tx::signInput, Tx::signSegwitInput, PSBT::sign, ElectrumTx::sign"),("building","Tx::addInput, Tx::addOutput, Script::push, Witness::push")],
 "transaction inputs, outputs, scripts, witnesses, partial signatures","content and counts after the failed operation; signatures verified independently")
p("C17","Damaged text never becomes a wrong key, script or path, nor overruns a buffer",
 "Text reaches the device through people and cameras: typed wrong, swapped, cut, doubled, padded, in the wrong case, overlong, or of the wrong kind. A private key (WIF), extended key, public key, address, derivation path, transaction id, base64 PSBT, script, transaction or signature in hex, or plain hex/binary/base58/base58check/base43/base64 text is accepted exactly when it is well formed, and then has exactly the content an independent decoder gives; otherwise it is refused and leaves no key, script or earlier content behind (text followed by foreign characters may be refused or read up to them). A derived key carries the key version and address form its path stands for (BIP-44/45/48/49/84), an output descriptor gets its standard checksum or none, and a script that is not exactly one of the standard forms is given no address. Text and numbers written into a buffer are complete or not written at all, the announced buffer sizes suffice, and nothing is ever read or written outside the given blocks, also when memory runs out.",
 ["inputs","fault_sequences","histories"],"every text, every sequence of channel faults, every buffer size, every failing allocation",
 "Tests use a few clean strings and large buffers; edits, leading zeroes, unusual lengths and reuse of an object after a refused text are not tried.",
 ["src/Conversion.cpp","src/utility/segwit_addr.c","src/Script.cpp","src/Bitcoin.cpp","src/HDWallet.cpp","src/Transaction.cpp","src/PSBT.cpp"],
 [("decoders","fromHex, fromBase58, fromBase58Check, fromBase43, fromBase64, segwit_addr_decode"),("key import","PrivateKey::fromWIF, HDPrivateKey::from_str, HDPublicKey::from_str"),("addresses","Script::fromAddress, Script::address"),("paths","HDPrivateKey::derive(path), HDPublicKey::derive(path)")],
 "keys and scripts held by a reused object","validity, secrets, texts and scripts after each entry; sanitizers; heap balance")
p("C18","A multisig quorum over an unreliable network agrees and finishes, or nothing",
 "Several devices each hold one seed of an m-of-n wallet and exchange account keys and PSBTs with each other and a coordinator while messages are lost, duplicated, reordered or garbled, links are cut, devices lose power, run out of memory and come back with their seed (and stored keys) only. In whatever order the keys arrive, every device derives the same sorted multisig script, output and address (BIP-67) for every index, and never takes a key nobody announced. No device ever signs anything but the requested transaction: each reply contains exactly the signatures already present plus one valid signature per input by that device, and pieces of a reply fetched across restarts fit together. Once faults stop, any m surviving devices complete the transaction within a bounded number of message rounds, and the final transaction put together from their signatures is valid.",
 ["schedules","fault_sequences","crash_points","histories"],"every number of devices, message schedule, fault sequence and order of key arrival",
 "No test has two devices; order-dependent scripts, state left over from an aborted request or a mixed-up resumed reply only show in distributed histories.",
 ["src/Script.cpp","src/BitcoinCurve.cpp","src/HDWallet.cpp","src/PSBT.cpp","src/Transaction.cpp","src/Conversion.cpp"],
 [("sorted multisig","sortedmulti, multi, sh, wsh, ECPoint::operator<"),("key exchange","HDPublicKey::from_str, HDPublicKey::xpub, child, derive"),("signing","PSBT::from_stream, PSBT::sign, PSBT::to_stream, PSBT::isMine"),("final transaction","Script::push, Witness::push")],
 "registered keys, partially received requests, partial signatures","addresses, scripts and replies of every device at every step against a reference; rounds until completion after faults stop")
p("C19","A transaction built and signed by hand is exactly what was asked for",
 "Over any history of adding inputs and outputs, editing fields, copying, sending, receiving and signing inputs in any order and repeatedly, each signing call returns a signature that is valid under the given key for that input's signature hash of the transaction as it is at that moment (pay-to-pubkey-hash with compressed or uncompressed key, single-key P2SH script, and native or nested P2WPKH and single-key P2WSH with the given amount; signature hash types ALL, NONE and SINGLE). It places exactly the unlocking script and witness that spend such an output in that input and changes nothing else, so that once all inputs are signed after the last edit the transaction sent is valid and is the one that was built.",
 ["histories","fault_sequences"],"every order of building, editing and signing steps",
 "Tests sign one or two fixed transactions; wrong resets, stale hashes or cross-input effects need particular orders, kinds and sizes.",
 ["src/Transaction.cpp","src/Script.cpp","src/Bitcoin.h","src/BitcoinCurve.cpp"],
 [("signing","Tx::signInput, Tx::signSegwitInput"),("signature hashes","Tx::sigHash, Tx::sigHashSegwit, hashPrevouts, hashSequence, hashOutputs"),("unlocking scripts","Script::push, Witness::push")],
 "transaction under construction","model transaction after every step; signatures verified against independently computed signature hashes")
# not applicable
p("N01","Address and text encodings are correct",
 "Base58Check, Bech32, Base64, Base43 and hex encodings and decodings agree with their specifications for every input, and decoding inverts encoding.",
 ["inputs"],"every byte string and text","Infinite input space.",
 ["src/Conversion.cpp","src/utility/segwit_addr.c","src/utility/trezor/base58.c"],[("codecs","src/Conversion.cpp")])
p("N02","Hierarchical key derivation follows BIP-32",
 "Every private and public child derivation gives the BIP-32 child, and public derivation commutes with private derivation.",
 ["inputs"],"every key and path","Infinite input space.",["src/HDWallet.cpp"],[("derivation","HDPrivateKey::child, HDPublicKey::child, derive")])
p("N03","Curve and scalar arithmetic is algebraically correct",
 "Point and scalar operators obey the group and field laws of secp256k1 for all operands including infinity and equal points.",
 ["inputs"],"every pair of operands","Infinite input space.",["src/BitcoinCurve.cpp","src/utility/trezor/bignum.c","src/utility/trezor/ecdsa.c"],[("arithmetic","ECPoint/ECScalar operators")])
p("N04","Descriptor checksums and script templates are correct",
 "Descriptor checksums and the scripts and addresses built for standard templates match the specifications for every input.",
 ["inputs"],"every descriptor and key set","Infinite input space.",["src/PSBT.cpp","src/Script.cpp"],[("checksum","descriptorChecksum"),("templates","pkh, wpkh, multi, sh, wsh, Script::fromAddress")])
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
