"""Writes sim/meta.json and MANIFEST.json (generated; edit here)."""
import json,os
import os; H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C={}
def c(id,rule,tech,note,assume=[]): C[id]=dict(rule=rule,technique=tech,level_note=note,assumptions=assume)
T="deterministic simulation: "
c("C01","One seed picks a message of one of 16 kinds (sizes biased to varint and field boundaries), the transport (live link, raw or hex buffer API), the chunk sizes, empty polls, bytes arriving inside a call, and trailing foreign data. Non-trivial: the message arrived in more than one piece or during a call.",
  T+"seeded arrival schedules, reference encoder as oracle","Samples messages x arrival schedules; after each call checks status, byte count and consumption, at the end content against an independent encoder and heap balance.",["hex input re-presents unread characters, as the library reports consumption in whole bytes"])
c("C02","One seed picks an object (also PSBTs after signing), the output API (live link, raw or hex buffer), the window sizes, resume offsets and room that opens inside a call. Non-trivial: more than one window, a resume offset or mid-call room.",
  T+"seeded output windows and resume offsets, reference encoder as oracle","Samples objects x flow-control schedules; every emitted byte is compared with an independent encoder.")
c("C03","One seed picks a kind and a history of complete, cut and damaged transfers, resets and destructions on one object, then a good transfer. Non-trivial: at least one transfer was cut or damaged.",
  T+"seeded cut/damage/reset histories against a fresh-object model","Samples histories; result must equal that of a fresh object in content, status and re-emission; ASan and heap balance watch the rest.")
c("C04","One seed picks a message and 1-3 stream faults (bit flip, loss, duplication, reordering, truncation, insertion, stuck line, hostile lengths, off-by-one, bad hex characters) and a chunking. Non-trivial: the bytes differ from a good message.",
  T+"seeded stream corruption, strict reference decoders as oracle","Samples corruptions; sanitizers, step budget, heap balance, sticky failure and a strict independent decoder for everything accepted.",["a transaction with no inputs, and one whose witnesses are all empty, have no round-trip form and are exempt from byte equality"])
c("C05","One seed picks a message, a chunking and an allocation failure plan (n-th allocation, short burst, everything after, everything above a size). Non-trivial: an allocation actually failed.",
  T+"seeded allocation faults, exact content model","Samples failing-allocation plans on every allocating kind; done implies exact content; retry must succeed; heap must balance.",["allocation failure surfaces as a failed status or as std::bad_alloc"])
c("C06","One seed picks 2-4 tasks with their own objects and work (parse, serialize, hash, derive, sign, verify, encode), and a preemption schedule at basic-block granularity. Non-trivial: at least one preemption inside a library call.",
  T+"preemptive fibers at basic-block granularity, solo run as reference","Samples interleavings; every task's transcript must equal the one it produces alone.",["tasks never share an object; mnemonic generation and ubtc_errno are excluded, as stated"])
c("C07","One seed picks keys, messages, operations and an RNG behaviour (uniform, stuck, short cycle, biased, zero bursts, long zero outage). Non-trivial: the RNG was not uniform.",
  T+"seeded RNG faults, independent secp256k1/RFC 6979/BIP-340 as oracle","Samples RNG behaviours x operations; all results compared with an independent implementation.",["the generator eventually yields a non-zero value"])
c("C08","One seed picks wallets, a PSBT mixing legacy, P2SH, native and nested segwit inputs with own, foreign and decoy derivations, its metadata order, the link schedule, and a sequence of signers. Non-trivial: the PSBT mixes own and not-own material or arrives in pieces.",
  T+"simulated signing sessions, independent PSBT/sighash/ECDSA oracle","Samples sessions; exact expected set of signatures computed independently, compared on the wire.",["SIGHASH_ALL only, the only type the library signs","inputs to be signed carry UTXO information"])
c("C09","One seed picks a session (seed phrase, PSBT, chunking) and 1-4 power losses, each at an arbitrary basic block or link byte; every boot starts from the seed phrase only. Non-trivial: at least one power loss hit inside an operation.",
  T+"power loss at arbitrary basic blocks, uninterrupted session as reference","Samples crash placements; concatenated reply must equal the uninterrupted reply byte for byte.",["the host repeats the request and resumes the reply by byte offset"])
c("C10","One seed picks several hash contexts of different algorithms, their messages (sizes biased to block boundaries), fragments and interleaving, and re-use after completion. Non-trivial: more than one fragment or context.",
  T+"seeded fragmentation and interleaving, independent hashes as oracle","Samples fragmentations x interleavings; every digest compared with an independent implementation.")
c("C11","One seed picks an RNG behaviour, a word count, and phrase damage. Non-trivial: RNG not uniform or phrase damaged.",
  T+"seeded RNG behaviour, independent BIP-39 codec as oracle","Samples RNG outputs and damaged phrases; the phrase must encode exactly the bytes drawn.")
c("C12","One seed picks a history of secret-handling operations and failures (bad checksum, wrong length, failed allocation, cut transfer). Every block is scanned for the live secrets when it is freed, every object's storage after its destructor ran. Non-trivial: a secret was present and something was freed or destroyed.",
  T+"seeded failure histories, scan of all released memory","Samples histories and failures; scans heap blocks at free and object storage after destruction.",["stack frames of returned functions and strings handed to or taken from the caller are outside the property"])
c("C13","One seed picks an account, an Electrum transaction (legacy or segwit, own and foreign inputs), and link schedules. Non-trivial: own and foreign inputs mixed, or more than one chunk.",
  T+"simulated signing sessions, independent sighash/ECDSA oracle","Samples sessions; the expected signed transaction is computed independently and compared byte for byte.")
c("C14","One seed picks phrase, password, and per callback what it does (nothing, hash, sign, parse, nested derivation, RNG use, abort by exception). Non-trivial: the callback did something.",
  T+"seeded re-entrancy and aborts, independent BIP-39/32 as oracle","Samples callback behaviours; outer and nested results compared with an independent implementation.",["abort means an exception thrown by the callback"])
c("C15","One seed picks a history of constructions, copies, assignments, appends, mutations, parses, serializations and destructions over a pool of objects. Non-trivial: at least one copy or assignment of a non-empty object.",
  T+"seeded operation histories against a value model","Samples histories; after each step every live object is compared with its model; ASan and heap balance.")
c("C16","One seed picks a transaction, PSBT or Electrum session, an operation (add input, add output, sign an input, sign the PSBT or Electrum transaction) and an allocation failure plan (one, a few, all from the n-th, or all above a size). Non-trivial: an allocation failed inside the operation.",
  T+"allocation failures at every point of building and signing, independent sighash/ECDSA oracle","Samples operations x failure plans; afterwards every part is whole or absent, the counts tell which, signatures are verified independently, and a retry succeeds.",["a failing operator new surfaces as std::bad_alloc"])
c("C17","One seed picks a session of text entries and outputs (keys, addresses, paths, plain encodings, PSBT text), per entry zero to three channel faults (typo, noise, swap, drop, double, cut, padding, case, repetition, garbage), buffer sizes and allocation failures. Non-trivial: a text was damaged, a buffer too small, or an allocation failed.",
  T+"faulty text channel, bounded buffers and failing allocations against independent codecs","Samples texts x faults x buffer sizes; acceptance and content are compared with independent decoders, blocks are exactly sized under ASan.",["text followed by characters outside the alphabet may be refused or read up to them; witness versions above 0, upper-case bech32 and empty path components may be refused"])
c("C18","One seed picks a quorum (m of 2 to 8 devices, three script types), an event schedule (deliveries, timers, restarts) and faults (loss, duplication, reordering, garbling, cut links, power loss also in the middle of a request, memory exhaustion, devices lost for good), then a fault-free phase with a bound on rounds; one run in five checks all arrival orders of up to 16 adversarially close keys. Non-trivial: a fault or reordering happened.",
  T+"multi-node simulation of a signing quorum with network, power and memory faults, safety at every step and bounded progress","Samples schedules and fault sequences; every script, address, reply and the final transaction is compared with an independent model.",["coordinator, framing, timers and durable storage are simulator code","power is lost between library calls here (inside them in C09)","keys are compressed"])
c("C19","One seed picks a history of adding inputs and outputs, editing fields, copying, sending and receiving, and signing inputs of eight script kinds in any order, with RNG faults. Non-trivial: an edit, copy or transfer, or signing out of order.",
  T+"seeded building and signing histories against a model transaction, independent sighash/ECDSA oracle","Samples histories; after every step the transaction is compared with its model, every signature verified against the model's signature hash at that moment, and the finished transaction decoded and verified independently.",["SIGHASH_ALL; single-key scripts; P2SH redeem scripts up to 520 bytes"])
NA=[("N01","Pure functions of their input: no schedule, clock, fault, allocation retry or history is involved, so simulation would only be input generation under another name."),
    ("N02","Child derivation is a pure function of key and index; its dependence on the RNG (blinding) is covered by C07, on tasks by C06, but its algebra has no schedule or fault in it."),
    ("N03","Field and group laws are pure input-output facts without schedule or fault; only their RNG blinding is nondeterministic, which C07 covers."),
    ("N04","Checksums and templates are pure functions of their text input, with no schedule, fault or history.")]
meta=dict(real=["all of /repo/src compiled unmodified from the working tree (C++ API, script/transaction/PSBT/Electrum parsers and serializers, HD wallet, trezor-crypto, text codecs)"],
 stub=["host peer and byte links (ParseStream/SerializeStream subclasses)","random number generator (random32)","heap allocator front end (fails on demand, tracks, fills)","task scheduler (ucontext fibers)","power supply (process image dropped)","network, coordinator, timers and durable storage of the multisig quorum"],
 assumptions=["single core: tasks interleave at basic-block granularity, no weak-memory effects","64-bit little-endian host build with USE_STDONLY stands for the device build","the reference model in /verif/sim/ref.cpp is right (self-tested against published vectors on every run)","uninitialised memory is modelled by two builds (pattern and zero filled)"],
 checks=C)
json.dump(meta,open(H+"/sim/meta.json","w"),indent=1)
import sys
done=[l.strip() for l in open(H+"/sim/claimed.txt") if l.strip()]
M=dict(version=1,setup_cmd="python3 run.py build",
 checks=[dict(property=k,quick_cmd="python3 run.py check %s --tier quick"%k,thorough_cmd="python3 run.py check %s --tier thorough"%k,evidence_file="evidence/%s.json"%k,technique=C[k]["technique"],level="exploration",level_note=C[k]["level_note"]) for k in C if k in done],
 not_applicable=[dict(property=k,reason=r) for k,r in NA]+[dict(property=k,reason="not built yet") for k in C if k not in done],
 notes="No hooks in /repo are needed: the library's own seams, link-time wrapping and compiler edge instrumentation are enough. Known and fixed defects: known-findings.txt.")
json.dump(M,open(H+"/MANIFEST.json","w"),indent=1)
