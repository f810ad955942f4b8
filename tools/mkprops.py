#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe or [], hook_needed=None)))
TB='bitcoin-cash/src/tx_builder.rs'; TX='bitcoin-cash/src/tx.rs'; PI='bitcoin-cash/src/tx_preimage.rs'
SC='bitcoin-cash/src/script.rs'; BC='bitcoin-cash/src/bitcoin_code.rs'; SJ='bitcoin-cash/src/serialize_json.rs'
AD='bitcoin-cash/src/address.rs'; BA='bitcoin-cash-base/src/byte_array.rs'; EU='bitcoin-cash-base/src/encoding_utils.rs'
HA='bitcoin-cash/src/hash.rs'; PK='bitcoin-cash/src/pubkey.rs'; DE='bitcoin-cash/src/destination.rs'
M='bitcoin-cash-script-macro/src/'
NOTEST = 'No test in the repository builds, signs, exports or imports a transaction through the builder. '

p('C01','Collaborative signing converges on one transaction',
 'When several parties sign one transaction by passing partially signed copies or bare signatures to each other, every party that finishes holds byte for byte the same completed transaction, and it is the one the agreed inputs, outputs and signers determine. This holds however messages are dropped, duplicated, reordered, delayed, replayed stale or damaged, in whatever order inputs are signed, and wherever a party crashes and resumes from what it last exported. Once faults stop and every signer has had its turn, the session finishes.',
 ['schedules','crash_points','fault_sequences','configurations'],
 'every signing order, message schedule, fault sequence and crash point, over every mix of input kinds, hash types, parties and export formats',
 NOTEST+'Whether a session converges depends on the order of signing, merging, exporting and restarting, which no finite set of examples fixes.',
 [TB,TX,SJ,'bitcoin-cash/src/scripts.rs'],
 [('TxBuilder::from_tx resumes a partially signed transaction',TB),('UnsignedTx::sign_input / sign_input_signatory / sign_input_dyn',TB),('UnsignedTx::partial_tx / complete_tx',TB)],
 [('UnsignedTx.inputs','which inputs already carry a final script',TB),('TxInput metadata','locking script, value, p2sh flag and hash types kept with an unsigned input',TX)],
 ['serialised completed transaction and its id at every party'])
p('C02','Every party signs the same, correct digest at every moment',
 'At every point of a signing session, before and after other inputs are signed and after any export, crash and import, the preimage a party is given for an input is exactly the Bitcoin Cash signature-hash preimage (BIP143 layout with the fork id) of the agreed transaction for each of the hash types of that input. The same holds for the preimages computed directly from a stored transaction. An input\'s own or another input\'s script never influences it, and neither does which party computes it.',
 ['histories','schedules','crash_points','configurations'],
 'every session state reachable by building, signing in any order, exporting, crashing and importing; every combination of hash-type flags, input and output count, locking script and metadata',
 'No test computes a preimage at all; a wrong flag, a stale cached part or metadata lost across an export shows only for some flag combination, position or history.',
 [PI,TB,TX,SC],
 [('TxPreimage::build_preimages',PI),('Script::to_script_code_first',SC),('ToPreimages for builder and stored transaction',TB+', '+TX)],
 [('tx_preimages','preimages fixed when the transaction is built',TB)],
 ['UnsignedTx::preimages','UnsignedTx::input_preimages','UnhashedTx::preimages'])
p('C03','A signed input is final; refused or failed signing changes nothing',
 'Once an input is signed its script never changes, and a duplicate, late or conflicting attempt to sign it, by any entry point, is refused with the already-signed error and leaves the session as it was. If a signer fails half way, the input stays unsigned, nothing else changes, and signing can be retried. A partial export carries every signature made so far, and a session can be completed exactly when every input is signed.',
 ['schedules','fault_sequences','histories'],
 'every interleaving of signing attempts over all entry points, duplicates, conflicting signers, signer failures, exports and resumes',
 NOTEST+'The guarantee is about repeated and failed attempts at arbitrary points of a history.',
 [TB],
 [('already-signed guard in each signing entry point',TB),('non-empty script means signed when resuming',TB)],
 [('UnsignedTx.inputs','final scripts',TB)],
 ['result of each signing call','partial_tx','complete_tx'])
p('C04','Value is conserved and the change is fixed before signing',
 'A transaction built with value accounting (`build`) never spends more than its inputs hold; known outputs keep their amounts, order and scripts; leftover outputs appear only strictly above their lower bound and at or below their upper bound, are served in precedence order, and pay the fee rate for the estimated size. The amounts do not depend on which signatures arrive, when or from whom, or on the process that builds; the completed size does not exceed the estimate for signatures no longer than their placeholders. Asking for more than the inputs hold is refused with the missing amount.',
 ['inputs','schedules','configurations','histories'],
 'every combination of inputs, known and leftover outputs, bounds, precedences and fee rates, every signing schedule, and every process hash seed',
 NOTEST+'Fee and leftover arithmetic is exercised by no test.',
 [TB],
 [('TxBuilder::build leftover loop',TB),('estimate_size with placeholder signatures',TB)],
 [('leftover_amounts','amount per leftover output, keyed by index in a hash map',TB)],
 ['outputs of partial_tx and complete_tx','estimated_size'])
p('C05','A transaction survives storage and relay in wire form unchanged',
 'Encoding a transaction to its consensus wire form and decoding it after a crash or at another node gives the same transaction: re-encoding yields the same bytes, and its id is the double SHA-256 of those bytes. The same holds for every part of it (inputs, outputs, outpoints, scripts, lists, integers, hashes), for parts read one after the other from one buffer, for wire bytes first produced by somebody else whose lengths are canonical and whose scripts are well-formed, and for a transaction object that carries its own id. No number of store, crash and relay hops changes the bytes.',
 ['inputs','crash_points','histories'],
 'every transaction the library can represent, every wire encoding with canonical lengths and well-formed scripts, and every chain of store, relay and restart hops',
 'One test round-trips one fixed transaction with byte-vector scripts, none round-trips scripts; boundary lengths, every push encoding and the id-carrying object are untested.',
 [BC,SC,TX,'bitcoin-cash-code/src/lib.rs',EU,'bitcoin-cash/src/serializer.rs'],
 [('BitcoinCode implementations and derive',BC+', bitcoin-cash-code/src/lib.rs'),('serialize_ops / deserialize_ops_byte_array',SC),('is_minimal flag on pushes',SC)],
 None,['ser / deser bytes','hashed().hash()'])
p('C06','A rich JSON export restores the session exactly',
 'A transaction exported to the library\'s JSON form and imported after a crash or by another party is the same transaction: same wire bytes and id, and the same metadata (value, locking script, p2sh flag, hash types), operation annotations (source position and text, names) and byte-array provenance (names, functions, preimages). Exporting the import again yields the same text. The text depends only on the transaction, not on the process that wrote it.',
 ['inputs','crash_points','histories','configurations'],
 'every transaction at every stage of signing, with any metadata and provenance up to 1000 preimage levels deep, any number of export, crash and import hops, and every process hash seed',
 'The JSON module has no tests at all.',
 [SJ,'bitcoin-cash/src/tagged_op.rs',BA],
 [('JsonData interning of byte arrays, data and strings',SJ)],
 [('string_indices, data_indices','hash maps used for interning',SJ)],
 ['tx_to_json','json_to_tx'])
p('C07','Serde exports restore every stored type exactly',
 'Every storable type of the library (transactions, inputs, outputs, scripts, hashes, public keys, addresses, unspent outputs, hash types and token records) written through a human-readable or a binary serializer and read back after a crash by another process equals the original, with all signing metadata, and re-exporting gives the same bytes. Human-readable hashes use the reversed-hex convention users know from explorers.',
 ['inputs','crash_points','configurations'],
 'every value of the serialisable types, both serializer families, and any number of write, crash and read hops',
 'No test serialises any of these types through serde.',
 [TX,SC,HA,PK,AD,BA,'bitcoin-cash-slp/src/lib.rs',TB],
 [('Serialize and Deserialize implementations with is_human_readable branches',', '.join([SC,PK,AD,BA]))],
 None,['serde_json and bincode bytes'])
p('C08','Damaged wire data is contained',
 'Whatever a crash, a torn write, a bad disk or a hostile peer does to wire bytes, decoding them and inspecting the result (classifying scripts and spends, reading integers, printing, computing ids) either succeeds or returns an error: it never panics, aborts, hangs, or uses memory out of proportion to the input. A strict prefix of an encoding is never accepted as a whole, nor is an encoding with bytes left over, and data damaged in place never decodes to the original transaction. What is accepted means exactly what the bytes say.',
 ['fault_sequences','inputs','crash_points'],
 'every truncation point, torn or lost sector, bit flip, splice, duplicated or hostile length field in any encoding of any transaction',
 'Tests decode well-formed data only; the guarantee quantifies over all damage.',
 [BC,SC,DE,BA,EU,'bitcoin-cash-base/src/op.rs'],
 [('bounds check in ByteArray::split',BA),('length handling in Vec and script decoding',BC+', '+SC),('script_destination, script_p2pkh_spend',DE)],
 None,['result of deser, script_destination, script_p2pkh_spend','allocation during decoding'])
p('C09','Damaged JSON and serde imports are contained',
 'Whatever damage or hostile edit is done to a stored or received JSON or serde export, importing it either succeeds or returns an error: it never panics, aborts, hangs, exhausts the stack, or uses memory out of proportion to the input. A truncated export is never accepted. What is accepted is a transaction that says exactly what the imported text says.',
 ['fault_sequences','inputs','crash_points'],
 'every truncation, torn write, bit flip, structural edit, dangling, out-of-range, shared or cyclic reference in any export',
 'No test imports any JSON or serde export, intact or damaged.',
 [SJ,BA,HA,PK,AD,SC],
 [('index lookups in JsonData',SJ),('length checks in Deserialize implementations',BA+', '+PK)],
 None,['json_to_tx, serde_json::from_str, bincode::deserialize results'])
p('C10','A damaged address is never paid to',
 'An address string that was corrupted, truncated, extended, spliced, re-cased or re-prefixed on its way either is refused with an error or still names exactly the destination it was made for. Parsing never panics, only addresses with a 160-bit hash of a known type are accepted, and an intact address always parses back to its prefix, type and hash, also through serialisation and prefix conversion.',
 ['fault_sequences','inputs'],
 'every destination, every prefix without colons or upper-case letters, and every sequence of damage applied to the string, including crafted strings with a valid checksum',
 'Tests check a handful of valid addresses and single bad checksums, not arbitrary damage.',
 [AD],
 [('cashaddr checksum and payload decoding',AD)],None,['Address::from_cash_addr','Deserialize for Address'])
p('C11','Variable-length integers cross unreliable streams intact',
 'Writing a variable-length integer to a stream and reading it back gives the same number however reads and writes are split, interrupted or retried by the stream. A reader consumes exactly the bytes of the number and never beyond; end of stream or an I/O error at any point surfaces as an error with the stream\'s own kind, never as a number. A failing writer has received only a prefix of the encoding and reports the failure.',
 ['schedules','fault_sequences','inputs'],
 'every number and every schedule of short reads, short writes, interruptions, end of stream and errors at every byte position',
 'Tests use in-memory buffers only, which never split, interrupt or fail.',
 [EU,BC],
 [('read_var_int / write_var_int over io::Read and io::Write',EU)],None,['stream position, returned value or error'])
p('C12','Script expansion survives a failing build environment',
 'When the formatter the script macro runs is missing, slow to appear, fails, is killed, or damages its output, or when the temporary directory is full, read-only or failing, compiling a script either reports a normal compile error or yields the same operations, pushed data, names and interface as in a healthy environment; only the recorded source text may differ. The macro never panics, the compiler never crashes, and no temporary files are left behind when they can be removed.',
 ['fault_sequences','configurations'],
 'every sequence of failures of the formatter process and of file-system calls at every step of an expansion',
 'The tests run with one healthy formatter and a healthy disk.',
 [M+'gen_source.rs',M+'generate.rs',M+'lib.rs'],
 [('format_stmts / format_token_stream',M+'gen_source.rs'),('temporary directory removed on drop',M+'gen_source.rs')],
 None,['macro expansion output','temporary directory'])
p('C13','Script expansion is reproducible',
 'Expanding the same script gives the same code, or the same compile error, in every process: it does not depend on the process\'s hash seed, temporary paths, random numbers or on what else was expanded before.',
 ['configurations','schedules','programs'],
 'every script, in particular with several input variants, every hash seed, random stream and expansion order',
 'Tests expand each script once per build; the per-process hash seed differs only between builds and is never compared.',
 [M+'state.rs',M+'generate.rs'],
 [('per-variant stack states',M+'state.rs')],
 [('VariantStates.states','stack model per input variant',M+'state.rs')],['macro expansion output'])
p('C14','Concurrent sessions do not affect each other',
 'Builders, signing sessions, imports, exports and signatures running interleaved on several threads of one process give each session exactly the result it gives when run alone, also when they share scripts, byte arrays, transactions and the curve object. No interleaving makes an operation fail, block for ever, or return another session\'s data.',
 ['schedules','histories'],
 'every interleaving of operations of concurrent sessions in one process',
 'The tests run single operations; no test shares state between threads.',
 [TB,SJ,BA,'bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs'],
 [('immutable Arc-shared data; Sync + Send signatories',TB+', '+BA)],None,['per-session outputs'])
p('C15','Signature back ends are interchangeable between parties',
 'Parties of one session may use different elliptic-curve back ends: for the same key and digest they derive the same public key and produce the same signature, and each accepts, rejects or normalises what the other produced in the same way. For signatures, keys or digests damaged on the way, no back end panics, none reports a damaged signature as valid, and both give the same verdict. A signature is canonical (low-S, strict DER) and its recorded provenance names the digest signed.',
 ['configurations','fault_sequences','inputs'],
 'every assignment of back ends to parties, every key and digest, and every damage to a signature, key or digest in transit',
 'The back-end crate has no tests.',
 ['bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs','bitcoin-cash/src/ecc.rs'],
 [('ECC trait implementations',', '.join(['bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs']))],None,['sign, verify, derive_pubkey, normalize_sig results'])
# not applicable to this family: pure functions
pure='one finite set of examples cannot fix a function over all inputs'
p('C20','Script integer arithmetic matches the Bitcoin Cash VM',
 'Script integers stay in the 32-bit symmetric range, arithmetic on them reports overflow and division errors instead of wrapping, and they encode to and decode from the VM\'s minimal byte form.',
 ['inputs'],'every pair of integers and every byte string','Unit tests sample values; '+pure+'.',
 ['bitcoin-cash-base/src/integer.rs',EU],[('Integer, IntegerResult, encode_int, vec_to_int','bitcoin-cash-base/src/integer.rs, '+EU)])
p('C21','Digests equal the standard hash functions and print reversed',
 'Each digest type equals the standard function (SHA-1, RIPEMD-160, SHA-256 and their compositions) of its input and its little- and big-endian hex forms are mutually inverse.',
 ['inputs'],'every message','Unit tests sample values; '+pure+'.',[HA],[('Hashed implementations',HA)])
p('C22','Token messages follow the SLP layout',
 'Genesis and send outputs carry the operations the Simple Ledger Protocol prescribes for their parameters and amounts.',
 ['inputs'],'every parameter set','No tests; '+pure+'.',['bitcoin-cash-slp/src/lib.rs'],[('slp_genesis_output, slp_send_output','bitcoin-cash-slp/src/lib.rs')])
p('C23','The script macro tracks the stack faithfully',
 'A script is accepted only if its named stack items, branches and alt-stack uses are consistent with what each opcode does, and the emitted operations are the ones written.',
 ['programs'],'every script program','Tests sample scripts; the guarantee is over all programs.',
 [M+'generate.rs',M+'state.rs',M+'parse.rs','bitcoin-cash-base/src/opcode.rs'],[('GenerateScript, VariantStates, opcode behaviour table',M+'generate.rs')])
p('C24','Byte-array provenance agrees with the bytes',
 'After any sequence of concatenations, splits and function applications, a byte array\'s recorded preimage composes to exactly its bytes, and data functions (split, concat, reverse, number conversion) do what the VM does.',
 ['inputs','programs'],'every sequence of byte-array operations','Unit tests sample short sequences; '+pure+'.',
 [BA,'bitcoin-cash-base/src/opcode.rs'],[('concat_named_option, split, apply_function',BA)])
p('C25','Relative lock times encode as consensus expects',
 'A block or time delay converts to the sequence number whose type flag and value the consensus rules read back as that delay.',
 ['inputs'],'every 16-bit delay of both kinds','No tests; '+pure+'.',['bitcoin-cash/src/sequence.rs'],[('CsvTimedelta::sequence','bitcoin-cash/src/sequence.rs')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80, x['id']
        f.write(json.dumps(x)+'\n')
