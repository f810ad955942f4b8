SESS=T+'signing sessions of several parties over a simulated lossy network (drop, duplicate, reorder, delay, stale replay, damage) and simulated disks with crashes, torn and lost writes, failing and conflicting signers, and a lost standard output'
CLAIMED.update({
 'C01': (SESS, 'Seeded search; final bytes of every party against an independent model of the agreed transaction, and bounded liveness after faults stop. Messages are authenticated by the application (a damaged signature is noticed by verifying it), as the library itself has no transport.'),
 'C02': (SESS, 'Seeded search; after every event, all preimages of every live session compared with an independent BIP143/FORKID model.'),
 'C03': (SESS, 'Seeded search; snapshots around every signing attempt by every entry point, exports compared with the signatures made.'),
 'C04': (SESS, 'Seeded search; outputs, estimates, shortfalls compared with an independent fee model, rebuilt by other parties with other hash seeds. Value accounting is that of build(); build_without_estimation() does none by design.'),
})
CLAIMED['C15'] = (T+'parties with different signature back ends exchange keys, digests and signatures over a channel that damages, re-encodes, malleates and mixes them up', 'Seeded search; every verdict, signature and key of both back ends compared with an independent curve, RFC 6979 and DER implementation.')
CLAIMED['C14'] = (T+'real threads of one process, one running at a time, preempted by a seeded scheduler at the library\'s control-flow edges and allocations with simulated futexes; failing signers, damaged imports, sessions handed between threads', 'Seeded search; every session\'s record compared act by act with the record the same session leaves in a process of its own. Switches happen inside the crates under test, not inside C code or other dependencies, and memory is sequentially consistent (weak-memory effects of unsafe code are out of reach).')
EXPL = ' The expansion is judged as the compiler lists it after macro expansion, before type checking; files outside the temporary directory do not fail.'
CLAIMED['C12'] = (T+'the script macro inside a real compiler whose file calls under the temporary directory, process starts and waits, randomness and clock are simulated (failed, short, torn, lost and flipped I/O; a formatter that is missing, fails, is killed, or damages, moves or floods its output)', 'Seeded search; every script expanded once in a healthy and once in a faulty environment, code compared without the recorded source text, and what is left in the temporary directory.'+EXPL)
CLAIMED['C13'] = (T+'the script macro inside real compilers with different simulated hash seeds, temporary names, clocks, variables, leftovers of other processes, subsets of the crate and another compiler running at any file call in the same temporary directory', 'Seeded search; all expansions and compile errors of a script compared token by token.'+EXPL)

CHAIN=T+'wallets that use the library, a node with an independent validator, a chain with a clock, and a token indexer, over a network that loses, duplicates and reorders, with wallet crashes, node restarts, double spends, thefts and reorganisations'
CLAIMED.update({
 'C16': (CHAIN, 'Seeded search; every transaction judged twice, by what its makers were entitled to and by a reference validator over its bytes; wallets and money compared with the chain after faults stop. Contracts are six written with the script macro plus pay-to-key and n-of-m; the reference validator follows the 2020 rules for the operations they use.'),
 'C22': (CHAIN, 'Seeded search; balances by a reference indexer over wire bytes compared with what issuers and senders intended, and every message as its receiver reads it. MINT messages are not built by the library.'),
 'C25': (CHAIN, 'Seeded search; acceptance by height and median time past compared with the agreed delay, in particular one block or second too early and just in time.'),
})
