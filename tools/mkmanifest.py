#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T='deterministic simulation with fault injection: '
CLAIMED = {
 'C11': (T+'simulated unreliable reader/writer deciding every split, interruption, error and end of stream',
         'Seeded search over stream behaviours and values against a reference encoder; trusts the reference encoder and Rust\'s std io traits. Not exhaustive.'),
}
STORE=T+'transactions and stored objects travel through chains of nodes with own hash seeds, over a simulated disk with crashes, torn and lost writes'
CLAIMED.update({
 'C05': (STORE, 'Seeded search; every image is compared with an independent wire encoder and decoder. Scripts the library cannot represent (truncated pushes) are outside the property.'),
 'C06': (STORE, 'Seeded search; deep snapshots before and after, byte-identical re-export, export compared between hash seeds.'),
 'C07': (STORE, 'Seeded search over all serialisable types in six serde formats (JSON, bincode, CBOR, from buffers and readers).'),
})
CLAIMED.update({
 'C08': (T+'wire images and scripts stored and relayed through damage (torn, lost, flipped, spliced, hostile lengths), decoded and inspected in a watched process', 'Seeded search; verdicts against an independent decoder, memory metered by the allocator, panics, aborts and hangs observed from outside.'),
 'C09': (T+'JSON and serde exports stored and relayed through byte damage and hostile structural edits, imported in a watched process', 'Seeded search; accepted imports compared with an independent reader; documents with properties the format does not define (duplicate keys, unknown fields) are only checked for containment.'),
 'C10': (T+'addresses sent through noisy channels and damaged storage against a reference cash address decoder', 'Seeded search, including crafted strings with a valid checksum.'),
})
exec(open('/verif/tools/claims.py').read()) if __import__('os').path.exists('/verif/tools/claims.py') else None
NA = {
 'C20':'Pure integer functions: no schedule, time, I/O or second party for the property to depend on.',
 'C21':'Pure digest functions of one input: nothing for a simulator to schedule or fail.',
 'C23':'A pure, single-process compile-time analysis of the token stream; the environment-dependent parts of the macro are C12 and C13.',
 'C24':'Pure byte-array functions; their sharing between threads is covered by C14 and their storage by C06.',
}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd='bash setup.sh',
 hooks=dict(guard='none: no change to /repo is needed; the simulator interposes libc entry points in its own binary and instruments the crates through its RUSTC_WRAPPER (tools/rustc-wrapper.sh)',
            enable='source tools/env.sh; check.sh builds /verif/dst with path dependencies on /repo',source_commits=[]),
 checks=[dict(property=k,quick_cmd='bash check.sh '+k,thorough_cmd='VERIF_TIER=thorough bash check.sh '+k,
   technique=v[0],level='exploration',level_note=v[1]) for k,v in sorted(CLAIMED.items())],
 not_applicable=[dict(property=p,reason=NA.get(p,"No check built yet.")) for p in props if p not in CLAIMED])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
