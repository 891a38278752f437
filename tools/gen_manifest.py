#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
SE = 'symbolic execution of the compiled LLVM IR and inline assembly of the real crate, z3 verdict per path'
MM = 'symbolic execution of the compiled LLVM IR and inline assembly yields the events of every operation; an axiomatic memory model (RC11, x86-TSO, Armv8) over the events of small programs is encoded in SMT and solved for a bad execution'
NOTE = ' Trusted: rustc front end and LLVM code generation below the analysed IR, instruction semantics in vf/asm_*.py, z3. Bounds are listed in the evidence file.'
C = {
 'C01': (SE, 'other', 'Result and final contents equal the documented function for all values, arguments and orderings, sequentially, per type/operation/configuration (loops unrolled up to 3 visits).'),
 'C02': (SE + '; every shared read returns an arbitrary value', 'other', 'Every returning path (within 3 visits per loop) takes effect at one full-width atomic access, for arbitrary interference.'),
 'C03': (MM, 'other', 'Small concurrent programs of the lock-based operations: every weak-memory execution is explained by interleaving whole operations, without data races; locks are always released to a fresh state.'),
 'C04': (MM, 'other', 'Message-passing programs around every operation as publisher and observer, with release sequences and fences.'),
 'C05': (MM, 'other', 'Store buffering, message passing, S, R, 2+2W, IRIW, WRC and fence programs with every sequentially consistent operation.'),
 'C06': (SE + '; orderings symbolic over all 5 (25 pairs)', 'other', 'Panics exactly for the documented ordering arguments, before any access to the object or a lock, for all values.'),
 'C07': (SE, 'other', 'Views, construction, layout and the bytes touched by every operation, for all values and object offsets, sequentially and under interference.'),
 'C08': (SE + '; CPU answers of each thread symbolic, detection results arbitrary write-once words', 'other', 'Mechanism chosen per operation for all detection results; is_lock_free agreement; feature-dependent instructions guarded.'),
 'C09': (SE + '; cpuid, auxiliary vector, sysctl, hwprobe answers symbolic', 'other', 'Detection results and selections as functions of arbitrary hardware and operating-system answers, for the supported operating systems.'),
 'C10': (SE + ' with the SMT theory of floating point', 'other', 'Bit-exact storage and IEEE results for all bit patterns.'),
 'C11': (SE, 'other', 'Bit operations for all indices, values, orderings, sequentially and under arbitrary interference.'),
 'C12': (SE + '; closure answers and interference arbitrary', 'other', 'fetch_update under every closure and interference, up to the retry bound.'),
 'C13': (SE, 'other', 'Boolean operations preserve the 0/1 invariant (inductive step) and compute the documented truth functions, also under interference.'),
 'C14': (SE, 'other', 'Pointer arithmetic for all addresses, counts and several element sizes.'),
 'C17': (SE + '; lock words symbolic', 'other', 'Every operation from every unlocked lock state returns within the visit bound, with its lock released; the next operation proceeds.'),
 'C19': (SE + '; serializer, deserializer and formatter behaviour symbolic', 'other', 'Same calls and results as for the plain value, for all values; one atomic load under interference.'),
}
NA = {}
exec(open(os.path.join(R, 'tools', 'manifest_extra.py')).read()) if os.path.exists(os.path.join(R, 'tools', 'manifest_extra.py')) else None
checks = []
for p in props:
    i = p['id']
    if i in C:
        t, l, n = C[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt -m vf.run %s' % i, 'thorough_cmd': 'python3-vt -m vf.run %s --tier thorough' % i, 'technique': t, 'level': l, 'level_note': n + NOTE})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')} for p in props if p['id'] not in C]
m = {'version': 1, 'setup_cmd': 'python3-vt -m vf.setup', 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo are needed: private items are reached through the public API', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
