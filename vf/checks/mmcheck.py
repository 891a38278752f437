"""Checks over weak-memory programs."""
from . import opcheck
from .. import check, spec, pool, ops, litmus, sym, core
import os
HEAVY = ('i686', 'i686-debug')
BOUNDS = ['programs of 2 to 4 threads with at most 4 operations (listed under programs); every path of every operation with a retry loop visited at most 2 times (fetch_update: 1)',
          'locks are taken at the first attempt (a failed attempt leaves the lock word unchanged and only adds ordering)', 'all values, the initial contents, the initial version of the lock and the CPU are symbolic']
ASSUME = ['compiled Rust atomics are judged by the C++20/RC11 model without the no-load-buffering axiom (dependencies are respected)', 'inline assembly is judged by axiomatic x86-TSO and Armv8 (dependencies ignored); plain compiler-generated atomics next to it by their standard mapping',
          'the compiler does not move atomic accesses across inline assembly (C15)']
def run(prop, tier, names, work, select, explanation, which=('int', 'bool', 'ptr', 'float')):
    ck = check.Check(prop, tier)
    def tasks(t, tys):
        l = []
        for ty in tys:
            for op, (b, kind, _) in spec.ops_for(ty).items():
                if kind == 'none' or not t.has(ty, op): continue
                d = select(t.cfg, ty, op, kind, tier)
                if d: l.append((ty, op, d))
        l.sort(key=lambda a: (-(a[0].w > 64), -(a[2] == 'full'), -a[0].w))
        return l
    def tys_of(cfg):
        l = check.types(cfg, which=which)
        return [ty for ty in l if any(select(cfg, ty, op, kind, tier) for op, (b, kind, _) in spec.ops_for(ty).items() if kind != 'none')]
    return opcheck.drive(ck, names, tasks, work, explanation, which, bounds=BOUNDS, assume=ASSUME, tys_of=tys_of)
