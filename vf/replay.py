"""Replaying counterexamples of sequential runs against the real code (compiled from the same working tree)."""
import os, subprocess, json, re
from . import build, configs, spec, sym, core
from .sym import *

RUNNER = {'x86_64-unknown-linux-gnu': (None, []), 'i686-unknown-linux-gnu': ('i686-linux-gnu-gcc', ['qemu-i386', '-L', '/usr/i686-linux-gnu']),
          'aarch64-unknown-linux-gnu': ('aarch64-linux-gnu-gcc', ['qemu-aarch64', '-L', '/usr/aarch64-linux-gnu'])}

def runner_for(cfg, model):
    """emulator options that make the CPU facts of the counterexample true; None if that is not possible"""
    link, run = RUNNER[cfg.target]
    cpu = model.get('cpu') or {}
    if cfg.arch == 'x86_64' and cpu:
        cx = int(cpu.get('cpuid_1_0_cx', '0'))
        opts = ['-cx16' if not cx >> 13 & 1 else '+cx16']
        # the emulator's user mode always enables the OS support bits
        xcr = int(cpu.get('xcr0_0', '0'))
        avx = cx >> 28 & 1 and cx >> 27 & 1 and cx >> 26 & 1 and xcr & 6 == 6
        opts.append('+avx' if avx else '-avx')
        return link, ['qemu-x86_64', '-cpu', 'max,' + ','.join(opts)]
    if cfg.arch == 'aarch64' and cpu:
        h = int(cpu.get('auxv_16', '0'))
        lse, lse2 = h >> 8 & 1, h >> 25 & 1
        m = 'max' if lse2 else 'neoverse-n1' if lse else 'cortex-a53'
        return link, ['qemu-aarch64', '-cpu', m, '-L', '/usr/aarch64-linux-gnu']
    return link, run

def build_bin(cfg, ty, op, tag):
    src = spec.harness([ty], [op], features=cfg.extra.get('hfeat', ()))
    src = src.replace('#![no_std]', '').replace('extern "C" { fn vf_closure(old: *const u8, new: *mut u8) -> u8; }', '')
    n = ty.bytes
    src += '''
static mut MEM: (*const u8, usize) = (core::ptr::null(), 0);
static mut CALLS: usize = 0;
static mut ANS: Vec<Option<Vec<u8>>> = Vec::new();
#[no_mangle] pub unsafe extern "C" fn vf_closure(old: *const u8, new: *mut u8) -> u8 {
    let k = CALLS; CALLS += 1; let a = &*core::ptr::addr_of!(ANS);
    let s = core::slice::from_raw_parts(old, %(n)d); println!("call {}", hex(s));
    match a.get(k) { Some(Some(v)) => { core::ptr::copy_nonoverlapping(v.as_ptr(), new, %(n)d); 1 } _ => 0 } }
fn hex(s: &[u8]) -> String { s.iter().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
#[repr(align(64))] struct Buf([u8; 192]);
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut buf = Buf([0xa5; 192]); let mut x = Buf([0; 192]); let mut y = Buf([0; 192]); let mut out = Buf([0; 192]);
    let off: usize = a[1].parse().unwrap();
    buf.0[off..off + %(n)d].copy_from_slice(&unhex(&a[2])); x.0[..%(n)d].copy_from_slice(&unhex(&a[3])); y.0[..%(n)d].copy_from_slice(&unhex(&a[4]));
    for s in &a[8..] { unsafe { (*core::ptr::addr_of_mut!(ANS)).push(if s == "none" { None } else { Some(unhex(s)) }); } }
    unsafe { MEM = (buf.0.as_ptr().add(off), %(n)d); }
    std::panic::set_hook(Box::new(|i| unsafe { println!("panic {}", i.location().map(|l| l.line()).unwrap_or(0)); println!("mem {}", hex(core::slice::from_raw_parts(MEM.0, MEM.1))); use std::io::Write; std::io::stdout().flush().unwrap(); std::process::exit(86) }));
    let f = unsafe { %(mod)s::vf__%(ty)s__%(op)s(buf.0.as_mut_ptr().add(off) as *const _, x.0.as_ptr() as *const _, y.0.as_ptr() as *const _, out.0.as_mut_ptr() as *mut _, a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap()) };
    println!("flag {}", f); println!("out {}", hex(&out.0[..%(n)d])); println!("mem {}", hex(&buf.0[off..off + %(n)d]));
    println!("rest {}", buf.0.iter().enumerate().all(|(i, b)| i >= off && i < off + %(n)d || *b == 0xa5));
}
''' % {'n': n, 'mod': 'm_' + ty.name.lower(), 'ty': ty.name, 'op': op}
    d = os.path.join(build.scratch(), 'replay-%s-%s-%s' % (cfg.name, ty.name, op)); os.makedirs(d, exist_ok=True)
    link, _ = RUNNER[cfg.target]
    cfgs, _m = build.build_cfgs(cfg)
    flags = list(cfg.flags) + (['-C', 'linker=' + link] if link else [])
    common = ['rustc', '+' + cfg.tc, '--target', cfg.target, '-C', 'opt-level=3', '-C', 'panic=abort', '-C', 'codegen-units=1', '--cap-lints', 'allow', '--out-dir', d] + flags
    env = {'RUSTC_BOOTSTRAP': '1'} if cfg.tc == 'nightly' else {}
    c = common + ['--crate-type', 'lib', '--edition', '2018', '--crate-name', 'portable_atomic', os.path.join(build.REPO, 'src/lib.rs')]
    for f in cfg.features: c += ['--cfg', 'feature="%s"' % f]
    for k in cfgs + cfg.cfgs: c += ['--cfg', k]
    build.run(c, env=env)
    h = os.path.join(d, 'bin.rs'); open(h, 'w').write(src)
    build.run(common + ['--crate-type', 'bin', '--edition', '2021', '--crate-name', 'replay', h, '--extern', 'portable_atomic=' + os.path.join(d, 'libportable_atomic.rlib')], env=env)
    return os.path.join(d, 'replay')

def hexle(v, n): return (v & M(8 * n)).to_bytes(n, 'little').hex()

def replay(v):
    """-> (True reproduced | False not reproduced | None not applicable, text)"""
    m = v.get('model')
    cfg = configs.ALL.get(v['cfg']) if 'cfg' in v else None
    if m is None or cfg is None or cfg.target not in RUNNER or v.get('kind') not in ('seq', 'interference'): return None, 'no native replay for this kind of counterexample'
    if v['kind'] == 'interference' or v['mode'] == 'interference':
        from . import inject
        return inject.replay(v)
    ty = next((t for t in spec.types(32 if cfg.arch == 'x86' else 64, cfg.extra.get('f16'), cfg.extra.get('f16')) if t.name == v['ty']), None)
    if ty is None: return None, 'type has no native replay'
    n = ty.bytes; op = v['op']
    b = build_bin(cfg, ty, op, 'r')
    _, run = runner_for(cfg, m)
    ans = ['none' if t[6] is None else hexle(t[6], n) for t in m.get('trace', []) if t[0] == 'CALL']
    g = lambda k: m.get(k) or 0
    cmd = run + [b, '64', hexle(g('old'), n), hexle(g('x'), n), hexle(g('y'), n), str(g('ord')), str(g('ord2')), str(g('b'))] + ans
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20)
    except subprocess.TimeoutExpired: return True, '%s\ndoes not finish' % ' '.join(cmd)
    text = ' '.join(cmd[:-7 - len(ans) - 1] + cmd[-7 - len(ans):]) + '\n' + p.stdout + p.stderr[-600:]
    if v['mode'] == 'orders':
        from .ops import ord_valid
        okord = ord_valid(spec.ops_for(ty)[op][1], g('ord'), g('ord2')); okord = okord is True or (isz(okord) and z3.is_true(z3.simplify(okord)))
        pan = p.returncode == 86
        mem = next((int.from_bytes(bytes.fromhex(l[4:]), 'little') for l in p.stdout.split('\n') if l.startswith('mem ')), None)
        bad = pan == okord or p.returncode not in (0, 86) or (pan and mem != g('old'))
        return (True if bad else None), text
    if p.returncode != 0: return True, text + 'exit status %d' % p.returncode
    d = dict(l.split(' ', 1) for l in p.stdout.strip().split('\n') if ' ' in l)
    val = lambda s: int.from_bytes(bytes.fromhex(s), 'little')
    if d.get('rest') != 'true': return True, text + 'bytes outside of the object changed'
    flag, out, mem = int(d['flag']), val(d['out']), val(d['mem'])
    if op == 'fetch_update':
        calls = [val(l[5:]) for l in p.stdout.split('\n') if l.startswith('call ')]
        k = len(calls) - 1
        a = ans[k] if 0 <= k < len(ans) else 'none'
        ok = all(c == g('old') for c in calls) and out == g('old') and calls and ((flag == 1 and a != 'none' and mem == val(a)) or (flag == 0 and a == 'none' and mem == g('old')))
    else:
        f = simp(spec.outcome(ty, op, z3.BitVecVal(g('old'), ty.w) if ty.kind == 'float' else g('old'), mem, out, flag, g('x'), g('y'), g('b')))
        if isz(f): f = solve([z3.Not(f)]) == 'unsat'
        ok = f is True
    return (not ok), text
