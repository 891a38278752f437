"""Builds the crate (from /repo's working tree) and a generated harness to LLVM IR for one configuration."""
import os, subprocess, tempfile, shutil, sys, re, atexit, hashlib, json
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid and not os.environ.get('VF_KEEP'): shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

class BuildError(Exception): pass

def run(cmd, env=None, cwd=None, ok=False, timeout=600):
    e = dict(os.environ); e.pop('RUSTFLAGS', None); e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    if env: e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode != 0 and not ok:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p

class Cfg:
    def __init__(self, name, target, arch, toolchain='1.99.1', flags=(), features=('fallback', 'float'), core=False, cfgs=(), opt='3', extra=None, nobs=False, drop=()):
        self.name = name; self.target = target; self.arch = arch; self.tc = toolchain; self.flags = list(flags); self.features = list(features)
        self.core = core; self.cfgs = list(cfgs); self.opt = opt; self.extra = extra or {}; self.nobs = nobs; self.drop = set(drop)

_sysroot = {}
def sysroot(tc):
    if tc not in _sysroot:
        _sysroot[tc] = run(['rustc', '+' + tc, '--print', 'sysroot']).stdout.strip()
    return _sysroot[tc]

import fcntl, contextlib
@contextlib.contextmanager
def lock(name):
    """one process at a time builds a shared file"""
    with open(os.path.join(scratch(), 'lock-' + name), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX); yield

_buildrs = {}
def build_script(tc, features):
    key = (tc, tuple(features))
    if key not in _buildrs:
        out = os.path.join(scratch(), 'bs-%s-%s' % (tc, hashlib.md5(repr(features).encode()).hexdigest()[:6]))
        with lock('bs'): return _build_script(key, out, features)
    return _buildrs[key]
def _build_script(key, out, features):
    if not os.path.exists(out):
        cmd = ['rustc', '+1.99.1', '--edition', '2018', '--crate-name', 'build_script', '--crate-type', 'bin', os.path.join(REPO, 'build.rs'), '-o', out, '--cap-lints', 'allow', '-C', 'opt-level=0', '-C', 'debuginfo=0']
        for f in features: cmd += ['--cfg', 'feature="%s"' % f]
        run(cmd, env={'CARGO_PKG_NAME': 'portable-atomic'})
    _buildrs[key] = out
    return out

def build_cfgs(cfg):
    bs = build_script(cfg.tc, cfg.features)
    tgt = cfg.target
    p = run(['rustc', '+' + cfg.tc, '--print', 'cfg', '--target', tgt_arg(cfg)] + cfg.flags + unstable(cfg))
    env = {'TARGET': cfg.extra.get('target_name', tgt), 'HOST': 'x86_64-unknown-linux-gnu', 'OUT_DIR': scratch(), 'CARGO_PKG_NAME': 'portable-atomic',
           'RUSTC': 'rustc', 'RUSTUP_TOOLCHAIN': cfg.tc, 'CARGO_ENCODED_RUSTFLAGS': '\x1f'.join(cfg.flags), 'CARGO_MANIFEST_DIR': REPO}
    multi = {}
    for ln in p.stdout.split('\n'):
        m = re.match(r'^(\w+)(?:="(.*)")?$', ln.strip())
        if m: multi.setdefault(m.group(1), []).append(m.group(2) or '')
    for k, v in multi.items():
        env['CARGO_CFG_' + k.upper()] = ','.join(v)
    for f in cfg.features: env['CARGO_FEATURE_' + f.upper().replace('-', '_')] = '1'
    r = run([bs], env=env, cwd=REPO)
    out = []
    for ln in r.stdout.split('\n'):
        if ln.startswith('cargo:rustc-cfg='): out.append(ln[len('cargo:rustc-cfg='):])
    return [c for c in out if c not in cfg.drop], multi

def unstable(cfg):
    return ['-Zunstable-options'] if cfg.target.endswith('.json') and cfg.tc == 'nightly' else []
def tgt_arg(cfg):
    return cfg.target

def core_for(cfg):
    with lock('core-' + os.path.basename(cfg.target)): return _core_for(cfg)
def _core_for(cfg):
    """metadata of libcore for a target without a precompiled std"""
    T = cfg.target; base = os.path.basename(T).replace('.json', '')
    h = hashlib.md5(repr((T, cfg.extra.get('core_flags'))).encode()).hexdigest()[:6]
    root = os.path.join(scratch(), 'sysroot-%s-%s' % (base, h))
    d = os.path.join(root, 'lib', 'rustlib', base, 'lib')
    if os.path.exists(os.path.join(d, 'ok')): return root
    cache = os.environ.get('VF_CORE_CACHE')
    if cache and os.path.exists(os.path.join(cache, base + h)):
        shutil.copytree(os.path.join(cache, base + h), root); return root
    os.makedirs(d, exist_ok=True)
    src = sysroot('nightly') + '/lib/rustlib/src/rust/library/core/src/lib.rs'
    cf = cfg.extra.get('core_flags', [])
    common = ['rustc', '+nightly', '--edition', '2024', '--crate-type', 'lib', '--target', T, '--cap-lints', 'allow', '-C', 'panic=abort', '-Zforce-unstable-if-unmarked'] + cf + unstable(cfg)
    run(common + ['--crate-name', 'core', src, '--emit=metadata', '-o', os.path.join(d, 'libcore-0.rmeta'), '-C', 'opt-level=3', '-Zalways-encode-mir'], env={'RUSTC_BOOTSTRAP': '1'})
    cb = os.path.join(root, 'cb.rs')
    open(cb, 'w').write('#![feature(compiler_builtins)] #![compiler_builtins] #![no_std]\n')
    run(common + ['--sysroot', root, '--crate-name', 'compiler_builtins', cb, '--emit=metadata', '-o', os.path.join(d, 'libcompiler_builtins-0.rmeta')], env={'RUSTC_BOOTSTRAP': '1'})
    open(os.path.join(d, 'ok'), 'w').close()
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copytree(root, os.path.join(cache, base + h), dirs_exist_ok=True)
    return root

def compile_cfg(cfg, harness_src, tag='h'):
    """-> (path of crate .ll, path of harness .ll, target cfg map)"""
    d = os.path.join(scratch(), '%s-%s' % (cfg.name, tag)); os.makedirs(d, exist_ok=True)
    cfgs, multi = ([], {}) if cfg.nobs else build_cfgs(cfg)
    common = ['rustc', '+' + cfg.tc, '--crate-type', 'lib', '--target', cfg.target, '-C', 'opt-level=' + cfg.opt, '-C', 'panic=abort', '-C', 'codegen-units=1', '--cap-lints', 'allow', '--out-dir', d] + cfg.flags + unstable(cfg)
    env = {}
    if cfg.core:
        common += ['--sysroot', core_for(cfg)]
        emit = '--emit=metadata,llvm-ir'; lib = 'libportable_atomic.rmeta'
    else:
        emit = '--emit=metadata,link,llvm-ir'; lib = 'libportable_atomic.rlib'
    c = common + ['--edition', '2018', '--crate-name', 'portable_atomic', os.path.join(REPO, 'src/lib.rs'), emit]
    for f in cfg.features: c += ['--cfg', 'feature="%s"' % f]
    for k in cfgs + cfg.cfgs: c += ['--cfg', k]
    for e in cfg.extra.get('lib_extern', []): c += e
    if cfg.tc == 'nightly' or cfg.extra.get('bootstrap'): env['RUSTC_BOOTSTRAP'] = '1'
    run(c, env=env)
    h = os.path.join(d, 'harness.rs'); open(h, 'w').write(harness_src)
    c = common + ['--edition', '2021', '--crate-name', 'harness', h, '--extern', 'portable_atomic=' + os.path.join(d, lib), '-L', d, '--emit=llvm-ir']
    for e in cfg.extra.get('h_extern', []): c += e
    run(c, env=env)
    return os.path.join(d, 'portable_atomic.ll'), os.path.join(d, 'harness.ll'), multi

def parallel(fn, items, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
