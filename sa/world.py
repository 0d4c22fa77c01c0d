"""Builds the driver, dumps the type-checked program (MIR) of /repo and loads it."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('SA_BUILD') or os.path.join(VERIF, '.build')
REPO = os.environ.get('SA_REPO', '/repo')
CONFIGS = {
    'simd': [],
    'none': ['--no-default-features'],
    'par': ['--no-default-features', '--features', 'parallel'],
    'simdpar': ['--features', 'parallel'],
}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    p = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=os.path.join(VERIF, 'driver'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = os.path.join(BUILD, 'driver', 'debug', 'mirdump')
    if p.returncode != 0 or not os.path.exists(d):
        raise BuildError('driver does not build:\n' + p.stdout[-3000:])
    return d


def _dump(cfg, out, target, drv):
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=target, MIRDUMP_OUT=out,
               RUSTC_WORKSPACE_WRAPPER=drv)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    for d in glob.glob(os.path.join(target, 'debug', 'build', 'imgproc-rs*')):
        shutil.rmtree(d, ignore_errors=True)
    for d in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'imgproc-rs*')):
        shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml')] + CONFIGS[cfg],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/')
    return p


def dump(cfg):
    """fresh dump of configuration cfg from REPO's working tree"""
    lk = _lock()
    try:
        drv = build_driver()
        od = os.path.join(BUILD, 'dump')
        os.makedirs(od, exist_ok=True)
        out = os.path.join(od, cfg + '.json')
        p = _dump(cfg, out, os.path.join(BUILD, 'target'), drv)
        if not os.path.exists(out) or p.returncode != 0:
            tmp = tempfile.mkdtemp(prefix='satgt', dir=BUILD)
            try:
                p = _dump(cfg, out, tmp, drv)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        if p.returncode != 0 or not os.path.exists(out):
            raise BuildError('cannot type-check /repo (%s):\n%s' % (cfg, p.stdout[-3000:]))
        with open(out) as f:
            return json.load(f)
    finally:
        lk.close()


class World:
    def __init__(self, cfg, data=None):
        self.cfg = cfg
        d = data if data is not None else dump(cfg)
        self.bodies = {b['key']: b for b in d['bodies']}
        self.globals = {g['key']: g for g in d['globals']}
        self.adts = d['adts']
        self.cfgs = {}


_cache = {}


def load(cfg):
    if cfg not in _cache:
        if os.environ.get('SA_CACHED'):
            _cache[cfg] = World(cfg, json.load(open(os.path.join(BUILD, 'dump', cfg + '.json'))))
        else:
            _cache[cfg] = World(cfg)
    return _cache[cfg]
