"""Building the dump of /repo's current source and compiling small programs against it."""
import fcntl
import json
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KSERD_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
DRIVER = os.path.join(HERE, 'driver')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC'):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    """path of the driver binary, built when missing or older than its source"""
    tgt = os.path.join(BUILD, 'driver')
    code, out = sh(['cargo', 'build', '--offline', '--quiet', '--target-dir', tgt], {'RUSTUP_TOOLCHAIN': 'nightly'}, DRIVER)
    exe = os.path.join(tgt, 'debug', 'kdump')
    if code or not os.path.exists(exe):
        raise BuildError('driver does not build:\n' + out[-3000:])
    return exe


def libdir():
    code, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    return os.path.join(out.strip(), 'lib')


def forget(tgt):
    """cargo would skip a crate it considers fresh: drop the crate's own build state"""
    for base in ('.fingerprint', 'build', 'incremental'):
        d = os.path.join(tgt, 'debug', base)
        for x in os.listdir(d) if os.path.isdir(d) else ():
            if x == 'kserd' or x.startswith('kserd-'):
                shutil.rmtree(os.path.join(d, x))


def dump(features=None, flags=None):
    """type-check the crate as it is now and dump its MIR; -> path"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'dump-%d.json' % os.getpid())
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        tgt = os.path.join(BUILD, 'target')
        forget(tgt)
        env = {'RUSTUP_TOOLCHAIN': 'nightly', 'KDUMP_OUT': out, 'RUSTFLAGS': '-Zmir-opt-level=0', 'RUSTC_WORKSPACE_WRAPPER': exe,
               'CARGO_TARGET_DIR': tgt, 'LD_LIBRARY_PATH': libdir(), 'CARGO_INCREMENTAL': '0', 'KDUMP_FLAGS': ' '.join(flags or [])}
        code, log = sh(['cargo', 'check', '--lib', '--offline'] + (features or []), env, REPO)
        if code or not os.path.exists(out):
            if os.path.exists(out):
                os.remove(out)
            i = log.find('error')
            raise BuildError('the crate does not type-check:\n' + (log[i:i + 3000] if i >= 0 else log[-800:]))
    return out


def dump_file(path):
    """dump of a single-file crate, for the examples a rule tests itself on"""
    os.makedirs(BUILD, exist_ok=True)
    name = os.path.basename(path)[:-3]
    out = os.path.join(BUILD, '%s-%d.json' % (name, os.getpid()))
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
    lib = libdir()
    meta = os.path.join(BUILD, '%s-%d.rmeta' % (name, os.getpid()))
    code, log = sh([exe, 'rustc', path, '--crate-name', name, '--crate-type', 'lib', '--emit=metadata', '--edition', '2021', '-Zmir-opt-level=0', '-Awarnings',
                    '-o', meta, '--sysroot', os.path.dirname(lib)], {'KDUMP_OUT': out, 'KDUMP_CRATE': name, 'LD_LIBRARY_PATH': lib})
    try:
        if code:
            raise BuildError('%s does not type-check:\n%s' % (path, log[:2000]))
        with open(out) as f:
            return json.load(f)
    finally:
        for x in (out, meta):
            if os.path.exists(x):
                os.remove(x)


def programs(files):
    """compile programs against the crate as it is now; -> {file: (accepted, error codes, text)}"""
    res = {}
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tgt = os.path.join(BUILD, 'target')
        forget(tgt)
        env = {'RUSTUP_TOOLCHAIN': 'nightly', 'RUSTFLAGS': '-Zmir-opt-level=0', 'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0'}
        code, log = sh(['cargo', 'check', '--lib', '--offline', '--message-format=json'], env, REPO)
        lib, dirs = None, set()
        for line in log.splitlines():
            if line.startswith('{'):
                m = json.loads(line)
                if m.get('reason') == 'compiler-artifact':
                    metas = [x for x in m['filenames'] if x.endswith(('.rmeta', '.so'))]
                    dirs |= {os.path.dirname(x) for x in metas}
                    if m['target']['name'] == 'kserd':
                        lib = metas
        if code or not lib:
            raise BuildError('the crate does not type-check:\n' + log[-800:])
        for f in files:
            out = os.path.join(BUILD, 'program-%d.rmeta' % os.getpid())
            code, log = sh(['rustc', f, '--crate-name', 'program', '--crate-type', 'bin', '--emit=metadata', '--edition', '2021', '-Awarnings', '--error-format=json',
                            '-o', out, '--extern', 'kserd=' + lib[0]] + [x for d in sorted(dirs) for x in ('-L', 'dependency=' + d)], {'RUSTUP_TOOLCHAIN': 'nightly'})
            if os.path.exists(out):
                os.remove(out)
            codes, text = set(), []
            for line in log.splitlines():
                m = json.loads(line) if line.startswith('{') else {}
                if m.get('level') == 'error':
                    text.append(m['message'])
                    if m.get('code'):
                        codes.add(m['code']['code'])
                    elif 'lifetime may not live long enough' in m['message']:
                        codes.add('lifetime')
            res[f] = (code == 0, codes, '; '.join(text))
    return res
