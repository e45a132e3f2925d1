"""Builds, from /repo's current source, what the checks run. Cached by content hash in /verif/build."""
import hashlib
import os
import re
import subprocess
import sys
import threading
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get('TNCO_REPO', '/repo'))
BUILD = VERIF / 'build'
PYBIND = '/opt/venv/lib/python3.12/site-packages/pybind11/include'


def _hash(paths, *extra):
    h = hashlib.sha256()
    for root in paths:
        root = Path(root)
        files = [root] if root.is_file() else sorted(
            p for p in root.rglob('*') if p.is_file() and p.suffix in ('.hpp', '.cpp', '.h', '.sh', '.hpp.in', ''))
        for f in files:
            h.update(str(f.relative_to(root.parent)).encode())
            h.update(f.read_bytes())
    for x in extra:
        h.update(repr(x).encode())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _run(cmd, out):
    tmp = str(out) + f'.{os.getpid()}.tmp'
    cmd = [tmp if c == '@OUT@' else c for c in cmd]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(f'{" ".join(cmd)[:300]}\n{p.stdout[:3000]}')
    os.replace(tmp, out)
    return out


def harness(name, mode, flags=()):
    """mode: sym | conc."""
    BUILD.mkdir(exist_ok=True)
    h = _hash([VERIF / 'cxx', REPO / 'include'], name, mode, tuple(flags))
    out = BUILD / f'{name}-{mode}-{h}'
    if out.exists():
        return out
    src = VERIF / 'cxx' / 'harness' / f'{name}.cpp'
    base = ['g++', '-std=c++20', '-O1', '-g0', '-w', '-fmax-errors=5', '-D_GLIBCXX_ASSERTIONS', *flags]
    repo_inc = REPO / 'include'
    xf = '-DXFLOAT' in flags
    if xf:  # "long double" becomes a type of the harness
        repo_inc = BUILD / f'gen-{_hash([REPO / "include"])}'
        for f in (REPO / 'include').rglob('*'):
            if f.is_file():
                g = repo_inc / f.relative_to(REPO / 'include')
                g.parent.mkdir(parents=True, exist_ok=True)
                t = g.with_suffix(g.suffix + f'.{os.getpid()}.{threading.get_ident()}')
                t.write_text(re.sub(r'\blong\s+double\b', 'LDBL_T', f.read_text()))
                os.replace(t, g)
    inc = [f'-I{VERIF}/cxx'] + ([f'-I{VERIF}/cxx/shim_mpfr'] if xf and mode == 'sym' else []) + ([f'-I{VERIF}/cxx/shim'] if mode == 'sym' else ['-DCONC']) + [
        f'-I{repo_inc}', '-I/usr/include/python3.12']
    lib = (['-lz3'] if mode == 'sym' else ['-lgmpxx']) + ['-lmpfr', '-lgmp']
    try:
        return _run(base + inc + [f'-I{VERIF}/cxx/shim_py', str(src), '-o', '@OUT@'] + lib, out)
    except BuildError as e:
        if '-DPYB_CAPTURE' in flags:
            raise
        # a construct the light pybind11 stand-in does not know: use the real headers
        return _run(base + inc + [f'-I{PYBIND}', str(src), '-o', '@OUT@'] + lib + ['-lpython3.12'], out)


def core():
    """The real extension module from the current tree (ASSERTs on; cost double, width float)."""
    h = _hash([REPO / 'include', VERIF / 'cxx/core'], 'core')
    d = BUILD / f'core-{h}'
    out = d / 'tnco_core.cpython-312-x86_64-linux-gnu.so'
    if out.exists():
        return d
    d.mkdir(parents=True, exist_ok=True)
    for src in (VERIF / 'cxx/core/core.cpp', REPO / 'include/tnco/main.cpp'):
        try:
            _run(['clang++', '-std=c++17', '-O0', '-w', '-fPIC', '-shared', '-fvisibility=hidden', f'-I{REPO}/include', f'-I{PYBIND}',
                  '-I/usr/include/python3.12', str(src), '-o', '@OUT@', '-lmpfr', '-lgmp'], out)
            return d
        except BuildError:
            if 'main.cpp' in str(src):
                raise
    return d


if __name__ == '__main__':
    if sys.argv[1] == 'core':
        print(core())
    else:
        print(harness(sys.argv[1], sys.argv[2], sys.argv[3:]))
