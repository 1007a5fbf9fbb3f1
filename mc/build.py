"""Builds /repo's current working tree into a scratch copy and makes it importable.

The sources are copied (never built in place), so /repo stays untouched.  The
extension list is taken from /repo's own setup.py (its setup() call is
intercepted), the .pyx files are cythonised in parallel and every distinct
source file is compiled once.  Builds are keyed by a content hash of the
sources: an unchanged tree is built once, a changed one always again.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_BUILD_DIR', os.path.join(HERE, '.build'))
PY = '/opt/venv/bin/python'
FLAGS = ['-O2', '-fPIC', '-fwrapv', '-fno-strict-aliasing', '-w', '-DNDEBUG']

SKIP_DIRS = {'.git', 'build', '__pycache__', 'doc', 'notebooks', 'theory',
             'tests', '.pytest_cache'}


def _sources(repo):
    out = []
    for top in ('panels', 'setup.py', 'README.md', 'LICENSE', 'pyproject.toml'):
        p = os.path.join(repo, top)
        if os.path.isfile(p):
            out.append(top)
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            names = set(files)
            for f in sorted(files):
                stem, ext = os.path.splitext(f)
                if ext in ('.so', '.pyc', '.o'):
                    continue
                if ext in ('.c', '.cpp') and stem + '.pyx' in names:
                    continue  # generated by cython
                if not (ext in ('.py', '.pyx', '.pxd', '.pxi', '.h', '.hpp', '.c', '.cpp')):
                    continue
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(out)


def tree_hash(repo=REPO):
    h = hashlib.sha256(repr(FLAGS).encode())
    with open(os.path.abspath(__file__), 'rb') as f:
        h.update(f.read())
    for rel in _sources(repo):
        if rel == os.path.join('panels', 'version.py'):
            continue
        h.update(rel.encode() + b'\0')
        with open(os.path.join(repo, rel), 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


_DRIVER = r'''
import os, sys, json, runpy
os.environ["CYTHON_FORCE_REGEN"] = "1"
import Cython.Build, setuptools
_orig = Cython.Build.cythonize
got = {}
def cyth(exts, *a, **k):
    k["nthreads"] = 8
    k["force"] = True
    k["quiet"] = True
    got["ext"] = _orig(exts, *a, **k)
    return got["ext"]
Cython.Build.cythonize = cyth
setuptools.setup = lambda *a, **k: got.setdefault("setup", k)
if __name__ == "__main__":
    sys.argv = ["setup.py", "build_ext"]
    sys.path.insert(0, os.getcwd())
    runpy.run_path("setup.py", run_name="setup_capture")
    exts = got.get("setup", {}).get("ext_modules") or got["ext"]
    json.dump([dict(name=e.name, sources=list(e.sources), inc=list(e.include_dirs),
                    cargs=list(e.extra_compile_args or []), largs=list(e.extra_link_args or []),
                    libs=list(e.libraries or []), defs=list(e.define_macros or []))
               for e in exts], open("vp_ext.json", "w"))
'''


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError('build step failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def _build(repo, dest):
    import json
    for rel in _sources(repo):
        t = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(os.path.join(repo, rel), t)
    # find_packages/py files of the tests are not needed
    with open(os.path.join(dest, 'vp_driver.py'), 'w') as f:
        f.write(_DRIVER)
    for f in ('README.md', 'LICENSE'):
        p = os.path.join(dest, f)
        if not os.path.exists(p):
            open(p, 'w').close()
    _run([PY, 'vp_driver.py'], dest)
    exts = json.load(open(os.path.join(dest, 'vp_ext.json')))
    pyinc = sysconfig.get_paths()['include']
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    objs = {}
    jobs = []
    for e in exts:
        e['objs'] = []
        for s in e['sources']:
            s = os.path.normpath(s)
            key = (s, tuple(e['inc']), tuple(e['cargs']), tuple(map(tuple, e['defs'])))
            if key not in objs:
                o = os.path.join('vp_obj', '%03d_%s.o' % (len(objs), os.path.basename(s)))
                objs[key] = o
                inc = ['-I' + i for i in e['inc'] if not i.startswith('C:')]
                defs = ['-D%s=%s' % (k, v) if v is not None else '-D%s' % k for k, v in e['defs']]
                jobs.append((os.path.getsize(os.path.join(dest, s)),
                             ['g++', '-c', s, '-o', o] + FLAGS + inc + ['-I' + pyinc] + defs + e['cargs']))
            e['objs'].append(objs[key])
    os.makedirs(os.path.join(dest, 'vp_obj'), exist_ok=True)
    jobs.sort(key=lambda j: -j[0])
    with cf.ThreadPoolExecutor(8) as ex:
        for fu in [ex.submit(_run, j[1], dest) for j in jobs]:
            fu.result()

        def link(e):
            out = e['name'].replace('.', '/') + suffix
            _run(['g++', '-shared', '-o', out] + e['objs'] + e['largs'] + ['-l' + x for x in e['libs']], dest)
        for fu in [ex.submit(link, e) for e in exts]:
            fu.result()
    shutil.rmtree(os.path.join(dest, 'vp_obj'))


def ensure_build(repo=REPO, verbose=False):
    """Returns the directory holding an importable build of repo's working tree."""
    t0 = time.time()
    key = tree_hash(repo)
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(final, 'vp_ok')):
            if os.path.exists(final):
                shutil.rmtree(final)
            # keep the cache small: the newest few builds only
            old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)
                          if os.path.isdir(os.path.join(CACHE, d))), key=os.path.getmtime)
            for d in old[:-12]:
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(final)
            try:
                _build(repo, final)
            except BaseException:
                shutil.rmtree(final, ignore_errors=True)
                raise
            open(os.path.join(final, 'vp_ok'), 'w').close()
    if verbose:
        print('build %s ready in %.1f s' % (key, time.time() - t0))
    return final


def activate(repo=REPO):
    d = ensure_build(repo)
    sys.dont_write_bytecode = True
    sys.path.insert(0, d)
    import panels
    assert os.path.abspath(panels.__file__).startswith(d), panels.__file__
    return d


if __name__ == '__main__':
    print(ensure_build(verbose=True))
