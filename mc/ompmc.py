"""Builds and loads the extensions with parallel loops under the controlled OpenMP
runtime of native/ompmc.cpp, and enumerates the schedules of one call"""
import ctypes
import fcntl
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import subprocess
import sys
import sysconfig

import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ['malloc', 'free', 'calloc', 'realloc', 'memcpy', 'memmove', 'memset', 'PyGILState_Ensure', 'PyGILState_Release', 'PyEval_SaveThread',
        'PyEval_RestoreThread']
MAXD = 1 << 16


def prepare(d):
    """instrumented copies of the extensions whose generated code has parallel regions; {name: file}"""
    out = os.path.join(d, 'vp_omp')
    with open(os.path.join(B.CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        idx = os.path.join(out, 'index.json')
        if os.path.exists(idx):
            return out, json.load(open(idx))
        os.makedirs(out, exist_ok=True)
        B._run(['g++', '-O2', '-fPIC', '-shared', '-w', '-o', os.path.join(out, 'libompmc.so'), os.path.join(HERE, 'native', 'ompmc.cpp')], out)
        B._run(['gcc', '-O2', '-fPIC', '-w', '-c', '-o', os.path.join(out, 'wrap.o'), os.path.join(HERE, 'native', 'ompwrap.c')], out)
        pyinc = sysconfig.get_paths()['include']
        suffix = sysconfig.get_config_var('EXT_SUFFIX')
        res = {}
        for e in json.load(open(os.path.join(d, 'vp_ext.json'))):
            src = [os.path.normpath(s) for s in e['sources']]
            if '-fopenmp' not in e['cargs'] or not any('#pragma omp parallel' in open(os.path.join(d, s), errors='replace').read() for s in src):
                continue
            so = os.path.join(out, e['name'] + suffix)
            procs = []
            objs = []
            for s in src:
                o = os.path.join(out, e['name'] + '_' + os.path.basename(s) + '.o')
                objs.append(o)
                inc = ['-I' + i for i in e['inc'] if not i.startswith('C:')]
                defs = ['-D%s=%s' % (k, v) if v is not None else '-D%s' % k for k, v in e['defs']]
                fl = ['-O1' if f == '-O2' else f for f in B.FLAGS]
                procs.append(subprocess.Popen(['g++', '-c', s, '-o', o] + fl + ['-fsanitize=thread', '-I' + pyinc] + inc + defs + e['cargs'],
                                              cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            for p in procs:
                t = p.communicate()[0]
                if p.returncode:
                    raise RuntimeError('instrumented build failed: ' + t[-2000:])
            B._run(['g++', '-shared', '-o', so] + objs + [os.path.join(out, 'wrap.o')] + ['-Wl,--wrap=' + w for w in WRAP], d)
            for o in objs:
                os.remove(o)
            res[e['name']] = so
        with open(idx + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(idx + '.tmp', idx)
        return out, res


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, files):
        self.files = files

    def find_spec(self, name, path, target=None):
        if name in self.files:
            return importlib.util.spec_from_file_location(name, self.files[name], loader=importlib.machinery.ExtensionFileLoader(name, self.files[name]))
        return None


class Runtime:
    """The controlled runtime of this process; to be created before panels is imported"""

    def __init__(self, d):
        assert 'panels' not in sys.modules
        out, self.files = prepare(d)
        self.lib = ctypes.CDLL(os.path.join(out, 'libompmc.so'), mode=ctypes.RTLD_GLOBAL)
        sys.meta_path.insert(0, Finder(self.files))
        sys.path.insert(0, d)
        self.ch = (ctypes.c_int*MAXD)()
        self.cu = (ctypes.c_int*MAXD)()
        self.rd = (ctypes.c_uint64*MAXD)()
        self.pc = (ctypes.c_uint64*4096)()
        self.st = (ctypes.c_long*8)()

    def run(self, fn, script, limit=0):
        a = (ctypes.c_int*max(1, len(script)))(*script)
        self.lib.ompmc_begin(a, len(script), limit)
        res = fn()
        n = min(MAXD, self.lib.ompmc_decisions(self.ch, self.cu, self.rd, MAXD))
        dec = [(self.ch[i], self.cu[i], self.rd[i]) for i in range(n)]
        k = min(4096, self.lib.ompmc_found(self.pc, 4096))
        found = {self.pc[i] for i in range(k)}
        self.lib.ompmc_stats(self.st)
        st = dict(zip(('accesses', 'regions', 'switches', 'freed_twice', 'threads', 'deadlock'), list(self.st)[:6]))
        return res, dec, found, st

    def hot(self, pcs):
        pcs = sorted(pcs)
        self.lib.ompmc_hot((ctypes.c_uint64*max(1, len(pcs)))(*pcs), len(pcs))

    def explore(self, fn, check, limit=0, preemptions=2, orders=4, cap=4000):
        """every schedule of fn(): all orders of the threads where at most `orders` run (else up to `preemptions`
        deviations), every preemption at a conflicting access up to the bound.  check(result, stats) -> True when fine.
        Returns what was covered."""
        cov = dict(schedules=0, decisions=0, switches=0, accesses=0, conflicts=0, capped=0, regions=0, threads=0)
        hot = set()
        while True:
            self.hot(hot)
            todo = [[((), 0)]] + [[] for i in range(preemptions)]       # by number of preemptions, fewest first
            again = False
            n = 0
            while any(todo):
                script, cost = next(q for q in todo if q).pop()
                res, dec, found, st = self.run(fn, script, limit)
                n += 1
                cov['schedules'] += 1
                cov['decisions'] += len(dec)
                cov['switches'] += st['switches']
                cov['accesses'] += st['accesses']
                cov['regions'] = max(cov['regions'], st['regions'])
                cov['threads'] = max(cov['threads'], st['threads'])
                if not check(res, st, [c for c, q, r in dec]):
                    self.hot(())
                    return cov
                if found - hot:
                    hot |= found
                    again = True
                    break
                if n >= cap:
                    cov['capped'] = 1
                    break
                for i in range(len(script), len(dec)):
                    c, q, r = dec[i]
                    for t in range(64):
                        if t != c and r >> t & 1:
                            k = cost + (1 if q >= 0 or st['threads'] > orders else 0)
                            if k <= preemptions:
                                todo[k].append((tuple(x[0] for x in dec[:i]) + (t,), k))
            cov['conflicts'] = len(hot)
            if not again:
                self.hot(())
                return cov
