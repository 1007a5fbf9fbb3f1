"""Explicit-state search over operation sequences of the real objects.

A system provides
    initials()                 {name: definition}      (plain data: what the user has set)
    sets / calcs               {op name: function(definition) -> new definition or None when not enabled}, [op names]
    make(definition)           fresh real object, defined directly
    apply_set(obj, op, definition_before, definition_after)
    apply_calc(obj, op, definition) -> list of arrays (raises like the library)
    after(op, definition)      new definition after a calculation (optional)
    allowed(definition, op)    types of exception that op may raise for this definition (None: any)
    intact(obj, definition)    None or what is not as the user defined it
    raw                        arrays of the last calculation as returned (to see that nothing changes them later)
States are canonical hashes of the complete internal state of the object (every
attribute, arrays by content), so two histories are merged only when all
futures are the same.  The oracle of every calculation is the same calculation
on a fresh object with the same definition, evaluated in a pristine process.
"""
import gc
import hashlib
import os
import pickle
import struct
import sys
import types

import numpy as np

MAXDEPTH = 40


def _feed(h, o, depth, seen):
    if depth > MAXDEPTH:
        h.update(b'deep')
        return
    if o is None or isinstance(o, (bool, int, str, bytes, complex)):
        h.update(repr(o).encode())
    elif isinstance(o, (float, np.floating)):
        h.update(b'f' + repr(float(o)).encode())
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            h.update(b'o')
            for v in o.ravel():
                _feed(h, v, depth + 1, seen)
        else:
            h.update(b'a' + str(o.shape).encode() + o.dtype.str.encode() + np.ascontiguousarray(o).tobytes())
    elif isinstance(o, np.generic):
        h.update(repr(o).encode())
    elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, types.ModuleType)):
        h.update(b'F' + getattr(o, '__qualname__', getattr(o, '__name__', '?')).encode())
        for c in getattr(o, '__closure__', None) or ():
            try:
                _feed(h, c.cell_contents, depth + 1, seen)
            except ValueError:
                pass
    else:
        if id(o) in seen:
            h.update(b'@%d' % seen[id(o)])
            return
        seen[id(o)] = len(seen)
        if isinstance(o, (list, tuple)):
            h.update(b'[')
            for v in o:
                _feed(h, v, depth + 1, seen)
            h.update(b']')
        elif isinstance(o, (dict, types.MappingProxyType)):
            h.update(b'{')
            for k in sorted(o, key=repr):
                _feed(h, k, depth + 1, seen)
                _feed(h, o[k], depth + 1, seen)
            h.update(b'}')
        elif isinstance(o, (set, frozenset)):
            h.update(repr(sorted(map(repr, o))).encode())
        elif hasattr(o, 'tocoo') and hasattr(o, 'data'):
            q = o.tocoo()
            h.update(b'S' + str(q.shape).encode() + q.row.tobytes() + q.col.tobytes() + q.data.tobytes())
        else:
            h.update(b'O' + type(o).__name__.encode())
            names = set()
            for k in type(o).__mro__:
                sl = k.__dict__.get('__slots__', ())
                names |= set([sl] if isinstance(sl, str) else sl)
            st = {n: getattr(o, n) for n in names if hasattr(o, n)}
            st.update(getattr(o, '__dict__', {}))
            if not st and not hasattr(o, '__dict__'):
                try:
                    h.update(bytes(memoryview(o)))
                except TypeError:
                    attrs = [n for n in dir(o) if not n.startswith('_') and not callable(getattr(o, n, None))]
                    st = {n: getattr(o, n) for n in attrs}
            for n in sorted(st):
                h.update(n.encode())
                _feed(h, st[n], depth + 1, seen)


def canon(*objs):
    h = hashlib.blake2b(digest_size=12)
    seen = {}
    for o in objs:
        _feed(h, o, 0, seen)
    return h.digest()


def outcome(fn):
    """result, or the type of the exception it raises"""
    try:
        with np.errstate(all='ignore'):
            return 'ok', [np.asarray(a) for a in fn()]
    except Exception as e:
        return 'exc', type(e).__name__


class Zygote:
    """process that has run nothing yet; forks a child for each request"""

    def __init__(self, handler):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._serve(r1, w2, handler)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w = r2, w1

    @staticmethod
    def _read(fd, n):
        out = b''
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    def _serve(self, r, w, handler):
        while True:
            try:
                n, = struct.unpack('Q', self._read(r, 8))
                req = pickle.loads(self._read(r, n))
            except EOFError:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    out = pickle.dumps(handler(req))
                except BaseException as e:
                    out = pickle.dumps(('error', repr(e)))
                try:
                    os.write(w, struct.pack('Q', len(out)))
                    m = memoryview(out)
                    while len(m):
                        m = m[os.write(w, m):]
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        b = pickle.dumps(req)
        b = struct.pack('Q', len(b)) + b
        m = memoryview(b)
        while len(m):
            m = m[os.write(self.w, m):]
        n, = struct.unpack('Q', self._read(self.r, 8))
        return pickle.loads(self._read(self.r, n))


class Explorer:
    _z = {}

    def __init__(self, system, rtol=1e-9, atol=1e-13):
        self.sys = system
        self.rtol, self.atol = rtol, atol
        self.memo = {}
        key = (os.getpid(), type(system).__name__, system.tag)
        if key not in Explorer._z:
            system.warm()
            gc.collect()
            gc.freeze()
            gc.collect = lambda *a: 0  # called by the library after every calculation
            sysm = system

            def handler(req):
                d, = req
                return {op: outcome(lambda: sysm.apply_calc(sysm.make(d), op, d)) for op in sysm.calcs}
            Explorer._z[key] = Zygote(handler), {}
        self.z, self.memo = Explorer._z[key]

    def expected(self, d, op):
        k = repr(sorted(d.items(), key=lambda t: t[0]))
        if k not in self.memo:
            if len(self.memo) > 3000:
                self.memo.clear()
            self.memo[k] = self.z.ask((d,))
        return self.memo[k][op]

    def same(self, got, exp):
        if got[0] != exp[0]:
            return '%s instead of %s' % (got[1] if got[0] == 'exc' else 'a result', exp[1] if exp[0] == 'exc' else 'a result')
        if got[0] == 'exc':
            return None if got[1] == exp[1] else '%s instead of %s' % (got[1], exp[1])
        if len(got[1]) != len(exp[1]):
            return '%d results instead of %d' % (len(got[1]), len(exp[1]))
        for i, (g, e) in enumerate(zip(got[1], exp[1])):
            if g.shape != e.shape:
                return 'result %d has shape %s instead of %s' % (i, g.shape, e.shape)
            if g.dtype.kind not in 'fciub':
                if g.tolist() != e.tolist():
                    return 'result %d is %r instead of %r' % (i, g.tolist(), e.tolist())
                continue
            if e.size and not np.array_equal(g, e, equal_nan=True):
                s = max(abs(e[np.isfinite(e)]).max() if np.isfinite(e).any() else 0., 1e-300)
                with np.errstate(invalid='ignore'):
                    bad = ~(abs(g - e) <= self.rtol*s + self.atol) & ~(np.isnan(g) & np.isnan(e))
                if bad.any():
                    j = np.unravel_index(np.argmax(bad), bad.shape)
                    return 'result %d entry %s is %r instead of %r' % (i, tuple(int(q) for q in j), g[j].item(), e[j].item())
        return None

    def step(self, obj, op, d, kept):
        """one operation on the real object; new definition, outcome"""
        if op in self.sys.sets:
            d2 = self.sys.sets[op](d)
            self.sys.apply_set(obj, op, d, d2)
            return d2, None
        self.sys.raw = []
        out = outcome(lambda: self.sys.apply_calc(obj, op, d))
        raw = list(self.sys.raw)
        if raw:
            kept.append((op, raw, [np.array(a) for a in raw]))
        if hasattr(self.sys, 'after'):
            d = self.sys.after(op, d)
        return d, out

    def run(self, d, obj, hist):
        kept = []
        for op in hist:
            d, _ = self.step(obj, op, d, kept)
        return d, kept

    def search(self, r, init, prefix, depth, last_calcs=True, limit=None):
        """all sequences of `depth` operations that begin with prefix, from initial definition `init`"""
        s = self.sys
        d0 = s.initials()[init]
        frontier = [tuple(prefix)]
        seen = set()
        for level in range(len(prefix), depth):
            nxt = []
            for hist in frontier:
                obj = s.make(d0)
                dd, kept = self.run(dict(d0), obj, hist)
                c0 = canon(obj, sorted(dd.items(), key=lambda t: t[0]))
                if level == len(prefix):
                    seen.add(c0)
                    r.state_keys.add(c0)
                ops = list(s.calcs)
                if level < depth - 1 or not last_calcs:
                    ops += [o for o in s.sets if s.sets[o](dd) is not None]
                fresh = False
                for op in ops:
                    if fresh is not False:
                        obj = s.make(d0)
                        _, kept = self.run(dict(d0), obj, hist)
                        if level < depth - 1 and canon(obj, sorted(dd.items(), key=lambda t: t[0])) != c0:
                            r.counts['replays_not_identical'] += 1
                    fresh = None
                    d2, out = self.step(obj, op, dd, kept)
                    r.transitions += 1
                    r.evals += 1
                    h = hist + (op,)
                    if out is not None:
                        e = self.expected(dd, op)
                        why = self.same(out, e)
                        if e[0] == 'exc' and e[1] not in (s.allowed(dd, op) or (e[1],)):
                            r.fail('fails/%s' % op, 'a fresh object raises %s in %s' % (e[1], op), init=init, history=list(h))
                        r.traces += 1
                        if e[0] == 'ok':
                            r.keys.add(canon(e[1], op))
                        r.counts['outcome_' + e[0]] += 1
                        if why:
                            r.fail('%s/%s' % (op, s.blame(h)), '%s after %s: %s' % (op, list(hist), why), init=init, history=list(h))
                        w2 = s.intact(obj, d2)
                        if w2:
                            r.fail('definition/%s' % op, 'after %s: %s' % (list(h), w2), init=init, history=list(h))
                    if len(r.samples) < 1 and out is not None and len(h) == depth:
                        r.sample(dict(init=init, history=list(h), outcome=out[0], compared=[list(np.shape(a)) for a in out[1]] if out[0] == 'ok' else out[1]))
                    for (kop, arrs, can) in kept:
                        for a, c in zip(arrs, can):
                            if a.shape != c.shape or not np.array_equal(a, c, equal_nan=c.dtype.kind in 'fc'):
                                r.fail('returned-changed/%s/%s' % (kop, op), 'the arrays returned by %s changed in %s' % (kop, list(h)), init=init, history=list(h))
                    if level < depth - 1:
                        c = canon(obj, sorted(d2.items(), key=lambda t: t[0]))
                        r.state_keys.add(c)
                        if c not in seen:
                            seen.add(c)
                            nxt.append(h)
            frontier = nxt
