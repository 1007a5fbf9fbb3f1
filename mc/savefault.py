"""Runs under the LD_PRELOAD library native/faultio.c: saves real objects with every failure of every
system call that changes a file, one per forked process, and reports what is left on disk.

usage: savefault.py build library specification(json)     result: json on stdout
"""
import ctypes
import gc
import json
import os
import pickle
import sys

build, lib, spec = sys.argv[1:]
spec = json.loads(spec)
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), build]
sys.dont_write_bytecode = True
OUT = os.fdopen(os.dup(1), 'w')
sys.stdout = open(os.devnull, 'w')
import importlib  # noqa
import errno  # noqa
from explore import canon  # noqa

L = ctypes.CDLL(lib)
L.vf_event.restype = ctypes.c_char_p
CRASH_BEFORE, ERROR, SHORT, SHORT_ERROR, SHORT_CRASH, CRASH_AFTER, ERROR_ON = range(1, 8)
NAMES = {1: 'crash before', 2: 'error in', 3: 'short', 4: 'short then error in', 5: 'short then crash in', 6: 'crash after', 7: 'errors from'}
DIR = os.path.join(os.environ['VERIF_SCRATCH'], 'f%d' % os.getpid())
os.mkdir(DIR)
os.chdir(DIR)
L.vf_dir(DIR.encode())

mod = importlib.import_module('checks.' + spec['system'])
system = getattr(mod, spec['class'])()
system.warm()
gc.collect()
gc.freeze()
gc.collect = lambda *a: 0  # called by the library whenever it clears results
EXT = spec['ext']
NAME = spec['name']
if NAME.startswith('@'):
    NAME = os.path.join(DIR, NAME[1:])
os.makedirs(os.path.dirname(os.path.join(DIR, NAME)), exist_ok=True)
FILE = os.path.join(DIR, NAME + EXT)


def load(name):
    if EXT == '.Shell':
        from panels.shell import load as f
    else:
        from panels.stiffpanelbay.stiffpanelbay import load as f
    return f(name)


def reach(init, hist):
    d = dict(system.initials()[init])
    o = system.make(d)
    for op in hist:
        if op in system.sets:
            d2 = system.sets[op](d)
            system.apply_set(o, op, d, d2)
            d = d2
        else:
            system.apply_calc(o, op, d)
    o.name = NAME
    return o, d


def clean():
    for base, _, files in os.walk(DIR):
        for f in files:
            os.unlink(os.path.join(base, f))


def listing():
    out = []
    for base, _, files in os.walk(DIR):
        for f in sorted(files):
            with open(os.path.join(base, f), 'rb') as h:
                out.append((os.path.relpath(os.path.join(base, f), DIR), h.read()))
    return out


def read():
    try:
        with open(FILE, 'rb') as h:
            return h.read()
    except FileNotFoundError:
        return None


def save(obj, d, fault=None):
    """in a forked process; ('ok'|'exc'|'crash', text, events)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if fault:
                L.vf_arm(*fault)
            else:
                L.vf_arm(-1, 0, 0, 0)
            try:
                obj.save()
                res = 'ok', ''
            except Exception as e:
                res = 'exc', repr(e)
            n = L.vf_disarm()
            bad = system.intact(obj, d)
            os.write(w, pickle.dumps(res + ([L.vf_event(k).decode() for k in range(min(n, 64))], bad)))
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        q = os.read(r, 65536)
        if not q:
            break
        b += q
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if b:
        return pickle.loads(b)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        return 'crash', '', [], None
    return 'dead', str(st), [], None


res = dict(faults=0, saves=0, loads=0, states=set(), fails={}, samples=[], outcomes={}, events=[], crashed=0)


def fail(key, msg, **kw):
    f = res['fails'].setdefault(key, dict(msg=msg, detail=kw, count=0))
    f['count'] += 1


def loaded():
    res['loads'] += 1
    try:
        return canon(load(NAME))
    except FileNotFoundError:
        return None
    except Exception as e:
        return repr(e)


old, dold = reach(*spec['old'])
new, dnew = reach(*spec['new'])
contents = []
for o, d in ((old, dold), (new, dnew)):
    clean()
    st = save(o, d)
    res['saves'] += 1
    if st[0] != 'ok' or read() is None:
        fail('save', 'save without any failure: %s %s' % st[:2])
        break
    contents.append((read(), loaded(), st[2]))
    if st[3]:
        fail('definition', 'save: ' + st[3])
    left = [n for n, _ in listing()]
    if len(left) > 1:
        fail('left', 'files left by a successful save: %r' % left)
if len(contents) == 2 and contents[0][1] != contents[1][1]:
    OLD, OLDC = contents[0][:2]
    NEW, NEWC, EV = contents[1]
    res['events'] = EV
    faults = []
    for k, e in enumerate(EV):
        what, n = e.rsplit(' ', 1)
        n = int(n)
        faults += [(k, CRASH_BEFORE, 0, 0), (k, CRASH_AFTER, 0, 0)]
        for en in (errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT):
            faults += [(k, ERROR, 0, en), (k, ERROR_ON, 0, en)]
        if what in ('write', 'open'):
            faults.append((k, ERROR, 0, errno.EINTR))
        if what == 'write':
            js = range(n) if spec['all_bytes'] else sorted({0, 1, 2, n//4, n//2, n - 2, n - 1} | set(range(0, n, max(spec['stride'], n//24))))
            for j in js:
                faults += [(k, SHORT, j, 0), (k, SHORT_ERROR, j, errno.ENOSPC), (k, SHORT_CRASH, j, 0)]
    starts = dict(existing=[(FILE, OLD)], none=[], stale=[(FILE, OLD), (FILE + '.tmp', OLD[:50])])

    def run(fault, d, obj, newc, before):
        """before: canonical contents that the file may have had"""
        st = save(obj, d, fault)
        res['faults'] += 1
        res['outcomes'][st[0]] = res['outcomes'].get(st[0], 0) + 1
        kind = NAMES[fault[1]]
        text = '%s event %d (%s)%s' % (kind, fault[0], EV[fault[0]] if fault[0] < len(EV) else '?', ' at byte %d' % fault[2] if 'short' in kind else '')
        got = loaded()
        if st[3]:
            fail('definition', '%s: %s' % (text, st[3]), fault=list(fault))
        if st[0] == 'ok' and got != newc:
            fail('silent', 'save reported success with %s, but the file holds %s' % (text, 'nothing readable' if not isinstance(got, bytes) else 'something else'), fault=list(fault))
        elif st[0] == 'exc' and got not in before:
            fail('lost', 'after save failed (%s) the existing file is %s' % (text, got if isinstance(got, str) else 'gone' if got is None else 'changed'), fault=list(fault))
        elif st[0] == 'crash' and got not in before | {newc} and not (None in before and not isinstance(got, bytes)):
            fail('lost-crash', 'after a crash of save (%s) the existing file is %s' % (text, got if isinstance(got, str) else 'gone' if got is None else 'changed'), fault=list(fault))
        elif st[0] == 'dead':
            fail('dead', 'save killed the process: ' + text, fault=list(fault))
        res['states'].add(canon(listing(), st[0]))
        return got, text

    for sname, files in starts.items():
        for fault in faults:
            if sname == 'stale' and 'short' in NAMES[fault[1]] and fault[2] % 5:
                continue
            clean()
            for p, b in files:
                with open(p, 'wb') as h:
                    h.write(b)
            got, text = run(fault, dnew, new, NEWC, {OLDC} if files else {None})
            st = save(new, dnew)
            res['saves'] += 1
            if st[0] != 'ok' or loaded() != NEWC:
                fail('again', 'save after an earlier failed save (%s) does not work: %s' % (text, st[1]), fault=list(fault))
            if len(res['samples']) < 2 and sname == 'existing' and fault[0] == 1:
                res['samples'].append(dict(fault=text, left='old' if got == OLDC else 'new' if got == NEWC else 'other'))
    # two failed saves, one after the other: old <- new <- old2 (the old object again under the same name)
    few = [f for f in faults if f[1] in (CRASH_BEFORE, CRASH_AFTER) or f[1] == ERROR and f[3] == errno.ENOSPC or f[1] == SHORT_CRASH and f[2] in (0, len(NEW)//2)
           or f[1] == SHORT_ERROR and f[2] == len(NEW)//2]
    third, dthird = reach(*spec['third'])
    clean()
    save(third, dthird)
    THIRDC = loaded()
    for f1 in few:
        for f2 in few:
            clean()
            with open(FILE, 'wb') as h:
                h.write(OLD)
            got, _ = run(f1, dnew, new, NEWC, {OLDC})
            got, _ = run(f2, dthird, third, THIRDC, {got})
    res['sequences'] = len(few)**2
elif len(contents) == 2:
    fail('same', 'different objects load as the same')
clean()
res['states'] = [s.hex() for s in res['states']]
json.dump(res, OUT)
OUT.flush()
os._exit(0)
