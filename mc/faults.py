"""Failures injected at the calls that the library makes (sys.monitoring)"""
import gc
import os
import sys
import threading
import types

TOOL = 4
M = sys.monitoring


class Cut(BaseException):
    """interruption, like KeyboardInterrupt"""


class Fault(Exception):
    """failure of what is called, like MemoryError or an error in a load function"""


def codes():
    """all code objects of the Python files of the library"""
    import panels
    top = os.path.dirname(os.path.abspath(panels.__file__)) + os.sep
    out, todo = set(), []
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None) or ''
        if f.startswith(top) and f.endswith('.py'):
            todo += [v for v in vars(m).values()]
    seen = set()
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, types.CodeType):
            if v.co_filename.startswith(top) and os.path.basename(v.co_filename) != 'logger.py':
                out.add(v)
                todo += [c for c in v.co_consts if isinstance(c, types.CodeType)]
        elif isinstance(v, types.FunctionType):
            todo.append(v.__code__)
            if v.__closure__:
                todo += [c.cell_contents for c in v.__closure__ if c.cell_contents is not None]
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, property):
            todo += [x for x in (v.fget, v.fset, v.fdel) if x]
        elif isinstance(v, type) and str(getattr(v, '__module__', '')).startswith('panels'):
            todo += list(vars(v).values())
    return out


class Points:
    """with Points(what, k): ...   what(code, k) is done at the k-th call made by the library (k = 0: only counts)"""

    ready = None

    def __init__(self, action=None, at=0, lines=False):
        self.action, self.at, self.n, self.done, self.where = action, at, 0, False, None
        self.event = M.events.LINE if lines else M.events.CALL
        self.sites = []

    def __enter__(self):
        if Points.ready is None:
            M.use_tool_id(TOOL, 'points')
            Points.ready = codes()
        M.register_callback(TOOL, self.event, self._hit)
        for c in Points.ready:
            M.set_local_events(TOOL, c, self.event)
        return self

    def _hit(self, code, *a):
        if self.done:
            return
        self.n += 1
        if self.at == 0:
            self.sites.append((os.path.basename(code.co_filename), code.co_name, a[0]))
        elif self.n == self.at:
            self.done = True
            self.where = (os.path.basename(code.co_filename), code.co_name, a[0])
            self.action()

    def __exit__(self, *exc):
        for c in Points.ready:
            M.set_local_events(TOOL, c, 0)
        M.register_callback(TOOL, self.event, None)
        return False


def cut():
    raise Cut('interrupted')


def fault():
    raise Fault('failed')


class Threads:
    """two threads of the library under a controlled scheduler: the first runs to its k1-th call, the second to its k2-th, the first to its end, then the second"""

    def __init__(self, f1, f2, k1, k2):
        self.f, self.k = (f1, f2), (k1, k2)
        self.n, self.reached = [0, 0], [False, False]
        self.out, self.id = [None, None], {}

    def _hit(self, code, *a):
        i = self.id.get(threading.get_ident())
        if i is None or self.reached[i]:
            return
        self.n[i] += 1
        if self.n[i] == self.k[i]:
            self.reached[i] = True
            self.sem[1 - i].release()
            self.sem[i].acquire()

    def _thread(self, i):
        self.id[threading.get_ident()] = i
        if i == 1:
            self.sem[1].acquire()
        self.out[i] = self.f[i]()
        self.reached[i] = True
        self.over[i] = True
        self.sem[1 - i].release()

    def run(self):
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.over = [False, False]
        if Points.ready is None:
            M.use_tool_id(TOOL, 'points')
            Points.ready = codes()
        M.register_callback(TOOL, M.events.CALL, self._hit)
        for c in Points.ready:
            M.set_local_events(TOOL, c, M.events.CALL)
        ts = [threading.Thread(target=self._thread, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for c in Points.ready:
            M.set_local_events(TOOL, c, 0)
        M.register_callback(TOOL, M.events.CALL, None)
        return self.out
