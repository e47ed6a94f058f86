"""Deterministic simulation kernel.

Caller threads are real Python threads, but they are parked and released one at
a time: which one runs, and where it is preempted, is decided only by the plan
of the run.  The seam is ``sys.monitoring``: every executed source line of the
package under test is an event, at which the kernel may preempt the running
thread, raise an exception there (asynchronous interrupt, failed allocation) or
just count.  Everything else (NumPy, SciPy, CVXOPT, the compiled simulators) is
an atomic step, apart from the points where it calls back into code that the
harness owns (user callbacks, array-like arguments, solver seams).
"""

import _thread
import ast
import gc
import hashlib
import sys
import threading
import time
import types
from array import array

MON = sys.monitoring
TOOL = 4
LINE = MON.events.LINE
INSTR = MON.events.INSTRUCTION

_real_alloc = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_sleep = time.sleep


class SimInterrupt(KeyboardInterrupt):
    """Asynchronous interrupt injected by the simulator."""


class SimMemoryError(MemoryError):
    """Failed allocation injected by the simulator."""


class SimAbort(BaseException):
    """Used to unwind a run that has been given up (deadlock, budget)."""


FAULT_EXC = {"interrupt": SimInterrupt, "memory": SimMemoryError}

TRACE_CAP = 400000


class OpCtx(object):
    """Bookkeeping of one operation issued by one simulated caller."""

    def __init__(self, op, triggers=(), budget=None, trace=False):
        self.op = op
        self.n = 0                       # line events so far
        self.trace = array('I') if trace else None
        self.triggers = sorted(triggers, key=lambda t: t["at"])
        self.ti = 0
        self.next = self.triggers[0]["at"] if self.triggers else -1
        self.budget = budget if budget is not None else 1 << 60
        self.stop = self._stop()
        self.seams = []                  # what reached third party code
        self.warns = []
        self.cb = 0                      # user callback evaluations
        self.cb_plan = {}                # index -> action
        self.solver_plan = []            # one entry per solver call
        self.solver_calls = 0
        self.faults = []                 # faults that fired in here
        self.injected = []               # injected exception objects
        self.hook = None                 # called by 'hook' triggers

    def _stop(self):
        return self.next if 0 <= self.next < self.budget else self.budget


class SimThread(object):

    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.baton = _real_alloc()
        self.baton.acquire()
        self.state = 'ready'
        self.ctx = []                    # stack of OpCtx (re-entrancy)
        self.top = None
        self.blocked_on = None


class Kernel(object):
    """One instance per run (runs live in forked children)."""

    def __init__(self):
        self.cur = None
        self.threads = []
        self.log = []
        self.steps = 0                   # logical clock of the run
        self.switches = 0
        self.interleaving = hashlib.blake2b(digest_size=8)
        self.aborted = None
        self.faults = {}
        self.probes = {}
        self.sites = {}                  # (code, line) -> id
        self.site_list = []
        self.at_switch = None            # callable invoked at every switch
        self.armed = {}                  # code -> [(thread, ctx, n, to)]

    # ---- logging -------------------------------------------------------
    def emit(self, *what):
        self.steps += 1
        self.log.append(' '.join(str(w) for w in what))

    def log_hash(self):
        h = hashlib.blake2b(digest_size=12)
        for line in self.log:
            h.update(line.encode())
            h.update(b'\n')
        return h.hexdigest()

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        t = self.cur
        if t is not None and t.top is not None:
            t.top.faults.append(kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ---- the line hook -------------------------------------------------
    def on_line(self, code, line):
        t = self.cur
        if t is None:
            return
        c = t.top
        if c is None:
            return
        n = c.n = c.n + 1
        tr = c.trace
        if tr is not None and n <= TRACE_CAP:
            key = (code, line)
            i = self.sites.get(key)
            if i is None:
                i = self.sites[key] = len(self.site_list)
                self.site_list.append(key)
            tr.append(i)
        if n >= c.stop:
            self._trigger(t, c, code, line)

    def _trigger(self, t, c, code, line):
        if self.aborted:
            raise SimAbort()
        if c.n >= c.budget:
            self.abort('budget', '%s: no completion within %d line events'
                       % (c.op, c.budget))
        if c.n < c.next or c.next < 0:
            return
        trig = c.triggers[c.ti]
        c.ti += 1
        c.next = (c.triggers[c.ti]["at"] if c.ti < len(c.triggers) else -1)
        if 0 <= c.next <= c.n:
            c.next = c.n + 1
        c.stop = c._stop()
        where = site_name(code, line)
        if trig["do"] == "switch":
            if trig.get("sub"):
                self.arm(t, c, code, trig)
            else:
                self.switch(trig.get("to", 0), where)
        elif trig["do"] == "raise":
            if not safe_stack():
                self.probe('fault_site_skipped')
                return
            kind = trig["exc"]
            self.fault('line_' + kind)
            self.emit('t%d' % t.tid, 'raise', kind, where)
            e = FAULT_EXC[kind]('injected at ' + where)
            c.injected.append(e)
            raise e
        elif trig["do"] == "hook":
            c.hook(trig, where)
        elif trig["do"] == "gc":
            self.fault('gc')
            gc.collect()

    # ---- preemption in the middle of a line ----------------------------
    def arm(self, t, c, code, trig):
        """Preempt after some more instructions of the same function."""
        if code not in self.armed:
            self.armed[code] = []
            MON.set_local_events(TOOL, code, LINE | INSTR)
        self.armed[code].append([t, c, trig["sub"], trig.get("to", 0)])

    def on_instruction(self, code, offset):
        t = self.cur
        for a in self.armed.get(code, ()):
            if a[0] is t and a[1] is t.top:
                a[2] -= 1
                if a[2] <= 0:
                    self.disarm(code, a)
                    self.probe('switch_within_line')
                    self.switch(a[3], '%s+%d' % (
                        code.co_filename[len(_root[0]):]+':' +
                        code.co_qualname, offset))
                return

    def disarm(self, code, a):
        self.armed[code].remove(a)
        if not self.armed[code]:
            del self.armed[code]
            MON.set_local_events(TOOL, code, LINE)

    # ---- scheduling ----------------------------------------------------
    def runnable(self):
        return [t for t in self.threads if t.state == 'ready']

    def switch(self, to, where):
        """Preempt the running thread in favour of another one."""
        me = self.cur
        others = [t for t in self.threads
                  if t.state == 'ready' and t is not me]
        if not others:
            return False
        nxt = others[to % len(others)]
        self._hand_over(me, nxt, where)
        return True

    def _hand_over(self, me, nxt, where):
        self.switches += 1
        self.emit('switch', 't%d' % me.tid, '->', 't%d' % nxt.tid, where)
        self.interleaving.update(
            ('%d>%d@%s;' % (me.tid, nxt.tid, where)).encode())
        if self.at_switch is not None:
            self.at_switch(me, nxt, where)
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.aborted:
            raise SimAbort()

    def block(self, lock):
        """The running thread cannot proceed until ``lock`` is released."""
        me = self.cur
        while lock.owner is not None:
            me.state = 'blocked'
            me.blocked_on = lock
            ready = self.runnable()
            if not ready:
                self.abort('deadlock', 'every caller is blocked on a lock')
            self.probe('blocked_on_lock')
            nxt = ready[0]
            for t in ready:
                if t.tid > me.tid:
                    nxt = t
                    break
            self._hand_over(me, nxt, 'lock')

    def unblock(self, lock):
        for t in self.threads:
            if t.state == 'blocked' and t.blocked_on is lock:
                t.state = 'ready'
                t.blocked_on = None

    def abort(self, kind, detail):
        if not self.aborted:
            self.aborted = (kind, detail)
            self.emit('abort', kind, detail)
        raise SimAbort()

    def run_threads(self, bodies, first=0):
        """Run callables as simulated threads; returns when all are done."""
        self.threads = [SimThread(i, b) for i, b in enumerate(bodies)]
        done = _real_alloc()
        done.acquire()
        errors = []

        def main(t):
            t.baton.acquire()
            try:
                if not self.aborted:
                    t.body(t)
            except SimAbort:
                pass
            except BaseException as e:      # harness error
                errors.append(e)
                if not self.aborted:
                    self.aborted = ('harness', repr(e))
            t.state = 'done'
            t.top = None
            if self.aborted:
                for o in self.threads:
                    if o.state == 'blocked':
                        o.state = 'ready'
            nxt = [o for o in self.threads if o.state == 'ready']
            if nxt:
                after = [o for o in nxt if o.tid > t.tid]
                n = (after or nxt)[0]
                self.emit('end', 't%d' % t.tid, '->', 't%d' % n.tid)
                self.cur = n
                n.baton.release()
            elif any(o.state == 'blocked' for o in self.threads):
                if not self.aborted:
                    self.aborted = ('deadlock', 'callers blocked for ever on '
                                    'a lock that was never released')
                o = [o for o in self.threads if o.state == 'blocked'][0]
                o.state = 'ready'
                self.cur = o
                o.baton.release()
            else:
                self.cur = None
                done.release()

        ths = []
        for t in self.threads:
            th = threading.Thread(target=main, args=(t,), daemon=True)
            th.start()
            ths.append(th)
        start = self.threads[first % len(self.threads)]
        self.cur = start
        start.baton.release()
        done.acquire()
        for th in ths:
            th.join()
        if errors:
            raise errors[0]

    # ---- one operation -------------------------------------------------
    def call(self, ctx, fn):
        """Run fn as the operation ctx of the current thread.

        Returns (kind, value) with kind 'ok' or 'exc'.
        """
        t = self.cur
        t.ctx.append(t.top)
        t.top = ctx
        try:
            try:
                return ('ok', fn())
            except SimAbort:
                raise
            except BaseException as e:
                return ('exc', e)
        finally:
            t.top = t.ctx.pop()


K = None                                  # the kernel of the running process


def install(kernel):
    global K
    K = kernel
    MON.register_callback(TOOL, LINE, kernel.on_line)
    MON.register_callback(TOOL, INSTR, kernel.on_instruction)


def solo(kernel, body):
    """Run body() as the only simulated thread, in the calling thread.

    None if the run has been given up (see kernel.aborted).
    """
    t = SimThread(0, None)
    kernel.threads = [t]
    kernel.cur = t
    t.state = 'ready'
    try:
        return body(t)
    except SimAbort:
        if not kernel.aborted:
            raise
    finally:
        kernel.cur = None


# ---- monitored code ----------------------------------------------------

def code_objects(prefix):
    """All the live code objects coming from files below prefix."""
    seen = set()
    todo = []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            c = o.__code__
            if c.co_filename.startswith(prefix):
                todo.append(c)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                todo.append(k)
    return seen


_root = ['']
_monitored = set()


def monitor(prefix):
    """Turn line events on for the code below prefix (idempotent)."""
    _root[0] = prefix
    try:
        MON.use_tool_id(TOOL, 'pydsm-sim')
    except ValueError:
        pass
    for c in code_objects(prefix):
        if c not in _monitored:
            _monitored.add(c)
            MON.set_local_events(TOOL, c, LINE)
    return len(_monitored)


def watch(code):
    """Turn line events on for a code object and what it contains."""
    if code not in _monitored:
        _monitored.add(code)
        MON.set_local_events(TOOL, code, LINE)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            watch(c)


def site_name(code, line):
    return '%s:%s:%d' % (code.co_filename[len(_root[0]):], code.co_qualname,
                         line)


# ---- lines where no exception is injected ------------------------------
# Handlers, finally blocks, the heads of try and with statements and context
# manager methods: an interrupt there can defeat any cleanup, however careful.

_unsafe = {}


def _unsafe_lines(filename):
    bad = set()
    try:
        with open(filename, 'rb') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return bad

    def add(nodes):
        for n in nodes:
            for s in ast.walk(n):
                if hasattr(s, 'lineno'):
                    bad.update(range(s.lineno, (s.end_lineno or s.lineno)+1))

    for node in ast.walk(tree):
        if isinstance(node, ast.Try):
            bad.add(node.lineno)
            add(node.finalbody)
            for h in node.handlers:
                bad.add(h.lineno)
                add(h.body)
        elif isinstance(node, ast.With):
            bad.update(range(node.lineno, node.body[0].lineno))
            bad.add(node.lineno)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            cm = any('contextmanager' in ast.dump(d)
                     for d in node.decorator_list)
            if cm or node.name in ('__enter__', '__exit__', '__del__'):
                add(node.body)
    return bad


def safe_site(code, line):
    f = code.co_filename
    if f not in _unsafe:
        _unsafe[f] = _unsafe_lines(f)
    return line not in _unsafe[f]


def warm(root):
    """Analyse the sources once, before the forks."""
    import os
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                safe_site(types.SimpleNamespace(
                    co_filename=os.path.join(d, f)), 1)


def safe_stack():
    """No frame of the package below is in a handler or cleanup section."""
    f = sys._getframe(3)
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(_root[0]) and \
                f.f_lineno is not None and not safe_site(c, f.f_lineno):
            return False
        f = f.f_back
    return True


# ---- locks and sleeps of the code under test ---------------------------

class SimLock(object):
    """Stands in for the locks that the code under test creates."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def _me(self):
        return K.cur if K is not None and K.cur is not None else self

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner is not None and not (self.reentrant
                                           and self.owner is me):
            if not blocking or timeout == 0:
                return False
            if me is self:
                raise RuntimeError('lock already held outside of a run')
            if timeout is not None and timeout > 0:
                K.switch(0, 'lock timeout')
                if self.owner is not None:
                    return False
            else:
                K.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if K is not None:
                K.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


def _from_target():
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return False
        if _root[0] and f.f_code.co_filename.startswith(_root[0]):
            return True
        f = f.f_back
    return False


def _Lock(*a, **k):
    return SimLock() if _from_target() else _real_Lock(*a, **k)


def _RLock(*a, **k):
    return SimLock(True) if _from_target() else _real_RLock(*a, **k)


def _sleep(s):
    if _from_target():
        if K is not None and K.cur is not None:
            K.switch(0, 'sleep')
        return
    _real_sleep(s)


def patch_threading(prefix):
    _root[0] = prefix
    threading.Lock = _Lock
    threading.RLock = _RLock
    time.sleep = _sleep


# ---- resolving relative positions against a reference trace ------------

def resolve(ref, site, occ, raising=False, tree=False):
    """Pick an event index in the reference trace of an operation.

    The occ-th fraction of the occurrences of the site-th distinct line; with
    ``tree`` the function is picked first, then the line in it, so that short
    functions are not drowned by long ones.  Fractions are in [0, 1).
    """
    trace = ref["trace"]
    if not len(trace):
        return None
    order = ref.get("_order")
    if order is None:
        order = ref["_order"] = list(dict.fromkeys(trace))
    lines = order
    if raising:
        safe = ref["safe"]
        lines = [i for i in order if safe[i]]
    if not lines:
        return None
    if tree:
        groups = {}
        for i in lines:
            groups.setdefault(ref["sites"][i].rsplit(':', 1)[0],
                              []).append(i)
        keys = list(groups)
        x = site*len(keys)
        g = groups[keys[int(x) % len(keys)]]
        sid = g[int((x-int(x))*len(g)) % len(g)]
    else:
        sid = lines[int(site*len(lines)) % len(lines)]
    pos = [n for n, i in enumerate(trace) if i == sid]
    return pos[int(occ*len(pos)) % len(pos)] + 1
