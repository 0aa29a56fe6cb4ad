"""The simulator: seams, simulated processes (nodes), preemptive task scheduler, fault injection.

Everything a run does is a function of its plan (a JSON value) and of the code in /repo.
"""
import builtins
import dis
import hashlib
import hmac
import importlib.abc
import importlib.util
import io
import os
import random
import sys
import threading
import time
import types
import _thread
from collections import Counter

from . import ref, touch

REPO = os.environ.get('BITFORGE_REPO', '/repo')
PKG = os.path.join(REPO, 'bitforge')

# functions the harness itself keeps using
REAL = types.SimpleNamespace(
    urandom=os.urandom, time=time.time, monotonic=time.monotonic, perf=time.perf_counter,
    time_ns=time.time_ns, monotonic_ns=time.monotonic_ns, perf_ns=time.perf_counter_ns,
    open=builtins.open, Lock=threading.Lock, RLock=threading.RLock, getpid=os.getpid,
    sha256=hashlib.sha256,
)


# ---------------------------------------------------------------------------------------------
# outcomes

class Violation(Exception):
    """The code under test broke the property.  `cls` groups equal failures for minimisation."""

    def __init__(self, cls, detail):
        super().__init__('%s: %s' % (cls, detail))
        self.cls, self.detail = cls, detail


class HarnessError(Exception):
    """The simulator (not the code under test) is wrong."""


class BadPlan(Exception):
    """A plan made by the minimiser that does not make sense."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The step limit of an operation was exceeded."""


class SimAlarm(Exception):
    """An application's own asynchronous exception (a timeout raised from a signal handler)."""


class SimHashError(ValueError):
    """The hash implementation failed (a ValueError, as hashlib raises for a digest the platform does not offer)."""


FAULT_EXC = {
    'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'alarm': SimAlarm, 'crash': SimCrash,
}


def aim(fault, span):
    """(kind, fraction) of a plan -> (kind, event number), or for a quarter of the fractions (kind, -k): the k-th access
    to shared or lasting state"""
    kind, frac = fault
    q = int(frac * 10000)
    if kind in FAULT_EXC and q % 4 == 0:
        return kind, -(1 + q // 4 % 7)
    return kind, 1 + int(frac * span)


# ---------------------------------------------------------------------------------------------
# Execution context of the running task.  Exactly one task runs at any moment, so a module
# global holds it; the monitoring callback is on the hot path and reads nothing else.

class Ctx:
    __slots__ = ('n', 'next', 'fire_at', 'fire', 'limit', 'switch_at', 'sched', 'task', 'fired',
                 'hash_n', 'hash_fail', 'ent_n', 'ent_fail', 'ent_exc', 'entropy', 'draws', 'where', 'lock_ok',
                 'hot', 'touches', 'touch_switch', 'touch_fire', 'touched')

    def __init__(self, task=None):
        self.task = task
        self.sched = None
        self.switch_at = INF
        self.n = 0
        self.lock_ok = True
        self.ent_exc = 'os'
        self.touch_switch = 0
        self.touched = None
        self.reset()

    def reset(self, fire=None, at=None, limit=None, entropy=None, count=False):
        """Arm for one operation.  fire: fault kind; at: event number within the operation, or -k for its k-th
        access to shared or lasting state (see touch.py); count: count those accesses."""
        self.switch_at -= self.n if self.switch_at != INF else 0
        self.n = 0
        self.fired = None
        self.fire = fire if fire in FAULT_EXC else None
        self.fire_at = at if self.fire and at > 0 else INF
        self.touches = 0
        self.touch_fire = -at if self.fire and at < 0 else 0
        self.hot = bool(count or self.touch_fire or self.touch_switch)
        self.limit = limit or INF
        self.hash_n = self.ent_n = 0
        self.hash_fail = at if fire == 'hash' else INF
        self.ent_fail = at if fire == 'entropy' else INF
        self.entropy = entropy
        self.draws = []
        self.where = None
        self.rearm()

    def rearm(self):
        self.next = min(self.fire_at, self.limit, self.switch_at)


INF = 1 << 60
CUR = None            # the running context, or None while harness code runs


def _on_event(code, arg):
    c = CUR
    if c is None:
        return
    c.n += 1
    if c.hot and arg in TOUCH.get(id(code), ()):
        _touch(c, code)
    if c.n >= c.next:
        _slow(c, code, arg)


TOUCH = {}            # id of code object -> lines or offsets of interest, for the current granularity


def _touch(c, code):
    c.touches += 1
    if c.touched is not None:
        c.touched.add(id(code))
    if c.touch_switch:
        c.touch_switch -= 1
        if not c.touch_switch:
            c.switch_at = c.n
    if c.touch_fire:
        c.touch_fire -= 1
        if not c.touch_fire:
            c.fire_at = c.n
    c.rearm()


SHELTERED = {}


def _sheltered(code):
    """Offsets at which no asynchronous exception can surface in CPython, and so where none is raised here:
    between the last call of a try or with body and the first call of its clean-up (the interpreter looks for
    signals after calls and backward jumps only), and between taking a lock by acquire() and entering the try."""
    s = SHELTERED.get(code)
    if s is not None:
        return s
    regions = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]
    s = set()
    if regions:
        ins = list(dis.get_instructions(code))
        cover = lambda o: frozenset(e for e in regions if e[0] <= o < e[1])
        entry = {e[2] for e in regions}
        inside = after_acquire = False
        name = None
        for i, x in enumerate(ins):
            if x.offset in entry or i and cover(ins[i - 1].offset) - cover(x.offset):
                inside = True                   # a body just ended, or a handler begins
            if after_acquire and x.opname not in ('POP_TOP', 'NOP', 'STORE_FAST'):
                after_acquire = False
            if inside or after_acquire:
                s.add(x.offset)
            if x.opname == 'LOAD_ATTR':
                name = x.argval
            if x.opname.startswith('CALL') or x.opname in ('WITH_EXCEPT_START', 'JUMP_BACKWARD', 'BEFORE_WITH'):
                inside = False
                after_acquire = name in ('acquire', '__enter__') and x.opname.startswith('CALL')
                name = None
    SHELTERED[code] = frozenset(s)
    return SHELTERED[code]


def _slow(c, code, arg):
    if c.n >= c.switch_at:
        c.sched.preempt(c, code, arg)
    if c.n >= c.fire_at and sys._getframe(2).f_lasti in _sheltered(code):
        c.fire_at = c.n + 1
    elif c.n >= c.fire_at:
        c.fire_at = INF
        c.fired = c.fire
        c.where = '%s:%s' % (code.co_qualname, arg)
        c.rearm()
        raise FAULT_EXC[c.fire]()
    if c.n >= c.limit:
        c.where = '%s:%s' % (code.co_qualname, arg)
        c.limit = INF
        c.rearm()
        raise SimHang('step limit at ' + c.where)
    c.rearm()


# ---------------------------------------------------------------------------------------------
# seams: hashing, entropy, clock, locks

def _hash_seam(orig, name):
    def wrapper(*a, **k):
        c = CUR
        if c is not None:
            c.hash_n += 1
            if c.hash_n == c.hash_fail:
                c.fired = 'hash'
                raise SimHashError('simulated %s failure' % name)
        return orig(*a, **k)
    wrapper.__name__ = name
    return wrapper


class EntropyError(OSError):
    pass


BOOT_DRAWS = [0]         # entropy used while a process starts: deterministic, different every time


def boot_entropy(n):
    BOOT_DRAWS[0] += 1
    return Entropy({'pre': [], 'seed': 'boot%d' % BOOT_DRAWS[0]})(n)


def default_entropy():
    BOOT_DRAWS[0] += 1
    return Entropy({'pre': [], 'seed': 'op%d' % BOOT_DRAWS[0]})


class Entropy:
    """The byte stream of the simulated random source: given bytes first, then a seeded stream."""

    def __init__(self, spec):
        self.buf = bytearray(b''.join(bytes.fromhex(x) for x in spec.get('pre') or []))
        self.seed, self.k = str(spec.get('seed')).encode(), 0

    def __call__(self, n):
        while len(self.buf) < n:
            self.buf += REAL.sha256(self.seed + b'/%d' % self.k).digest()
            self.k += 1
        r = bytes(self.buf[:n])
        del self.buf[:n]
        return r


def _urandom(n):
    c = CUR
    if c is None:
        return boot_entropy(n) if BOOTING[0] else REAL.urandom(n)
    c.ent_n += 1
    if c.ent_n == c.ent_fail:
        c.fired = 'entropy'
        if c.ent_exc == 'notimpl':
            raise NotImplementedError('simulated: no random source')
        if c.ent_exc == 'blocking':
            raise BlockingIOError(11, 'simulated: random source not ready')
        raise EntropyError(5, 'simulated random source failure')
    if c.entropy is None:
        c.entropy = default_entropy()
    if c.ent_n > 3000:
        raise SimHang('random source polled without end')
    b = c.entropy(n)
    c.draws.append(b)
    return b


class _UrandomFile(io.RawIOBase):
    def readable(self): return True
    def readinto(self, buf):
        buf[:] = _urandom(len(buf))
        return len(buf)


def _open(file, *a, **k):
    if (CUR is not None or BOOTING[0]) and file in ('/dev/urandom', '/dev/random'):
        return _UrandomFile()
    return REAL.open(file, *a, **k)


CLOCK = [1_400_000_000_000_000]      # simulated microseconds, read by the code under test


def _clock(real, f):
    def clock(): return f() if CUR is not None else real()
    return clock


class SimLock:
    """threading.Lock/RLock whose waiters yield to the simulator instead of blocking the process."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.re = None, 0, reentrant

    def _me(self):
        return CUR.task if CUR is not None and CUR.task is not None else ('main', _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        spins = 0
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking or timeout == 0:
                return False
            spins += 1
            c = CUR
            if c is None or c.sched is None or spins > 5000:
                raise SimHang('deadlock: lock never released')
            c.sched.yield_(c, 50 << min(spins // 16, 40))      # ever longer: the holder may have much left to do
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0

    def locked(self): return self.owner is not None
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


def _lock_seam(real, re):
    def make():
        # locks made by the code under test (or while it runs) are simulated
        f = sys._getframe(1)
        if CUR is not None or BOOTING[0] or f.f_code.co_filename.startswith(PKG):
            return SimLock(re)
        return real()
    return make


BOOTING = [False]
_installed = [False]


def install():
    """Put the seams in place (once per process)."""
    if _installed[0]:
        return
    _installed[0] = True
    sys.unraisablehook = lambda u: None          # faults that land in a finaliser are dropped by Python
    sys.setswitchinterval(60)     # the interpreter itself never preempts: only the plan does
    for name in ('sha256', 'sha1', 'sha512', 'sha224', 'sha384', 'md5', 'new'):
        setattr(hashlib, name, _hash_seam(getattr(hashlib, name), name))
    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    builtins.open = _open
    time.time = _clock(REAL.time, lambda: CLOCK[0] / 1e6)
    time.time_ns = _clock(REAL.time_ns, lambda: CLOCK[0] * 1000)
    time.monotonic = _clock(REAL.monotonic, lambda: CLOCK[0] / 1e6)
    time.monotonic_ns = _clock(REAL.monotonic_ns, lambda: CLOCK[0] * 1000)
    time.perf_counter = _clock(REAL.perf, lambda: CLOCK[0] / 1e6)
    time.perf_counter_ns = _clock(REAL.perf_ns, lambda: CLOCK[0] * 1000)
    os.getpid = lambda: 4242 if CUR is not None else REAL.getpid()
    threading.Lock = _lock_seam(REAL.Lock, False)
    threading.RLock = _lock_seam(REAL.RLock, True)
    m = sys.monitoring
    m.use_tool_id(TOOL, 'bitforge-sim')
    m.register_callback(TOOL, m.events.LINE, _on_event)
    m.register_callback(TOOL, m.events.INSTRUCTION, _on_event)
    sys.meta_path.insert(0, Finder())


TOOL = 3


# ---------------------------------------------------------------------------------------------
# nodes: private instances of the bitforge package

class _Code:
    cache = {}         # fullname -> (code, path, is_pkg)
    codes = {}         # fullname -> [code objects]
    sources = {}       # fullname -> text
    points = None      # id of code object -> (lines, offsets) worth switching or failing at
    touch_mode = None
    names = {}         # id of code object -> (module, qualified name)
    mode = {}          # fullname -> events currently set

    @classmethod
    def get(cls, fullname):
        if fullname in cls.cache:
            return cls.cache[fullname]
        parts = fullname.split('.')
        base = os.path.join(REPO, *parts)
        for path, is_pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(path):
                with REAL.open(path, 'rb') as f:
                    text = f.read()
                code = compile(text, path, 'exec', dont_inherit=True)
                cls.sources[fullname] = text
                cls.cache[fullname] = (code, path, is_pkg)
                todo, all_ = [code], []
                while todo:
                    c = todo.pop()
                    all_.append(c)
                    todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
                cls.codes[fullname] = all_
                return cls.cache[fullname]
        return None

    @classmethod
    def survey(cls):
        """all modules at once, so that what a run does never depends on which modules earlier runs imported"""
        top = os.path.join(REPO, 'bitforge')
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].split(os.sep)
                    try:
                        cls.get('.'.join(rel[:-1] if rel[-1] == '__init__' else rel))
                    except (SyntaxError, ValueError, OSError):
                        pass
        try:
            pkg = touch.Package(cls.sources)
            cls.points = {id(c): pkg.points(m, c) for m, codes in cls.codes.items() for c in codes}
            cls.points = {k: v for k, v in cls.points.items() if v[0]}
            cls.names = {id(c): (m, c.co_qualname) for m, codes in cls.codes.items() for c in codes}
        except (RecursionError, AttributeError, TypeError, ValueError, SyntaxError):
            cls.points = {}                    # a matter of where to look first, nothing else


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'bitforge' and not fullname.startswith('bitforge.'):
            return None
        c = _Code.get(fullname)
        if c is None:
            return None
        spec = importlib.util.spec_from_loader(fullname, self, origin=c[1], is_package=c[2])
        spec.has_location = True
        if c[2]:
            spec.submodule_search_locations = [os.path.dirname(c[1])]
        return spec

    def create_module(self, spec): return None

    def exec_module(self, module):
        exec(_Code.get(module.__name__)[0], module.__dict__)


# modules whose inner loops run hundreds of thousands of lines per key: not preemption points
# unless a run asks for depth
HOT = ('bitforge.utils.ellipticcurve', 'bitforge.utils.numbertheory')


FOCUS = [None]        # the functions whose accesses count (frozenset of (module, name)), or None for all


def set_granularity(mode):
    """'line': every line outside the curve arithmetic; 'deep': also there; 'instr': every bytecode
    instruction outside it; 'off'."""
    global TOUCH
    m = sys.monitoring
    E = m.events
    if _Code.points is None:
        _Code.survey()
    if _Code.touch_mode != (mode == 'instr', FOCUS[0]):
        _Code.touch_mode = (mode == 'instr', FOCUS[0])
        TOUCH = {k: v[mode == 'instr'] for k, v in _Code.points.items() if FOCUS[0] is None or _Code.names[k] in FOCUS[0]}
    for name, codes in _Code.codes.items():
        hot = name in HOT
        want = {'off': 0, 'line': 0 if hot else E.LINE, 'deep': E.LINE,
                'instr': 0 if hot else E.INSTRUCTION}[mode]
        if _Code.mode.get(name, 0) != want:
            for c in codes:
                m.set_local_events(TOOL, c, want)
            _Code.mode[name] = want


ACTIVE = [None]


class Node:
    """One simulated process running bitforge."""

    def __init__(self, fast_ec=True, pyseed=12345):
        BOOTING[0] = True
        try:
            for k in [k for k in sys.modules if k == 'bitforge' or k.startswith('bitforge.')]:
                del sys.modules[k]
            random.seed(pyseed)
            import bitforge                                    # served by Finder
            for extra in ('tools', 'errors', 'encoding', 'signature', 'script.interpreter', 'script.opcode', 'utils'):
                __import__('bitforge.' + extra)
            self.mods = {k: v for k, v in sys.modules.items() if k == 'bitforge' or k.startswith('bitforge.')}
        finally:
            BOOTING[0] = False
        ACTIVE[0] = self
        self.bf = self.mods['bitforge']
        self.fast_ec = fast_ec and fast_point(self.mods)
        M = self.mods
        self.Error = M['bitforge.errors'].BitforgeError
        self.Buffer = M['bitforge.tools'].Buffer
        self.InsufficientData = self.Buffer.InsufficientData
        self.Interpreter = M['bitforge.script.interpreter'].Interpreter
        self.enc = M['bitforge.encoding']
        self.networks = M['bitforge.networks']
        s = M['bitforge.script']
        for n in ('PayToPubkeyIn', 'PayToPubkeyOut', 'PayToScriptIn', 'PayToScriptOut', 'RedeemMultisig', 'OpReturnOut'):
            setattr(self, n, getattr(s, n))
        for n in ('PrivateKey', 'PublicKey', 'HDPrivateKey', 'HDPublicKey', 'Address', 'Script', 'Opcode', 'Instruction',
                  'Input', 'AddressInput', 'ScriptInput', 'MultisigInput', 'Output', 'AddressOutput', 'ScriptOutput',
                  'MultisigOutput', 'DataOutput', 'Transaction', 'Unit', 'URI'):
            setattr(self, n, getattr(self.bf, n))

    def activate(self):
        if ACTIVE[0] is not self:
            for k in [k for k in sys.modules if k == 'bitforge' or k.startswith('bitforge.')]:
                if k not in self.mods:
                    del sys.modules[k]
            sys.modules.update(self.mods)
            ACTIVE[0] = self


def _fast_mul(real, ctor, inf):
    """Point multiplication stub: same value through the reference curve; anything unusual goes to
    the real code."""
    def __mul__(self, other):
        try:
            x, y = self.x(), self.y()
            if isinstance(other, int) and other > 0 and self.curve().p() == ref.P and x is not None:
                q = ref.mul(other, (x, y % ref.P))
                if q is not None:
                    return ctor(self.curve(), q[0], q[1])
                if inf is not None:
                    return inf
        except (AttributeError, TypeError):
            pass
        return real(self, other)
    return __mul__


def fast_point(mods):
    try:
        Point = mods['bitforge.utils.ellipticcurve'].Point
        real = Point.__mul__
        Point.__mul__ = _fast_mul(real, Point, getattr(mods['bitforge.utils.ellipticcurve'], 'INFINITY', None))
        return True
    except (KeyError, AttributeError):
        return False


_ecdsa_real = [None]


def fast_ecdsa(on):
    """The third-party ecdsa package's point multiplication: stub (fast) or real."""
    import ecdsa
    Point = ecdsa.ellipticcurve.Point
    if _ecdsa_real[0] is None:
        _ecdsa_real[0] = Point.__mul__
    Point.__mul__ = _fast_mul(_ecdsa_real[0], Point, ecdsa.ellipticcurve.INFINITY) if on else _ecdsa_real[0]


# ---------------------------------------------------------------------------------------------
# one operation, possibly cut short

class Out:
    """Outcome of one operation: kind 'ok' (value), 'raise' (exc), 'crash'."""
    __slots__ = ('kind', 'value', 'exc', 'fired', 'n', 'hash_n', 'ent_n', 'draws', 'where', 'touches')

    def __repr__(self):
        if self.kind == 'ok':
            return 'returned %s' % short(self.value)
        if self.kind == 'raise':
            return 'raised %s(%s)' % (type(self.exc).__name__, short(str_exc(self.exc)))
        return self.kind


def str_exc(e):
    try:
        return str(e)
    except Exception as x:                # a broken __str__ is the property's business, not ours
        return '<str() raised %s>' % type(x).__name__


def short(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


STEP_LIMIT = 60_000_000     # far above any legitimate operation (a 70000-opcode script: 3 million lines; see also runner.make_plan)


def run_op(ctx, node, fn, fault=None, entropy=None, limit=STEP_LIMIT, count=False):
    """Run fn() as one operation of the task `ctx` on `node`.  fault: None or (kind, at)."""
    global CUR
    ctx.reset(fault[0] if fault else None, fault[1] if fault else None, limit, entropy, count)
    node.activate()
    o = Out()
    o.value = o.exc = None
    prev = CUR
    CUR = ctx
    try:
        o.value = fn()
        o.kind = 'ok'
    except SimCrash:
        o.kind = 'crash'
    except SimHang as e:
        CUR = prev
        raise Violation('hang', 'operation did not end: %s' % e)
    except (SystemExit, GeneratorExit):
        raise
    except KeyboardInterrupt as e:
        if ctx.fired != 'interrupt':
            raise
        o.kind, o.exc = 'raise', e
    except BaseException as e:
        o.kind, o.exc = 'raise', e
    finally:
        CUR = prev
    o.fired, o.n, o.hash_n, o.ent_n, o.draws, o.where = ctx.fired, ctx.n, ctx.hash_n, ctx.ent_n, ctx.draws, ctx.where
    o.touches = ctx.touches
    return o


# ---------------------------------------------------------------------------------------------
# scheduler: tasks are real threads, released one at a time

class Sched:
    """Runs tasks under a plan.  sched: list of [quantum, pick]; after it is used up the tasks run to
    completion one after the other.  A quantum counts monitored events (lines) of the running task; a negative
    one counts its accesses to shared or lasting state."""

    def __init__(self, sim, sched):
        self.sim, self.sched, self.si = sim, sched, 0
        self.tasks, self.live = [], []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.err = None
        self.switches = 0

    def add(self, name, fn):
        t = types.SimpleNamespace(name=name, fn=fn, lock=_thread.allocate_lock(), ctx=None)
        t.lock.acquire()
        t.ctx = Ctx(task=t.name)
        t.ctx.sched = self
        self.tasks.append(t)

    def _quantum(self):
        """next (quantum, task)"""
        if self.si < len(self.sched):
            q, p = self.sched[self.si]
            self.si += 1
            return int(q) if q < 0 else max(1, int(q)), self.live[int(p) % len(self.live)]
        return INF, self.live[0]

    def run(self):
        self.live = list(self.tasks)
        if not self.live:
            return
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for th in ths:
            th.start()
        self._dispatch(None)
        self.main.acquire()
        for th in ths:
            th.join()
        if self.err is not None:
            raise self.err

    def _dispatch(self, cur):
        """choose who runs next; returns True when the current task keeps running"""
        q, t = self._quantum()
        t.ctx.switch_at = t.ctx.n + q if 0 < q < INF else INF
        t.ctx.touch_switch = -q if q < 0 else 0
        t.ctx.hot = t.ctx.hot or q < 0
        t.ctx.rearm()
        if t is cur:
            return True
        self.switches += 1
        t.lock.release()
        return False

    def _body(self, t):
        global CUR
        t.lock.acquire()
        CUR = None
        try:
            if self.err is None:
                t.fn(t.ctx)
        except BaseException as e:
            if self.err is None:
                self.err = e
        CUR = None
        self.live.remove(t)
        if self.live:
            self._dispatch(None)
        else:
            self.main.release()

    def preempt(self, c, code, arg):
        global CUR
        t = next(x for x in self.live if x.ctx is c)
        c.switch_at = INF
        if len(self.live) == 1:
            if self.si >= len(self.sched):
                return
        self.sim.note_switch(t.name, code.co_qualname, arg)
        if self._dispatch(t):
            return
        node = ACTIVE[0]
        t.lock.acquire()
        CUR = c
        if self.err is not None:
            raise SimCrash()              # the run is over: unwind
        node.activate()

    def yield_(self, c, quantum):
        """give up the processor (waiting for a lock)"""
        global CUR
        t = next(x for x in self.live if x.ctx is c)
        if len(self.live) == 1:
            raise SimHang('deadlock: lock never released')
        nxt = self.live[(self.live.index(t) + 1) % len(self.live)]      # in turn: whoever holds the lock gets to run
        c.switch_at = INF
        c.touch_switch = nxt.ctx.touch_switch = 0
        nxt.ctx.switch_at = nxt.ctx.n + quantum
        nxt.ctx.rearm()
        self.switches += 1
        node = ACTIVE[0]
        nxt.lock.release()
        t.lock.acquire()
        CUR = c
        if self.err is not None:
            raise SimCrash()
        node.activate()


# ---------------------------------------------------------------------------------------------
# the run

class Sim:
    """One simulated run: log, statistics, clock, event queue, nodes."""

    def __init__(self, cfg=None):
        cfg = cfg or {}
        install()
        self.cfg = cfg
        self.stats = Counter()        # faults fired, probes hit
        self.checks = 0               # oracle evaluations
        self.log_hash = REAL.sha256()
        self.switch_hash = REAL.sha256()
        self.log_n = 0
        self.keep = cfg.get('_keep_log')
        self.lines = []
        self.states = set()
        self.now = 0                  # simulated microseconds
        self.q, self.qn = [], 0
        self.known = []
        CLOCK[0] = 1_400_000_000_000_000
        FOCUS[0] = None
        BOOT_DRAWS[0] = 0
        fast_ecdsa(not cfg.get('real_ec'))
        self.fast = not cfg.get('real_ec')
        self.gran = cfg.get('gran', 'line')
        self.ctx = Ctx()
        self.boots = self.worn = 0

    # -- log (never draws randomness, never reads a real clock)
    def log(self, *a):
        s = ' '.join(x if isinstance(x, str) else repr(x) for x in a)
        self.log_n += 1
        self.log_hash.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        if self.keep:
            self.lines.append('[%d] %s' % (self.now, s))

    def note_switch(self, task, qual, arg):
        s = '%s@%s:%s' % (task, qual, arg)
        self.switch_hash.update(s.encode())
        self.stats['preemptions'] += 1
        self.log('switch', s)

    def state(self, *a):
        """record a distinct situation reached (coverage measure)"""
        self.states.add(hash_small(a))

    def probe(self, name): self.stats['probe:' + name] += 1

    def fault(self, kind):
        self.stats['fault:' + kind] += 1
        self.log('fault', kind)

    # -- nodes
    def boot(self, worn=False):
        """worn: a long-lived process, which has done much already when the plan says so (at most two per run)"""
        self.boots += 1
        n = Node(fast_ec=self.fast)
        set_granularity(self.gran)
        if worn and self.cfg.get('wear') and self.worn < 2:
            self.worn += 1
            from . import wear
            wear.wear(self, n, self.cfg['_prop'], self.cfg['wear'])
        return n

    # -- operations from the main task
    def op(self, node, fn, fault=None, entropy=None, limit=STEP_LIMIT, count=False):
        o = run_op(self.ctx, node, fn, fault, entropy, limit, count)
        if o.fired:
            self.fault(o.fired)
        self.log('op', o.kind, o.n, o.hash_n, type(o.exc).__name__ if o.exc is not None else '')
        return o

    def need(self, node, what, fn, entropy=None):
        """an undisturbed operation on valid arguments must succeed"""
        o = self.op(node, fn, entropy=entropy)
        if o.kind != 'ok':
            raise Violation('valid-op-failed', '%s %r' % (what, o))
        return o.value

    def check(self, cond, cls, detail):
        self.checks += 1
        if not cond:
            raise Violation(cls, detail() if callable(detail) else detail)

    # -- discrete-event queue
    def after(self, delay, f, *a):
        import heapq
        self.qn += 1
        heapq.heappush(self.q, (self.now + max(0, int(delay)), self.qn, f, a))

    def drain(self, max_events=20000, until=None):
        import heapq
        k = 0
        while self.q:
            if until is not None and self.q[0][0] > until:
                self.now = until
                return
            t, _, f, a = heapq.heappop(self.q)
            self.now = t
            CLOCK[0] = 1_400_000_000_000_000 + t
            f(*a)
            k += 1
            if k > max_events:
                raise HarnessError('event queue does not drain')

    def digest(self):
        return self.log_hash.hexdigest()[:32]


def hash_small(x):
    return REAL.sha256(repr(x).encode('utf-8', 'backslashreplace')).hexdigest()[:12]


# ---------------------------------------------------------------------------------------------
# views: plain-data pictures of library values

def view(x, depth=0):
    if depth > 12:
        return '...'
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return ['float', repr(x)]
    if isinstance(x, (bytes, bytearray)):
        return ['bytes', bytes(x).hex()]
    import enum
    if isinstance(x, enum.Enum):
        return ['enum', x.name]
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        name = type(x).__name__
        if name == 'Network':
            return ['net', x.name]
        return [name] + [[f, view(getattr(x, f), depth + 1)] for f in x._fields]
    if isinstance(x, (list, tuple)):
        return ['seq'] + [view(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return ['dict'] + sorted(([view(k, depth + 1), view(v, depth + 1)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((view(v, depth + 1) for v in x), key=repr)
    if isinstance(x, type):
        return ['class', x.__name__]
    n = type(x).__name__
    if n == 'Opcode':
        return ['op', x.number]
    if n == 'Unit':
        return ['unit', x.satoshis]
    if n == 'URI':
        return ['uri', view(x.address), None if x.amount is None else x.amount.satoshis,
                view(getattr(x, 'label', None)), view(getattr(x, 'message', None)), view(getattr(x, 'r', None)),
                view(x.extras)]
    return ['obj', n]


def out_view(o):
    """comparable picture of an outcome"""
    if o.kind == 'ok':
        return ['ok', view(o.value)]
    if o.kind == 'raise':
        return ['raise', type(o.exc).__name__]
    return [o.kind]
