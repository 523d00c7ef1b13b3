"""The simulator.

Seams.  maxlike has no clock, no I/O and no threads of its own; what it does
meet in deployment is (a) the interpreter: any call can fail (MemoryError,
LinAlgError, FloatingPointError, an interrupt), (b) caller threads that share
model objects and estimators, (c) user supplied components called back in the
middle of a fit.  All of it goes through sys.monitoring (PEP 669) events local
to the code objects of maxlike, so no hook is needed in /repo:

  LINE      one tick of the virtual clock; every LINE is a possible preemption
            point for the baton scheduler
  CALL      a seam event: raising here is the callee failing at once
  PY_START  a seam event: raising here is the callee failing at its first step
  LINE with arithmetic / subscripts
            a seam event: raising here is the first numpy operation of the
            statement failing

Faults are never injected between two plain stores, where nothing can fail.

Exactly one client thread runs at a time (a baton is handed over); who runs
next is decided by a seeded policy and recorded as an explicit list of
(step, client) switches, which is what a replay file carries.
"""
import dis
import gc
import os
import random
import sys
import threading
import types

mon = sys.monitoring
EV = mon.events
TOOL = 3

CODES = []          # (code, name)
OPLINES = {}        # code -> set(lines having an operation that can fail)
_BIN = {'BINARY_OP', 'UNARY_NEGATIVE', 'UNARY_INVERT'}
TRIVIAL = set()     # code that cannot fail: it calls and computes nothing
# callables that cannot fail in a way worth simulating
SAFE = {setattr, getattr, hasattr, isinstance, len, type, super, object.__setattr__,
        range, zip, enumerate, abs, float, int, min, max, bool, print, id}
# calls that take back a setting: no cleanup survives its own loss
CLEANUP = {'__exit__', 'seterr', 'seterrcall', 'geterr', 'set_printoptions', 'setstate', 'set_state', 'setrecursionlimit',
           'release', 'close'}
SAFE_IDS = {id(x) for x in SAFE}
SAFE_M = {'update', 'items', 'values', 'keys', 'get', 'setdefault', 'pop', 'lower',
          '__setattr__', '__init__'}


def safe(callee):
    """a call at which no fault is injected"""
    if id(callee) in SAFE_IDS or getattr(callee, '__name__', '') in CLEANUP:
        return True
    c = getattr(callee, '__code__', None)
    if c is not None:
        return c in TRIVIAL
    return type(callee) in _BUILTIN and callee.__name__ in SAFE_M


_BUILTIN = (types.BuiltinMethodType, types.MethodDescriptorType,
            types.MethodWrapperType, types.WrapperDescriptorType)


class SimBudget(BaseException):
    """the run used up its budget of virtual time: no progress"""


class SimAbort(BaseException):
    """internal: unwinds a parked client"""


def instrument(prefix):
    seen = {}

    def walk(code):
        if code in seen or not code.co_filename.startswith(prefix):
            return
        seen[code] = '%s:%s' % (code.co_filename[len(prefix):], code.co_qualname)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            walk(o.__code__)
    # module bodies hold every function defined later (nested lambdas...)
    CODES[:] = sorted(seen.items(), key=lambda t: (t[1], t[0].co_firstlineno))
    for c, _ in CODES:
        lines, cur, calls = set(), None, False
        for ins in dis.get_instructions(c):
            if ins.starts_line is not None:
                cur = ins.starts_line
            if ins.opname.startswith('CALL'):
                calls = True
            if ins.opname in _BIN:
                lines.add(ins.positions.lineno or cur)
        OPLINES[c] = lines
        if not lines and not calls:
            TRIVIAL.add(c)
    names.update(seen)
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'dst')


names = {}


class Client:
    __slots__ = ('idx', 'fn', 'lock', 'thread', 'done', 'result', 'exc', 'steps',
                 'seam', 'fault', 'rehearsal', 'mute')

    def __init__(self, idx, fn=None):
        self.idx = idx
        self.fn = fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.steps = 0
        self.seam = 0
        self.fault = None
        self.rehearsal = False
        self.mute = 0


class Fault:
    """raise exc at seam event number `at` (1-based) of the client"""

    def __init__(self, kind, at, exc, name=None):
        self.kind, self.at, self.exc = kind, at, exc
        self.name = name      # restrict to calls whose callee has this name
        self.fired = None     # where it fired


class Identities:
    """stands in for the builtin id() within the package: what the allocator
    may do, at its worst.  The number of an object that died goes to the next
    object asked for, in a way that does not depend on real addresses"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.live, self.free, self.next = {}, [], 0x7f0000001000
        self.calls = self.reused = 0

    def __call__(self, o):
        self.calls += 1
        e = self.live.get(id(o))
        if e is None:
            for k in [k for k, v in self.live.items() if sys.getrefcount(v[0]) == 2]:
                self.free.append(self.live.pop(k)[1])
            if self.free:
                n = self.free.pop()
                self.reused += 1
            else:
                n, self.next = self.next, self.next + 48
            e = self.live[id(o)] = (o, n)
        return e[1]


IDS = Identities()


class Sim:
    """one simulated run"""

    current = None

    def __init__(self, lines=True, budget=6000000):
        self.clients = {}
        self.main = Client(-1)
        self.lines = lines
        self.budget = budget
        self.steps = 0
        self.rsteps = 0
        self.sched = None
        self.active = None
        self.mask = EV.CALL | EV.PY_START | EV.LINE
        self.trace = None     # optional crc of the event stream
        self.cover = set()    # distinct (code, line) fault sites or switches
        IDS.reset()

    # ------------------------------------------------------------ lifecycle
    def __enter__(self):
        Sim.current = self
        mon.restart_events()
        mon.register_callback(TOOL, EV.CALL, self._call)
        mon.register_callback(TOOL, EV.PY_START, self._start)
        mon.register_callback(TOOL, EV.LINE, self._line)
        for c, _ in CODES:
            mon.set_local_events(TOOL, c, self.mask)
        return self

    def __exit__(self, *a):
        for c, _ in CODES:
            mon.set_local_events(TOOL, c, 0)
        for e in (EV.CALL, EV.PY_START, EV.LINE):
            mon.register_callback(TOOL, e, None)
        Sim.current = None
        return False

    # ------------------------------------------------------------ callbacks
    def _who(self):
        return self.clients.get(threading.get_ident(), self.main)

    def _hit(self, c, code, pos, callee):
        f = c.fault
        if f is not None and f.fired is None:
            if f.name is not None:
                if callee is None or getattr(callee, '__name__', None) not in f.name:
                    return
                c.seam += 1
            if c.seam >= f.at:
                f.fired = '%s@%s' % (names[code], pos)
                c.fault = None
                self.cover.add((f.kind, f.fired))
                e = f.exc
                raise e() if isinstance(e, type) else e

    def _call(self, code, off, callee, arg0):
        c = self._who()
        if c.mute:
            return
        f = c.fault
        if f is not None and not safe(callee):
            if f.name is None:
                c.seam += 1
            self._hit(c, code, 'call%d' % off, callee)
        # threads also switch within a line, between its calls
        s = self.sched
        if s is not None and c.idx >= 0 and not c.rehearsal:
            self.steps += 1
            c.steps += 1
            if self.steps > self.budget:
                raise SimBudget()
            if self.steps >= s.next_at or s.cnt is not None and s.visit(self, c, (code, ~off)):
                self._yield(c, (code, 'call%d' % off))

    def _start(self, code, off):
        c = self._who()
        f = c.fault
        if f is None or c.mute or code in TRIVIAL:
            return
        if f.name is None:
            c.seam += 1
        self._hit(c, code, 'start', None)

    def _line(self, code, line):
        if not self.lines and line not in OPLINES[code]:
            return mon.DISABLE
        c = self._who()
        if c.mute:
            return
        if c.rehearsal:
            # not part of the simulated run: no time passes, nobody else runs
            self.rsteps += 1
            if self.rsteps > self.budget:
                raise SimBudget()
        else:
            c.steps += 1
            self.steps += 1
            if self.trace is not None:
                self.trace = (self.trace * 1000003 ^ (line * 31 + c.idx)) & 0xffffffffffff
            if self.steps > self.budget:
                raise SimBudget()
        f = c.fault
        if f is not None and line in OPLINES[code]:
            if f.name is None:
                c.seam += 1
            self._hit(c, code, 'line%d' % line, None)
        s = self.sched
        if s is not None and c.idx >= 0 and not c.rehearsal and (
                self.steps >= s.next_at or s.cnt is not None and s.visit(self, c, (code, line))):
            self._yield(c, (code, line))

    # ------------------------------------------------------------ threads
    def tick(self):
        """an extra preemption point, for harness components"""
        c = self._who()
        if c.rehearsal or c.mute:
            return
        self.steps += 1
        c.steps += 1
        if self.steps > self.budget:
            raise SimBudget()
        s = self.sched
        if s is not None and self.steps >= s.next_at and c.idx >= 0:
            self._yield(c, None)

    def sleep(self, d):
        """a client of the harness waits for d steps of virtual time: the
        others run, and it is due again afterwards"""
        c = self._who()
        s = self.sched
        if s is None or c.idx < 0 or c.rehearsal or c.mute:
            return
        self.steps += 1
        c.steps += 1
        nxt = s.nap(self, c, d)
        if nxt is None or nxt is c:
            return
        s.log.append((self.steps, nxt.idx))
        self._switch(c, nxt)

    def _yield(self, c, where):
        s = self.sched
        nxt = s.pick(self, c)
        if nxt is None or nxt is c:
            return
        s.log.append((self.steps, nxt.idx))
        if where is not None:
            self.cover.add(where)
        self._switch(c, nxt)

    def _switch(self, c, nxt):
        self.active = nxt
        nxt.lock.release()
        c.lock.acquire()
        if self._abort:
            raise SimAbort()

    _abort = False

    def run_clients(self, fns, sched):
        """run the client functions under the scheduler; -> list of Clients"""
        assert self.lines
        cl = [Client(i, f) for i, f in enumerate(fns)]
        self.cl = cl
        self.sched = sched
        sched.start(self, cl)
        done = threading.Lock()
        done.acquire()

        def body(c):
            self.clients[threading.get_ident()] = c
            c.lock.acquire()
            try:
                c.result = c.fn(c)
            except BaseException as e:   # reported by the caller
                c.exc = e
            c.done = True
            rest = [x for x in cl if not x.done]
            if not rest:
                done.release()
                return
            nxt = sched.pick(self, c, finished=True)
            sched.log.append((self.steps, nxt.idx, 1))     # not a preemption
            self.active = nxt
            nxt.lock.release()
        for c in cl:
            c.thread = threading.Thread(target=body, args=(c,), daemon=True)
            c.thread.start()
        first = sched.first(cl)
        sched.first_idx = first.idx
        self.active = first
        first.lock.release()
        done.acquire()
        for c in cl:
            c.thread.join()
        self.sched = None
        self.clients = {}
        return cl


# --------------------------------------------------------------------------
# schedulers
# --------------------------------------------------------------------------

class Sched:
    """seeded policy; records explicit switches

    policies: rand  geometric run lengths with mean `gap`
              pct   priorities with `depth` change points
              starve  client `victim` only runs when nobody else can
              rr    strict round robin every `gap` steps
              stall  a client that is switched out stays out for a random
                     time, up to the length of whole operations
              site   stalls as well, but at code sites drawn evenly instead of
                     instants drawn evenly: each of the 1st, 2nd, 4th, 8th...
                     visit of a site is a candidate, so rarely executed code
                     is as likely to be interrupted as the loops; the first
                     visit of all may count for more
    """

    cnt = None

    def __init__(self, spec):
        self.spec = spec
        self.log = []
        self.rng = random.Random(spec.get('seed', 0))
        self.next_at = 0

    def start(self, sim, cl):
        sp = self.spec
        self.kind = sp['kind']
        n = len(cl)
        if self.kind == 'pct':
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            span = sp.get('span', 20000)
            self.points = sorted(self.rng.randrange(1, span)
                                 for _ in range(sp.get('depth', 3)))
        self.base = sim.steps
        self.wake = [0] * n
        if self.kind == 'site':
            self.cnt = {}
            self.q = sp.get('q', .05)
        self._arm(sim)

    def visit(self, sim, c, where):
        """a candidate of the site policy; -> whether to switch here"""
        if where is None:
            return False
        key = (c.idx, where)
        k = self.cnt[key] = self.cnt.get(key, 0) + 1
        q = self.q
        if where not in self.cnt:
            # the first of all: where things are set up on first use
            self.cnt[where] = 1
            q *= self.spec.get('cold', 1)
        return k & (k - 1) == 0 and self.rng.random() < q

    def _arm(self, sim):
        sp = self.spec
        # the next client that ends its stall, or sleep
        w = [self.wake[x.idx] for x in sim.cl if not x.done and self.wake[x.idx] > sim.steps]
        due = min(w) if w else 1 << 60
        if self.kind == 'site':
            self.next_at = due
            return
        if self.kind in ('rand', 'starve', 'stall'):
            g = sp.get('gap', 50)
            self.next_at = sim.steps + 1 + int(self.rng.expovariate(1.0 / g))
        elif self.kind == 'rr':
            self.next_at = sim.steps + sp.get('gap', 10)
        elif self.kind == 'pct':
            self.next_at = min(due, self.base + self.points[0] if self.points else 1 << 60)
        else:
            self.next_at = 1 << 60

    def nap(self, sim, c, d):
        self.wake[c.idx] = sim.steps + max(1, d)
        live = [x for x in sim.cl if not x.done]
        ok = [x for x in live if self.wake[x.idx] <= sim.steps]
        if not ok:
            nxt = min(live, key=lambda x: (self.wake[x.idx], x.idx))
        elif self.kind == 'pct':
            nxt = max(ok, key=lambda x: self.prio[x.idx])
        else:
            nxt = ok[self.rng.randrange(len(ok))]
        self.wake[nxt.idx] = 0
        self._arm(sim)
        return nxt

    def first(self, cl):
        if self.kind == 'pct':
            return max(cl, key=lambda c: self.prio[c.idx])
        if self.kind == 'starve':
            o = [c for c in cl if c.idx != self.spec.get('victim', 0)]
            return o[0] if o else cl[0]
        return cl[self.rng.randrange(len(cl))]

    def pick(self, sim, c, finished=False):
        live = [x for x in sim.cl if not x.done and (x is not c or not finished)]
        if self.kind not in ('stall', 'site'):
            live = [x for x in live if self.wake[x.idx] <= sim.steps] or [min(live, key=lambda x: (self.wake[x.idx], x.idx))]
        nxt = None
        if self.kind == 'rand':
            nxt = live[self.rng.randrange(len(live))]
        elif self.kind == 'rr':
            later = [x for x in live if x.idx > c.idx]
            nxt = (later or live)[0]
        elif self.kind == 'starve':
            v = self.spec.get('victim', 0)
            o = [x for x in live if x.idx != v]
            # the victim gets a single short slice now and then
            if o and not (self.rng.random() < .02):
                nxt = o[self.rng.randrange(len(o))]
            else:
                nxt = live[self.rng.randrange(len(live))]
        elif self.kind in ('stall', 'site'):
            if not finished:
                due = self.kind == 'site' and sim.steps >= self.next_at
                if not due or self.rng.random() < .5:
                    # log-uniform, from a few lines to a whole fit
                    self.wake[c.idx] = sim.steps + int(10 ** self.rng.uniform(1, self.spec.get('hold', 5)))
            ok = [x for x in live if self.wake[x.idx] <= sim.steps]
            # a stall lets somebody else run, also if he would sleep longer
            nxt = ok[self.rng.randrange(len(ok))] if ok else min([x for x in live if x is not c] or live,
                                                                key=lambda x: (self.wake[x.idx], x.idx))
            self.wake[nxt.idx] = 0
        elif self.kind == 'pct':
            if not finished and self.points and sim.steps >= self.base + self.points[0]:
                self.points.pop(0)
                self.prio[c.idx] = -len(self.points) - 1 - self.rng.random()
                self.prio[c.idx] = min(self.prio) - 1
            nxt = max(live, key=lambda x: self.prio[x.idx])
        else:
            nxt = live[0]
        if self.kind not in ('stall', 'site'):
            self.wake[nxt.idx] = 0
        self._arm(sim)
        return nxt


def gen_sched(rng, gaps=(3, 10, 40, 200, 1000), spans=(1000, 8000, 40000), kinds=('rand', 'rand', 'pct', 'pct', 'rr', 'starve'), qs=(.005, .02, .08)):
    """a random policy"""
    return {'kind': rng.choice(kinds + ('stall', 'site') * (len(kinds) // 2)), 'seed': rng.randrange(10 ** 9), 'gap': rng.choice(gaps),
            'depth': rng.randint(1, 8), 'span': rng.choice(spans), 'victim': rng.randint(0, 1),
            'hold': rng.choice([2.5, 4, 5.5]), 'q': rng.choice(qs), 'cold': rng.choice([1, 5])}


class Replay(Sched):
    """replays an explicit switch list [(step, client)...]; a list from which
    switches were dropped still is a legal schedule"""

    def __init__(self, first, switches):
        self.spec = {'kind': 'replay'}
        self.kind = 'replay'
        self.log = []
        sw = [tuple(s) for s in switches]
        self.sw = [x for x in sw if len(x) == 2]
        self.ends = [x for x in sw if len(x) == 3]     # made when a client ended
        self.f = first
        self.next_at = 0

    def start(self, sim, cl):
        self.k = self.e = 0
        self._arm(sim)

    def _arm(self, sim):
        self.next_at = self.sw[self.k][0] if self.k < len(self.sw) else 1 << 60

    def nap(self, sim, c, d):
        return self.pick(sim, c)

    def first(self, cl):
        return cl[self.f] if self.f < len(cl) else cl[0]

    def pick(self, sim, c, finished=False):
        live = [x for x in sim.cl if not x.done and (x is not c or not finished)]
        want = None
        if finished:
            if self.e < len(self.ends) and self.ends[self.e][0] <= sim.steps:
                want = self.ends[self.e][1]
                self.e += 1
        elif self.k < len(self.sw) and self.sw[self.k][0] <= sim.steps:
            want = self.sw[self.k][1]
            self.k += 1
        self._arm(sim)
        for x in live:
            if x.idx == want:
                return x
        return live[0] if finished else None


def mksched(spec):
    if spec['kind'] == 'replay':
        return Replay(spec.get('first', 0), spec['switches'])
    return Sched(spec)
