"""The interface between a harness and the two ways it is executed.

A harness is an ordinary function h(ctx, case).  Under SymCtx its inputs are
solver variables and the code under test is the instrumented copy of the
current source; under ConcreteCtx the same harness runs with concrete inputs
on the unmodified package.
"""
import asyncio
import datetime as _dt
import os
import time

from . import engine, runtime
from .engine import z3, PathInfeasible
from . import values as V

FIXED_NOW = _dt.datetime(2024, 5, 1, 12, 0, 0, tzinfo=_dt.timezone.utc)
PRINTABLE = ((0x21, 0x7e),)
TEXT = ((0x20, 0x7e),)
LOWER = ((0x61, 0x7a),)


class HarnessError(Exception):
    pass


class _Base:
    symbolic = False

    def __init__(self):
        self._names = {}
        self._clock = None
        self._uuid = 0
        self.loop = None
        self.cleanups = []

    def _name(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    # ---- derived inputs -------------------------------------------------
    def bool(self, name):
        return self.choice(name, (False, True))

    def td(self, name, lo, hi, unit='seconds'):
        n = self.int(name, lo, hi)
        return self.make_td(n, unit)

    def optional(self, name, fn):
        return fn() if self.bool(name) else None

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.bool('%s[%d]' % (name, i))]

    def perm(self, name, items):
        items = list(items)
        out = []
        while items:
            i = self.choice(name, tuple(range(len(items))))
            out.append(items.pop(i))
        return out

    # ---- clock ----------------------------------------------------------
    def set_clock(self, when):
        """when: aware datetime, or callable() -> aware datetime"""
        self._clock = when

    def now(self, tz=None):
        w = self._clock
        if callable(w):
            w = w()
        if w is None:
            w = FIXED_NOW
        if tz is None:
            return w.astimezone().replace(tzinfo=None)
        return w.astimezone(tz)

    def set_zone(self, name):
        """the local time zone, one with a fixed offset, until the end of the path"""
        def put(zone):
            os.environ['TZ'] = zone
            time.tzset()
            V.LOCAL_OFFSET = -time.timezone * 10 ** 6
        self.cleanups.append(lambda: put('UTC'))
        put(name)

    # ---- async ----------------------------------------------------------
    def run(self, coro, settle=3):
        """Run a coroutine (and what it spawned) to completion."""
        loop = self.get_loop()
        asyncio.set_event_loop(loop)

        async def main():
            r = await coro
            for _ in range(settle):
                await asyncio.sleep(0)
            return r
        return loop.run_until_complete(main())

    def get_loop(self):
        if self.loop is None:
            self.loop = asyncio.new_event_loop()
            self.loop.set_exception_handler(lambda l, c: None)
            asyncio.set_event_loop(self.loop)
        return self.loop

    def interleave(self, name, tasks, gates, max_steps=40):
        """Run coroutines concurrently; every await of gates.point() is a
        scheduling point, resumed in an order the checker chooses.

        tasks: list of (label, zero-argument callable returning a coroutine)
        """
        loop = self.get_loop()
        asyncio.set_event_loop(loop)
        ctx = self

        async def main():
            gates.waiting = []
            running = {}
            todo = [l for l, _ in tasks]
            mk = dict(tasks)
            for _ in range(max_steps):
                for _ in range(6):
                    await asyncio.sleep(0)
                for l in list(running):
                    if running[l].done():
                        running[l].result()
                        del running[l]
                options = [('start', l) for l in todo] + [('resume', w) for w in gates.waiting]
                if not options:
                    if not running:
                        return
                    await asyncio.sleep(0.001)
                    continue
                k = ctx.choice(name, tuple(range(len(options))))
                what, x = options[k]
                if what == 'start':
                    todo.remove(x)
                    running[x] = loop.create_task(mk[x]())
                else:
                    gates.waiting.remove(x)
                    x[1].set_result(None)
            raise HarnessError('schedule longer than %d steps' % max_steps)
        return loop.run_until_complete(main())

    def close(self):
        for fn in reversed(self.cleanups):
            fn()
        self.cleanups = []
        if self.loop is not None:
            try:
                pend = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
                for t in pend:
                    t.cancel()
                if pend:
                    self.loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
            except BaseException:
                pass
            self.loop.close()
            asyncio.set_event_loop(None)
            self.loop = None

    def patch(self, obj, name, value):
        """setattr undone at the end of the path"""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanups.append(undo)


class Gates:
    def __init__(self):
        self.waiting = []

    async def point(self, label=''):
        fut = asyncio.get_running_loop().create_future()
        self.waiting.append((label, fut))
        await fut


class SymCtx(_Base):
    symbolic = True

    def __init__(self, path):
        super().__init__()
        self.p = path

    # ---- inputs
    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.p.inputs[name] = ('const', lo)
            return lo
        v = z3.Int(name)
        self.p.inputs[name] = ('int', v)
        self.p.add(z3.And(v >= lo, v <= hi))
        return V.mkint(v)

    def boolean(self, name):
        """a solver boolean (bool() instead enumerates)"""
        name = self._name(name)
        v = z3.Int(name)
        self.p.inputs[name] = ('int', v)
        self.p.add(z3.And(v >= 0, v <= 1))
        return V.mkbool(v == 1)

    def choice(self, name, options):
        name = self._name(name)
        k = self.p.choose(len(options))
        self.p.inputs[name] = ('choice', k)
        return options[k]

    def str(self, name, minlen=1, maxlen=4, alphabet=PRINTABLE):
        name = self._name(name)
        n = minlen + self.p.choose(maxlen - minlen + 1)
        chars = []
        for i in range(n):
            c = z3.Int('%s[%d]' % (name, i))
            lo, hi = min(a for a, _ in alphabet), max(b for _, b in alphabet)
            if len(alphabet) == 1:
                self.p.add(z3.And(c >= lo, c <= hi))
            else:
                self.p.add(z3.Or(*[z3.And(c >= a, c <= b) for a, b in alphabet]))
            self.p.keep.append(c)
            self.p.ranges[c.get_id()] = (lo, hi)
            chars.append(c)
        self.p.inputs[name] = ('str', chars)
        return V.from_chars(chars)

    def rat(self, name, lo, hi, den):
        """a float lo <= x <= hi that is a multiple of 1/den (den a power of 2)"""
        n = self.int(name, lo * den, hi * den)
        return n / den if not isinstance(n, V.SymInt) else V.mkfrac(n.e, den)

    def make_td(self, n, unit='seconds'):
        return V.sym_timedelta(**{unit: n})

    def dt(self, name, lo, hi, tz=_dt.timezone.utc, unit_us=1):
        """instant between two aware datetimes, in tz, multiple of unit_us"""
        a = V.td_us(lo - V.EPOCH) // unit_us
        b = V.td_us(hi - V.EPOCH) // unit_us
        n = self.int(name, a, b)
        r = V.EPOCH + V.sym_timedelta(microseconds=n * unit_us)
        return r.astimezone(tz) if tz is not _dt.timezone.utc else r

    def dtf(self, name, ylo, yhi, offset_lo_min=None, offset_hi_min=None, frac=True, tz=_dt.timezone.utc, months=(1, 12)):
        """datetime given by civil fields (better for rendering properties)"""
        y = self.int(name + '.y', ylo, yhi)
        mo = self.int(name + '.mo', *months)
        d = self.int(name + '.d', 1, 31)
        h = self.int(name + '.h', 0, 23)
        mi = self.int(name + '.mi', 0, 59)
        s = self.int(name + '.s', 0, 59)
        us = self.int(name + '.us', 0, 999999) if frac else 0
        es = tuple(V._intval(x) for x in (y, mo, d, h, mi, s, us))
        self.p.assume(es[2] <= V.days_in_month(es[0], es[1]))
        if offset_lo_min is not None:
            off = self.int(name + '.off', offset_lo_min, offset_hi_min)
            tz = V.SymTZ(z3.simplify(V._intval(off) * 60 * V.SEC)) if isinstance(off, V.SymInt) \
                else _dt.timezone(_dt.timedelta(minutes=off))
        return V.build_datetime(es, tz)

    # ---- claims
    def assume(self, cond):
        self.p.assume(V.boolexpr(cond) if type(cond) is V.SymBool else cond)

    def check(self, cond, label):
        if type(cond) is V.SymBool:
            cond = cond.e
        elif not isinstance(cond, bool):
            cond = bool(cond)
        return self.p.check(cond, label)

    def reach(self, label):
        self.p.reached.add(label)

    def observe(self, label, value):
        self.p.observed.append((label, value))

    def note(self, key, n=1):
        self.p.counters[key] = self.p.counters.get(key, 0) + n

    # ---- logic that does not fork
    def same(self, a, b):
        return V.same(a, b)

    def all(self, items):
        return V.sym_and(items)

    def any(self, items):
        return V.sym_or(items)

    def not_(self, x):
        return V.sym_not(x)

    def implies(self, a, b):
        return V.sym_or([V.sym_not(a), b])

    def true(self, b):
        """is b certainly a bool that is true: forks"""
        return bool(b)

    def text(self, s):
        """the value a native str with placeholders stands for"""
        return V.lift(s)


class ConcreteCtx(_Base):
    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.checks = []            # (label, ok)
        self.observed = []
        self.reached = set()
        self.missing = []

    def _get(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return self.inputs[name]

    def int(self, name, lo, hi):
        name = self._name(name)
        return self._get(name, lo)

    def boolean(self, name):
        name = self._name(name)
        return bool(self._get(name, 0))

    def choice(self, name, options):
        name = self._name(name)
        k = self._get(name, 0)
        return options[k if k < len(options) else 0]

    def str(self, name, minlen=1, maxlen=4, alphabet=PRINTABLE):
        name = self._name(name)
        return self._get(name, chr(alphabet[0][0]) * minlen)

    def rat(self, name, lo, hi, den):
        return self.int(name, lo * den, hi * den) / den

    def make_td(self, n, unit='seconds'):
        return _dt.timedelta(**{unit: n})

    def dt(self, name, lo, hi, tz=_dt.timezone.utc, unit_us=1):
        a = V.td_us(lo - V.EPOCH) // unit_us
        b = V.td_us(hi - V.EPOCH) // unit_us
        n = self.int(name, a, b)
        r = V.EPOCH + _dt.timedelta(microseconds=n * unit_us)
        return r.astimezone(tz) if tz is not _dt.timezone.utc else r

    def dtf(self, name, ylo, yhi, offset_lo_min=None, offset_hi_min=None, frac=True, tz=_dt.timezone.utc, months=(1, 12)):
        v = [self.int(name + '.' + k, d, d) for k, d in
             (('y', ylo), ('mo', months[0]), ('d', 1), ('h', 0), ('mi', 0), ('s', 0))]
        us = self.int(name + '.us', 0, 999999) if frac else 0
        if offset_lo_min is not None:
            tz = _dt.timezone(_dt.timedelta(minutes=self.int(name + '.off', offset_lo_min, offset_hi_min)))
        return _dt.datetime(*v, us, tzinfo=tz)

    def assume(self, cond):
        if not cond:
            raise PathInfeasible()

    def check(self, cond, label):
        ok = bool(cond)
        self.checks.append((label, ok))
        if not ok:
            raise engine.PathEnd()
        return ok

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def note(self, key, n=1):
        pass

    def same(self, a, b):
        import dataclasses
        if dataclasses.is_dataclass(a) and not isinstance(a, type) and type(a) is type(b):
            return all(self.same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) \
                and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, str) != isinstance(b, str):
            return False
        return bool(a == b)

    def all(self, items):
        return all([bool(x) for x in items])

    def any(self, items):
        return any([bool(x) for x in items])

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def true(self, b):
        return bool(b)

    def text(self, s):
        return s
