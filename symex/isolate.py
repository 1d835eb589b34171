"""Process set-up shared by the symbolic and the concrete side."""
import collections
import copy
import datetime as _dt
import logging
import os
import signal
import sys
import time
import types
import uuid

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

_uuid_counter = [0]
ACTIVE = [None]             # the active context


def _uuid4():
    _uuid_counter[0] += 1
    return uuid.UUID(int=(0xabcdef << 104) | (4 << 76) | (2 << 62) | _uuid_counter[0], version=4)


def common():
    sys.dont_write_bytecode = True
    os.environ['TZ'] = 'UTC'
    time.tzset()
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    uuid.uuid4 = _uuid4
    sys.setrecursionlimit(2000)
    sys.unraisablehook = lambda *a: None


def silence():
    fd = os.open(os.environ.get('VERIF_LOG') or os.devnull, os.O_RDWR | os.O_CREAT | os.O_APPEND)
    for i in (0, 1, 2):
        os.dup2(fd, i)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)


# ---- the clock of the unmodified package -----------------------------------

_real = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real)

    def __eq__(cls, o):
        return o is _real or o is cls

    def __hash__(cls):
        return hash(_real)


class FakeDatetime(_real, metaclass=_Meta):
    def __new__(cls, *a, **k):
        return _real(*a, **k)

    @classmethod
    def now(cls, tz=None):
        c = ACTIVE[0]
        return c.now(tz) if c is not None else _real.now(tz)

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now(None)


class _ModProxy(types.ModuleType):
    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_mod'], n)


def _fake_time():
    c = ACTIVE[0]
    if c is None:
        return time.time()
    return (c.now(_dt.timezone.utc) - _real(1970, 1, 1, tzinfo=_dt.timezone.utc)).total_seconds()


def patch_clock():
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] in ('openleadr', 'harness') and m is not None:
            for k, v in list(m.__dict__.items()):
                if v is _real:
                    setattr(m, k, FakeDatetime)
                elif v is _dt:
                    setattr(m, k, _ModProxy(_dt, {'datetime': FakeDatetime}))
                elif v is time.time:
                    setattr(m, k, _fake_time)
                elif v is time:
                    setattr(m, k, _ModProxy(time, {'time': _fake_time}))


# ---- module state ----------------------------------------------------------

_CONT = (dict, list, set, collections.deque)


def _atomic(v):
    return isinstance(v, (types.FunctionType, types.ModuleType, type, types.BuiltinFunctionType, property,
                          classmethod, staticmethod))


class Snapshot:
    def __init__(self):
        self.items = []
        self.seen = set()
        for name, m in sorted(sys.modules.items()):
            if m is None or name.split('.')[0] != 'openleadr':
                continue
            self._ns(m, dict(m.__dict__), name)

    def _ns(self, owner, ns, modname):
        keys = {}
        for k, v in ns.items():
            if k.startswith('__') or k == '_abc_impl':
                continue
            keys[k] = v
            self._obj(v, modname)
        self.items.append((owner, keys))

    def _obj(self, v, modname):
        if id(v) in self.seen:
            return
        if isinstance(v, type):
            if getattr(v, '__module__', '').split('.')[0] == 'openleadr' and v.__module__ == modname:
                self.seen.add(id(v))
                import enum
                if not issubclass(v, enum.Enum):
                    self._ns(v, dict(v.__dict__), modname)
            return
        if isinstance(v, _CONT):
            self.seen.add(id(v))
            try:
                saved = copy.copy(v)
            except BaseException:
                return
            self.items.append((v, saved))
            for x in (v.values() if isinstance(v, dict) else list(v)):
                self._obj(x, modname)
            return
        mod = type(v).__module__
        if mod.split('.')[0] == 'openleadr' and hasattr(v, '__dict__') and not _atomic(v):
            self.seen.add(id(v))
            self.items.append((v, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._obj(x, modname)

    def restore(self):
        for owner, saved in self.items:
            if isinstance(owner, (types.ModuleType, type)):
                cur = owner.__dict__
                for k in [k for k in cur if not k.startswith('__') and k != '_abc_impl' and k not in saved]:
                    try:
                        delattr(owner, k)
                    except Exception:
                        pass
                for k, v in saved.items():
                    if cur.get(k, Snapshot) is not v:
                        try:
                            setattr(owner, k, v)
                        except Exception:
                            pass
            elif isinstance(owner, dict):
                owner.clear()
                owner.update(saved)
            elif isinstance(owner, (list, collections.deque)):
                owner.clear()
                owner.extend(saved)
            elif isinstance(owner, set):
                owner.clear()
                owner.update(saved)
            else:
                owner.__dict__.clear()
                owner.__dict__.update(saved)


class RunTimeout(BaseException):
    pass


def _on_alarm(*_):
    raise RunTimeout()


def arm(seconds):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
