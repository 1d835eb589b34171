"""What instrumented code calls instead of the plain Python operations."""
import asyncio
import builtins
import collections
import datetime as _dt
import math
import re
import time
import types
from xml.parsers.expat import ExpatError

import xmltodict
from lxml import etree

from . import engine, jinja, regex
from .engine import Unsupported
from .values import (concretise_text, SymStr, SymInt, SymRat, SymBool, SymBytes, SymDict, SymSet, SymDatetime, SymTimedelta,
                     is_sym, deep_sym, mkstr, to_segs, sym_format, sym_int, sym_float, sym_datetime,
                     sym_timedelta, lift, has_placeholder, sym_or, mkbool, boolexpr, decide, char_in, PH1,
                     chars_of, z3)

jinja.install()

FUNCTIONS = set()       # qualified names of the /repo functions that ran
NOTES = set()
CLOCK = None            # callable(tz) -> datetime, set by the active context


def enter(name):
    FUNCTIONS.add(name)


class SymDefaultDict(SymDict):
    __slots__ = ('default_factory',)

    def __init__(self, factory=None, *args, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *args, **kw)

    def __getitem__(self, key):
        if key not in self:
            if self.default_factory is None:
                raise KeyError(key)
            self[key] = self.default_factory()
        return SymDict.__getitem__(self, key)


# ---- displays -------------------------------------------------------------

def mkdict(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


_STAR = object()


def mkdict_star(pairs):
    """pairs of (key, value) or (None-marker, mapping) for {**m}"""
    d = SymDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


STAR = _STAR


def mkset(items):
    return SymSet(items)


# ---- operators ------------------------------------------------------------

def fstr(*parts):
    segs = []
    symbolic = False
    for p in parts:
        if type(p) is str:
            segs.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            if deep_sym(v):
                segs.extend(to_segs(v))
                symbolic = True
                continue
            v = repr(v)
        elif conv == 115 and not is_sym(v):
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        if is_sym(v) or (type(v) is str and PH1 in v) or (type(spec) is SymStr):
            s = sym_format(v, spec) if is_sym(v) else v
            segs.extend(to_segs(s))
            symbolic = True
        else:
            t = format(v, spec)
            if PH1 in t:
                symbolic = True
                segs.extend(to_segs(v))
            else:
                segs.append(t)
    if symbolic:
        return mkstr(segs)
    return ''.join(segs)


def textual(fn):
    """__repr__ and friends must return a real str: symbolic text travels as placeholders."""
    def wrapped(*a, **k):
        r = fn(*a, **k)
        return builtins.str(r) if is_sym(r) else r
    return wrapped


def contains(a, b):
    tb = type(b)
    if tb is str:
        if type(a) is SymStr or (PH1 in b and type(a) is str):
            if PH1 in b and len(b) > 200:
                return a in b if type(a) is str else str(a) in b
            return SymStr((b,)).find(a) >= 0 if PH1 not in b else lift(b).find(a) >= 0
        return a in b
    if tb is tuple or tb is list:
        if deep_sym(a) or any(is_sym(x) for x in b):
            return bool(sym_or([a is x or _eq(a, x) for x in b]))
        return a in b
    if tb in (dict, set, frozenset, collections.OrderedDict, type({}.keys()), type({}.values())):
        if deep_sym(a):
            return bool(sym_or([_eq(a, x) for x in list(b)]))
    return a in b


def _eq(a, x):
    r = a == x
    return r if type(r) in (bool, SymBool) else bool(r)


def is_(a, const):
    if type(a) is SymBool:
        return bool(a) is const
    return a is const


def mod(a, b):
    if type(a) is str and not isinstance(b, dict):
        args = b if type(b) is tuple else (b,)
        if any(deep_sym(x) for x in args):
            segs, i, k = [], 0, 0
            for m in re.finditer(r'%(0?\d*)([sdr%])', a):
                segs.append(a[i:m.start()])
                i = m.end()
                if m[2] == '%':
                    segs.append('%')
                    continue
                v = args[k]
                k += 1
                if m[1]:
                    segs.extend(to_segs(sym_format(v, m[1] + 'd') if is_sym(v) else format(v, m[1])))
                else:
                    segs.extend(to_segs(v))
            segs.append(a[i:])
            if '%' in re.sub(r'%(0?\d*)([sdr%])', '', a):
                raise Unsupported('% format')
            return mkstr(segs)
    return a % b


def getitem(a, i):
    """a[i] for native containers indexed by a symbolic key"""
    if is_sym(i) or (type(i) is tuple and deep_sym(i)):
        if type(a) in (dict, collections.OrderedDict, types.MappingProxyType):
            for k in a:
                if bool(_eq(i, k)):
                    return a[k]
            raise KeyError(i)
        if type(i) is SymInt:
            return a[i.__index__()]
    return a[i]


# ---- calls ----------------------------------------------------------------

def _anysym(args, kw):
    for a in args:
        if deep_sym(a):
            return True
    for a in kw.values():
        if deep_sym(a):
            return True
    return False


def _c_int(*a, **k):
    if a and (is_sym(a[0])):
        return sym_int(*a)
    return int(*a, **k)


def _c_float(*a):
    if a and is_sym(a[0]):
        return sym_float(*a)
    return float(*a)


def _c_str(*a, **k):
    if a and is_sym(a[0]):
        if type(a[0]) is SymBytes:
            return a[0].s
        return mkstr(to_segs(a[0]))
    s = str(*a, **k)
    if PH1 in s and a and type(a[0]) is not str:
        if isinstance(a[0], BaseException):
            return lift(s)
        return mkstr(to_segs(a[0]))
    return s


def _c_repr(x):
    if is_sym(x):
        return mkstr(to_segs(x))
    return repr(x)


def _c_bytes(*a, **k):
    if a and type(a[0]) is SymStr:
        return SymBytes(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0]
    return bytes(*a, **k)


def _c_bool(*a):
    return bool(*a)


def _c_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    if len(a) == 1 and type(a[0]) is SymDict:
        return dict
    return type(*a)


def _c_len(x):
    return len(x)


def _c_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def _c_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


def _c_isinstance(o, c):
    return isinstance(o, c)


def _c_range(*a):
    return range(*[x.__index__() if type(x) is SymInt else x for x in a])


def _c_datetime(*a, **k):
    if _anysym(a, k):
        return sym_datetime(*a, **k)
    return _dt.datetime(*a, **k)


def _c_timedelta(*a, **k):
    if _anysym(a, k):
        return sym_timedelta(*a, **k)
    return _dt.timedelta(*a, **k)


def _c_dict(*a, **k):
    return SymDict(*a, **k)


def _c_set(*a):
    return SymSet(*a)


def _c_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x) if n is None else round(x, n)


def _c_sum(it, start=0):
    # the C version has a fast path that ends in PyNumber_Add anyway
    return sum(it, start)


def _c_max(*a, **k):
    return builtins.max(*a, **k)


def _re(fn, native, npos):
    """npos: position of the string argument"""
    def f(*a, **k):
        s = a[npos] if len(a) > npos else k.get('string')
        if type(s) is SymStr:
            return fn(*a, **k)
        if npos == 2 and len(a) > 1 and type(a[1]) is SymStr:
            return fn(*a, **k)
        return native(*a, **k)
    return f


def _check_wellformed(raw, exc):
    """An unescaped value with markup characters breaks the document."""
    for v in raw:
        if type(v) is SymStr:
            chars = v.mat()
            hit = [char_in(c, [(60, 60), (38, 38)]) for c in chars]
            if any(h is True for h in hit):
                bad = True
            else:
                es = [h for h in hit if h is not False]
                bad = decide(z3.Or(*es) if len(es) > 1 else es[0]) if es else False
            if bad:
                if len(chars) > 3:
                    raise Unsupported('markup characters inside long unescaped text')
                raise exc()
        elif isinstance(v, str) and ('<' in v or '&' in v):
            raise Unsupported('markup in concrete placeholder')


def _raw_values(text):
    p = engine.current()
    out = []
    for m in re.finditer('\ue000(\\d+)\ue001', text):
        out.append(p.placeholders[int(m[1])])
    return out


def _to_text(data):
    if isinstance(data, bytes) and type(data) is not SymBytes:
        return data.decode('utf-8')
    return data


def _c_xmltodict_parse(data, *a, **k):
    if type(data) is SymStr:
        data = _native(data)
    text = _to_text(data)
    if not isinstance(text, str) or type(text) is not str:
        raise Unsupported('xmltodict.parse of a symbolic document')
    if PH1 not in text:
        return xmltodict.parse(data, *a, **k)
    _check_wellformed(_raw_values(text), lambda: ExpatError('not well-formed (invalid token)'))
    tree = xmltodict.parse(text, *a, **k)
    return _lift_tree(tree)


def _lift_tree(t):
    if isinstance(t, dict):
        for k in list(t.keys()):
            if isinstance(k, str) and PH1 in k:
                # an element name came from a symbolic value
                v = t.pop(k)
                d = SymDict(t)
                d[lift(k)] = _lift_tree(v)
                return _lift_rest(d)
            t[k] = _lift_tree(t[k])
        return t
    if isinstance(t, list):
        return [_lift_tree(x) for x in t]
    if isinstance(t, str) and PH1 in t:
        v = lift(t)
        v = v.strip()
        return v if len(v) else None
    return t


def _lift_rest(d):
    for k in list(d):
        d[k] = _lift_tree(d[k])
    return d


def _native(s):
    """text with one placeholder per symbolic part, so that the markup around them stays readable"""
    return ''.join([x if type(x) is str else builtins.str(SymStr((x,))) for x in s.segs])


def set_text(obj, name, value):
    if isinstance(obj, etree._Element) and is_sym(value):
        value = _native(value) if type(value) is SymStr else builtins.str(value)
    setattr(obj, name, value)


def get_text(obj, name):
    v = getattr(obj, name)
    return lift(v) if type(v) is str and PH1 in v and isinstance(obj, etree._Element) else v


VALID_SHAPES = set()        # documents that were valid for some value of their symbolic parts


def _check_schema(t, parser):
    shape = hash(re.sub('[\ue000\ue002]\\d+\ue001', '\ue000', t))
    if shape in VALID_SHAPES:
        return
    etree.fromstring(concretise_text(t, engine.current().get_model()).encode('utf-8'), parser)
    VALID_SHAPES.add(shape)


def _c_fromstring(text, parser=None, **k):
    if type(text) is SymStr:
        text = _native(text)
    t = _to_text(text)
    if type(t) is str and PH1 in t:
        def bad():
            try:
                etree.fromstring('<')
            except etree.XMLSyntaxError as e:
                return e
        _check_wellformed(_raw_values(t), bad)
        if parser is not None:
            NOTES.add('XML schema validation is decided on the concrete representative of each path')
            _check_schema(t, parser)
            return etree.fromstring(t.encode('utf-8'))
        return etree.fromstring(t.encode('utf-8'), **k)
    if parser is not None:
        return etree.fromstring(text, parser, **k)
    return etree.fromstring(text, **k)


def _now(tz=None):
    return CLOCK(tz)


def _dt_classmethod(f, a, k):
    n = f.__name__
    if n == 'now':
        return _now(*a, **k)
    if n == 'utcnow':
        return _now(_dt.timezone.utc).replace(tzinfo=None)
    if n == 'today':
        return _now(None)
    if _anysym(a, k):
        if n == 'fromisoformat':
            return _fromisoformat(a[0])
        if n == 'fromtimestamp':
            ts = a[0]
            tz = a[1] if len(a) > 1 else k.get('tz')
            us = sym_timedelta(seconds=ts)
            d = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc) + us
            return d.astimezone(tz) if tz is not None else d.astimezone().replace(tzinfo=None)
        if n == 'strptime':
            return _strptime(a[0], a[1])
        raise Unsupported('datetime.%s of symbolic arguments' % n)
    return f(*a, **k)


_STRP = {'Y': r'(\d{4})', 'm': r'(\d{1,2})', 'd': r'(\d{1,2})', 'H': r'(\d{1,2})', 'M': r'(\d{1,2})',
         'S': r'(\d{1,2})', 'f': r'(\d{1,6})'}


def _strptime(s, fmt):
    pat, names, i = '', [], 0
    tz = None
    while i < len(fmt):
        if fmt[i] == '%':
            d = fmt[i + 1]
            if d not in _STRP:
                raise Unsupported('strptime %' + d)
            pat += _STRP[d]
            names.append(d)
            i += 2
        else:
            pat += re.escape(fmt[i])
            i += 1
    m = regex.fullmatch(pat, s)
    if m is None:
        raise ValueError('time data %s does not match format %r' % (s, fmt))
    vals = {'Y': 1900, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0, 'f': 0}
    for n, g in zip(names, m.groups()):
        if n == 'f':
            g = g + '0' * (6 - len(g))
        vals[n] = _c_int(g)
    return sym_datetime(vals['Y'], vals['m'], vals['d'], vals['H'], vals['M'], vals['S'], vals['f'], tz)


def _fromisoformat(s):
    m = regex.fullmatch(r'(\d{4})-(\d{2})-(\d{2})[T ](\d{2}):(\d{2}):(\d{2})(?:\.(\d{1,9}))?(Z|[+-]\d{2}:\d{2})?', s)
    if m is None:
        raise Unsupported('fromisoformat of unusual symbolic text')
    g = m.groups()
    us = 0
    if g[6] is not None:
        t = g[6][:6]
        us = _c_int(t + '0' * (6 - len(t)))
    tz = None
    if g[7] is not None:
        if g[7] == 'Z':
            tz = _dt.timezone.utc
        else:
            raise Unsupported('fromisoformat with an offset')
    return sym_datetime(*[_c_int(x) for x in g[:6]], us, tzinfo=tz)


DISPATCH = {
    int: _c_int, float: _c_float, str: _c_str, repr: _c_repr, bytes: _c_bytes, type: _c_type,
    map: _c_map, filter: _c_filter, range: _c_range, round: _c_round,
    dict: _c_dict, set: _c_set, collections.OrderedDict: _c_dict, collections.defaultdict: SymDefaultDict,
    _dt.datetime: _c_datetime, _dt.timedelta: _c_timedelta,
    re.match: _re(regex.match, re.match, 1), re.fullmatch: _re(regex.fullmatch, re.fullmatch, 1),
    re.search: _re(regex.search, re.search, 1), re.sub: _re(regex.sub, re.sub, 2),
    re.findall: _re(regex.findall, re.findall, 1), re.finditer: _re(regex.finditer, re.finditer, 1),
    re.split: _re(regex.split, re.split, 1),
    xmltodict.parse: _c_xmltodict_parse,
    etree.fromstring: _c_fromstring,
    time.time: lambda: _now(_dt.timezone.utc).timestamp(),
}
_PATTERN = {'match': regex.match, 'fullmatch': regex.fullmatch, 'search': regex.search, 'findall': regex.findall,
            'finditer': regex.finditer, 'split': regex.split}
_BUILTIN = types.BuiltinFunctionType
_FUNC = types.FunctionType
_OK = (type, _BUILTIN, _FUNC, type(etree.fromstring))


def call(f, /, *a, **k):
    t = type(f)
    if t is _BUILTIN:
        s = f.__self__
        ts = type(s)
        if ts is str:
            if _anysym(a, k):
                if f.__name__ == 'join':
                    items = list(a[0])
                    if any(is_sym(x) for x in items):
                        return SymStr((s,)).join(items) if s else _join0(items)
                    return s.join(items)
                if f.__name__ == 'format':
                    return _format(s, a, k)
                if PH1 in s or not any(is_sym(x) for x in a) and not any(type(x) is tuple for x in a):
                    return f(*a, **k)
                if not s:
                    return _empty_str_method(f.__name__, a, k)
                return getattr(SymStr((s,)), f.__name__)(*a, **k)
            if f.__name__ == 'join' and a:
                items = list(a[0])
                if any(is_sym(x) for x in items):
                    return SymStr((s,)).join(items) if s else _join0(items)
                return s.join(items)
            return f(*a, **k)
        if s is _dt.datetime:
            return _dt_classmethod(f, a, k)
        if ts is re.Pattern:
            if f.__name__ in _PATTERN and a and type(a[0]) is SymStr:
                return _PATTERN[f.__name__](s, *a, **k)
            if f.__name__ == 'sub' and len(a) > 1 and type(a[1]) is SymStr:
                return regex.sub(s, *a, **k)
            return f(*a, **k)
        if ts in (dict, collections.OrderedDict) and a and deep_sym(a[0]) and f.__name__ in ('get', 'pop', 'setdefault'):
            for x in s:
                if bool(_eq(a[0], x)):
                    return f(x, *a[1:])
            if f.__name__ == 'get':
                return a[1] if len(a) > 1 else None
            if f.__name__ == 'pop' and len(a) > 1:
                return a[1]
            raise Unsupported('native dict with a symbolic key')
        if ts is set and a and deep_sym(a[0]):
            raise Unsupported('native set with a symbolic member')
    elif t is types.MethodType and f.__name__ in ('findtext', 'get') and isinstance(f.__self__, etree._Element):
        r = f(*a, **k)
        return lift(r) if type(r) is str and PH1 in r else r
    if t in _OK:
        h = DISPATCH.get(f)
        if h is not None:
            return h(*a, **k)
    return f(*a, **k)


def _join0(items):
    segs = []
    for it in items:
        segs.extend(to_segs(it))
    return mkstr(segs)


def _empty_str_method(name, a, k):
    if name == 'startswith' or name == 'endswith':
        return len(a[0]) == 0
    if name == 'join':
        return _join0(list(a[0]))
    raise Unsupported("''.%s with symbolic arguments" % name)


def _format(s, a, k):
    import string
    segs, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        segs.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            v, _ = string.Formatter().get_field(field, a, k)
        segs.extend(to_segs(fstr((v, {'r': 114, 's': 115}.get(conv, -1), spec or ''))))
    return mkstr(segs)
