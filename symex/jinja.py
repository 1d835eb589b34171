"""The filters of jinja2 and the escaping of markupsafe, for symbolic text."""
import builtins

import jinja2.defaults
import jinja2.filters
import markupsafe

from .engine import Unsupported
from .values import SymStr, PH0, PHE, is_sym

TEXT = ('capitalize', 'center', 'forceescape', 'format', 'indent', 'pprint', 'reverse', 'striptags', 'title', 'tojson', 'truncate', 'urlencode',
        'urlize', 'wordcount', 'wordwrap', 'xmlattr', 'filesizeformat')
OWN = {'string': lambda s, *a, **k: s, 'upper': lambda s, *a, **k: s.upper(), 'lower': lambda s, *a, **k: s.lower(),
       'trim': lambda s, chars=None: s.strip() if chars is None else s.strip(chars),
       'replace': lambda s, old, new, count=-1: s.replace(old, new) if count in (-1, None) else s.replace(old, new, count)}


def _own(name, native):
    takes = getattr(native, 'jinja_pass_arg', None)

    def f(*a, **k):
        rest = a[1:] if takes is not None else a
        if rest and type(rest[0]) is SymStr:
            return OWN[name](*rest, **k)
        return native(*a, **k)
    if takes is not None:
        f.jinja_pass_arg = takes
    return f


def _refuse(name, native):
    takes = getattr(native, 'jinja_pass_arg', None)

    def f(*a, **k):
        if any([is_sym(x) for x in a]) or any([is_sym(x) for x in k.values()]):
            raise Unsupported('filter %s of symbolic text' % name)
        return native(*a, **k)
    if takes is not None:
        f.jinja_pass_arg = takes
    return f


def install():
    if getattr(markupsafe, '_symex', False):
        return
    markupsafe._symex = True
    new = markupsafe.Markup.__new__
    inner = markupsafe._escape_inner

    def make(cls, base='', *a, **k):
        # marked as safe as it is, other than text that is escaped
        return new(cls, builtins.str(base) if is_sym(base) else base, *a, **k)

    def escape_inner(s):
        return inner(s).replace(PH0, PHE)
    markupsafe.Markup.__new__ = make
    markupsafe._escape_inner = escape_inner
    for table in (jinja2.filters.FILTERS, jinja2.defaults.DEFAULT_FILTERS):
        for name in OWN:
            table[name] = _own(name, table[name]) if not getattr(table[name], '_symex', False) else table[name]
            table[name]._symex = True
        for name in TEXT:
            table[name] = _refuse(name, table[name]) if not getattr(table[name], '_symex', False) else table[name]
            table[name]._symex = True
