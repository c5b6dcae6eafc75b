# Stands in for matplotlib: writes what is drawn to $R8N_LOG
import os
_f = open(os.environ['R8N_LOG'], 'a')
def _num(v): return float(v).hex()
def _is_seq(v): return hasattr(v, '__iter__') and not isinstance(v, str)
def _plot(*a, **k):
    x, y = (list(a) + [(), ()])[:2]
    fmt = ' '.join(str(v) for v in a[2:] if isinstance(v, str)) + ' ' + str(k.get('marker', ''))
    if not _is_seq(x):
        _f.write('POINT %s %s\n' % (_num(x), _num(y)))
    else:
        x, y = list(x), list(y)
        kind = 'POINT' if len(x) == 1 and 'o' in fmt else 'LINE'
        if kind == 'POINT': _f.write('POINT %s %s\n' % (_num(x[0]), _num(y[0])))
        else: _f.write('LINE %s | %s\n' % (' '.join(_num(v) for v in x), ' '.join(_num(v) for v in y)))
    _f.flush()
    return _Any()
def _show(*a, **k):
    _f.write('SHOW\n'); _f.flush()
class _Any(object):
    def __call__(self, *a, **k): return _Any()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n == 'plot': return _plot
        if n in ('show', 'savefig'): return _show
        return _Any()
    def __iter__(self): return iter((_Any(), _Any()))
    def __getitem__(self, i): return _Any()
def __getattr__(n):
    if n.startswith('__'): raise AttributeError(n)
    return getattr(_Any(), n)
