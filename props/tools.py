"""Shared vocabulary for the command-line tools: files written, with what options and data."""
from spec import *

PHRASE = 'crypto::mnemonic::phrase_to_key'
WORDS = 'crypto::mnemonic::key_to_mnemonic'
SIGN = 'data::transactions::transaction::Transaction::sign'
SINKS = ('write_all', 'write_named', 'write', 'to_writer', 'to_writer_pretty')


def cmd(P, name, opaque=()):
    f = P.fn(name, crate=P.bin)
    return f, P.run(f, opaque=list(opaque))


def last(name):
    return name.split('<')[0].split('::')[-1]


def values(x):
    """The terms a value is made of, the conditions it depends on left out."""
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if isinstance(y, TM.Node):
            todo += leaves(y)
        elif isinstance(y, TM.Term):
            if y in seen:
                continue
            seen.add(y)
            yield y
            todo += y.args
        elif isinstance(y, tuple):
            todo += y


def opened(x):
    """The open/create calls a file value comes from."""
    r = []
    for y in values(x):
        if y.op in ('app', 'unk') and isinstance(y.args[0], str) and (y.args[0].endswith(('OpenOptions::open', 'File::create', 'File::create_new', 'File::options'))):
            r.append(y)
    return r


class Write:
    """One write: its event, the file's open call, the path, the options and the data."""
    def __init__(self, ev):
        self.ev = ev
        self.res = ev.res
        self.cond = ev.cond
        if ev.name.split('<')[0].endswith('fs::write'):
            self.path, self.data, self.opts = ev.args[0], ev.args[1], None
            self.open_ok = T
            return
        self.data = ev.args[1]
        fs = opened(ev.args[0])
        paths = {(y.args[1][1] if y.args[0].endswith('open') else y.args[1][0]) for y in fs}
        opts = {(y.args[1][0] if y.args[0].endswith('OpenOptions::open') else 'create') for y in fs}
        if len(paths) != 1 or len(opts) != 1:
            raise Missing('the file written to in ' + ev.fn['path'])
        self.path, self.opts = leaf(paths.pop()), opts.pop()


def writes(R):
    r = []
    for e in R.events:
        n = e.name.split('<')[0]
        if n.endswith('fs::write') or last(e.name) in SINKS and ('Write' in n or 'encode' in n or 'to_writer' in n):
            r.append(Write(e))
    return r


def options(o):
    """Open options as a table, or None for File::create."""
    if o is None or o == 'create':
        return None
    t = {}
    while o.op == 'app' and o.args[0].startswith('OpenOptions.'):
        t.setdefault(o.args[0].split('.')[1], o.args[1][1])
        o = o.args[1][0]
    return t


def mode_of(o):
    t = options(o)
    m = None if t is None else t.get('mode')
    return numval(m) if m is not None and is_num(m) else None


def flag(t, k):
    x = t.get(k)
    return x is not None and is_true(leaf(x)) is T


def replaces(o):
    """Opening creates the file if needed and drops what it held."""
    t = options(o)
    if t is None:
        return True
    return flag(t, 'write') and (flag(t, 'create') and flag(t, 'truncate') or flag(t, 'create_new'))
