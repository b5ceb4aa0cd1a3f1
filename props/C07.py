"""Well-formedness: accept condition of Transaction::is_well_formed against the reference limits."""
from spec import *
import txrules

RULE = 'accept condition of is_well_formed (callees inlined, loops summarised) must imply every limit and be equivalent to the conjunction of all of them'
PARTS = ['accept']


def accept(P, ck):
    f = P.fn('Transaction::is_well_formed')
    R = P.run(f)
    tx, spec, proto = R.p
    g = txrules.well_formed(P, tx, spec, proto)
    got = is_ok(R.ret)
    for n, c in g['C07'].items():
        ck.implies('accepted only if: ' + n, got, c, loc(f))
    allc = conj(*[c for d in g.values() for c in d.values()])
    ck.implies('accepted whenever every rule is met', allc, got, loc(f))
