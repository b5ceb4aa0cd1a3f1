"""Key registration coherency."""
from spec import *
import txrules

RULE = 'accept conditions of KeyregFields::check_coherency and, for key registrations, of is_well_formed against the reference rules, in both directions'
PARTS = ['coherency', 'whole']


def coherency(P, ck):
    f = P.fn('KeyregFields::check_coherency')
    R = P.run(f)
    k, hdr = R.p[:2]
    rules = txrules.keyreg_coherent(P, hdr, k)
    got = is_ok(R.ret)
    for n, c in rules.items():
        ck.implies('accepted only if: ' + n, got, c, loc(f))
    ck.iff('accepted exactly when every rule holds', got, conj(*rules.values()), loc(f))
    ck.holds('never aborts', neg(panics(R)), loc(f))


def whole(P, ck):
    f = P.fn('Transaction::is_well_formed')
    R = P.run(f)
    tx, spec, proto = R.p
    g = txrules.well_formed(P, tx, spec, proto)
    got = is_ok(R.ret)
    for n, c in g['C32'].items():
        ck.implies('a well-formed transaction: ' + n, got, c, loc(f))
    rest = conj(*[c for k, d in g.items() for n, c in d.items() if k != 'C32'])
    ck.iff('with every other rule met, a key registration is accepted exactly when these rules hold', got, conj(*g['C32'].values()), loc(f), assume=conj(rest, tx.fields.is_('Keyreg')))
