"""Payments and the special accounts."""
from spec import *
import txrules

RULE = 'accept conditions of PaymentFields::check_spender and of is_well_formed against the reference rules, in both directions'
PARTS = ['spender', 'whole']


def spender(P, ck):
    f = P.fn('PaymentFields::check_spender')
    R = P.run(f)
    pay, hdr, spec = R.p[:3]
    rules = txrules.payment_ok(hdr, pay, spec)
    got = is_ok(R.ret)
    for n, c in rules.items():
        ck.implies('accepted only if: ' + n, got, c, loc(f))
    ck.iff('accepted exactly when every rule holds', got, conj(*rules.values()), loc(f))
    ck.holds('never aborts', neg(panics(R)), loc(f))


def whole(P, ck):
    f = P.fn('Transaction::is_well_formed')
    R = P.run(f)
    tx, spec, proto = R.p
    g = txrules.well_formed(P, tx, spec, proto)
    got = is_ok(R.ret)
    for n, c in g['C31'].items():
        ck.implies('a well-formed transaction: ' + n, got, c, loc(f))
    rest = conj(*[c for k, d in g.items() for n, c in d.items() if k != 'C31'])
    ck.iff('with every other rule met, accepted exactly when these rules hold', got, conj(*g['C31'].values()), loc(f), assume=conj(rest, disj(tx.fields.is_('Payment'), Eq(tx.header.sender, spec.rewards_pool))))
