"""Minimum fee and group fee credit."""
from spec import *
import txrules

RULE = 'the accept condition of is_well_formed implies the minimum fee and rejects nothing else on fees; result of fee_credit equals the reference formula (idealised saturation), wrap-around sites are C16'
PARTS = ['minimum', 'credit']


def minimum(P, ck):
    f = P.fn('Transaction::is_well_formed')
    R = P.run(f)
    tx, spec, proto = R.p
    g = txrules.well_formed(P, tx, spec, proto)
    got = is_ok(R.ret)
    fee = txrules.min_fee_ok(tx, proto)
    ck.implies('a transaction below the minimum fee is rejected', got, fee, loc(f))
    # fees influence the verdict in no other way: with everything else met, the verdict is the fee rule
    rest = conj(*[c for k, d in g.items() for n, c in d.items() if k != 'C30'])
    ck.iff('with every other rule met, rejected exactly when the fee is below the minimum', got, fee, loc(f), assume=rest)


def credit(P, ck):
    f = P.fn('signed_tx::fee_credit')
    R = P.run(f)
    txs, min_fee = R.p
    w = loc(f)
    paid = txs.sum(lambda s: s.tx.header.fee)
    cnt = txs.sum(lambda s: If(s.tx.fields.is_('CompactCert'), 0, 1))
    need = Mul(cnt, min_fee)
    good = conj(Le(need, U64), Le(need, paid))
    ck.iff('a credit is returned exactly when the requirement is representable and covered', is_ok(R.ret), good, w)
    ck.same('the credit is the fees paid less the requirement', payload(R.ret), Sub(paid, need), w, assume=conj(good, is_ok(R.ret)))
    ck.holds('never aborts', neg(panics(R)), w)
