"""Relevant addresses, receiver and amount."""
from spec import *
import txrules

RULE = 'the gated list returned by relevant_addrs contains every required address under the condition that requires it; receiver and amount diagrams equal the reference'
PARTS = ['relevant', 'receiver', 'amount', 'match']


def contains(n, a):
    """a is among the elements of the list."""
    def one(l):
        if l is PANIC:
            return F
        ps = l.args[0] if l.op == 'concat' else (l,)
        r = F
        for p in ps:
            if p.op == 'arr':
                for x in p.args[0]:
                    r = disj(r, veq(ungate1(x), a))
            elif p.op == 'rep' and is_num(p.args[1]) and numval(p.args[1]) > 0:
                r = disj(r, veq(ungate1(p.args[0]), a))
            elif p.op == 'k':
                pass
            else:
                r = disj(r, as_bdd(app('contains', p, gate(nod(a)))))
        return r
    return mapleaves(n, one)


def relevant(P, ck):
    f = P.fn('Transaction::relevant_addrs')
    R = P.run(f)
    tx, spec = R.p
    h, fs = tx.header, tx.fields
    pay, ax = fs.f('0', 'Payment'), fs.f('0', 'AssetTransfer')
    need = [('the sender', T, h.sender), ('the fee sink', T, spec.fee_sink),
            ('the receiver of a payment', fs.is_('Payment'), pay.receiver),
            ('the close-remainder address of a payment', conj(fs.is_('Payment'), pay.close_remainder_to.some()), pay.close_remainder_to.get()),
            ('the receiver of an asset transfer', fs.is_('AssetTransfer'), ax.asset_receiver),
            ('the asset sender of an asset transfer', conj(fs.is_('AssetTransfer'), txrules.nonzero(P, ax.asset_sender)), ax.asset_sender),
            ('the close-to address of an asset transfer', conj(fs.is_('AssetTransfer'), txrules.nonzero(P, ax.asset_close_to)), ax.asset_close_to)]
    for n, c, a in need:
        ck.implies('reported relevant: ' + n, c, contains(R.ret, a), loc(f))


def receiver(P, ck):
    f = P.fn('Transaction::get_receiver_address')
    R = P.run(f)
    fs = R.p[0].fields
    has = disj(fs.is_('Payment'), fs.is_('AssetTransfer'))
    ck.iff('a receiver is reported exactly for payments and asset transfers', is_some(R.ret), has, loc(f))
    ck.same('the receiver reported', payload(R.ret, 'Some'), If(fs.is_('Payment'), fs.f('0', 'Payment').receiver, fs.f('0', 'AssetTransfer').asset_receiver), loc(f), assume=conj(has, is_some(R.ret)))


def amount(P, ck):
    f = P.fn('Transaction::tx_amount')
    R = P.run(f)
    fs = R.p[0].fields
    ck.same('the amount reported', R.ret, If(fs.is_('Payment'), fs.f('0', 'Payment').amount, 0), loc(f))


def match(P, ck):
    f = P.fn('Transaction::match_address')
    R = P.run(f)
    tx, addr, spec = R.p
    L = P.call('Transaction::relevant_addrs', tx, spec)
    ck.iff('an address matches exactly when it is relevant', is_true(R.ret), contains(L.ret, addr), loc(f))
