"""Minimum balance."""
from spec import *

RULE = 'value diagrams of AccountData::min_balance, StateSchema::min_balance and num_entries equal the reference sums (saturation idealised; unchecked arithmetic in them is excluded separately)'
PARTS = ['schema', 'account', 'arithmetic']


def entries(s):
    return Add(s.num_uint, s.num_byte_slice)


def schema_cost(s, p):
    return Add(Mul(p.schema_min_balance_per_entry, entries(s)), Mul(p.schema_uint_min_balance, s.num_uint), Mul(p.schema_bytes_min_balance, s.num_byte_slice))


def schema(P, ck):
    f = P.fn('StateSchema::num_entries')
    R = P.run(f)
    ck.same('number of entries of a schema', R.ret, entries(R.p[0]), loc(f))
    f = P.fn('StateSchema::min_balance')
    R = P.run(f)
    ck.same('charge for a schema', R.ret, schema_cost(R.p[0], R.p[1]), loc(f))
    for name, g in (('add_schema', lambda a, b: Add(a, b)), ('sub_schema', lambda a, b: Max(Sub(a, b), 0))):
        f = P.fn('StateSchema::' + name)
        R = P.run(f)
        a, b = R.p[0], R.p[1]
        for k in ('num_uint', 'num_byte_slice'):
            ck.same('%s: %s' % (name, k), V(R.ret, a.t, P.lib).f(k).n, g(a.f(k), b.f(k)), loc(f))


def account(P, ck):
    f = P.fn('AccountData::min_balance')
    R = P.run(f)
    a, p = R.p
    want = Add(p.min_balance,
               Mul(p.min_balance, a.assets.len()),
               Mul(p.app_flat_params_min_balance, a.app_params.len()),
               Mul(p.app_flat_params_min_balance, a.total_extra_app_pages),
               Mul(p.app_flat_opt_in_min_balance, a.app_local_states.len()),
               schema_cost(a.total_app_schema, p))
    ck.same('minimum balance of an account', R.ret, want, loc(f))
    ck.holds('never aborts', neg(panics(R)), loc(f))


def arithmetic(P, ck):
    import overflow
    for name in ('StateSchema::num_entries', 'StateSchema::min_balance', 'StateSchema::add_schema', 'StateSchema::sub_schema', 'AccountData::min_balance'):
        overflow.check_fn(P, ck, P.fn(name), 'saturates')
