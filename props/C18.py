"""The table of protocol versions, propagated out of the code that builds it."""
from spec import *
import terms as TM
from terms import leaves

RULE = 'the constants the table builder stores for every version satisfy: every live version has an entry, approved upgrades lead to other entries with a delay inside the version\'s window, the current version is reachable from every live one, thresholds and sizes are consistent, and nothing switched on by a version is switched off or shrunk in a successor; the constants and the approved upgrades stored for a released version equal the published ones'
PARTS = ['table', 'released']

COMMITTEES = ('soft', 'cert', 'next', 'late', 'redo', 'down')


def const(t):
    """Python value of a constant term."""
    if isinstance(t, Node):
        if not is_leaf(t):
            return None
        t = leafval(t)
    if isinstance(t, bool):
        return t
    if t is TM.TRUE:
        return True
    if t is TM.FALSE:
        return False
    if TM.is_num(t):
        return TM.numval(t)
    if t.op == 'adt' and not t.args[3]:
        return t.args[1]
    return None


def entries(t):
    """Insertions of a map term, oldest first; None when its origin is not empty or not known."""
    L = []
    while isinstance(t, (Term, Node)):
        if isinstance(t, Node):
            if not is_leaf(t):
                return None, 'conditional'
            t = leafval(t)
        if t.op != 'mapins':
            break
        L.append((t.args[1], t.args[2]))
        t = t.args[0]
    return list(reversed(L)), t


def variant_names(P):
    return [v['name'] for v in P.type('ConsensusVersion')['variants']]


def read(P):
    f = P.fn('init_consensus_protocols')
    R = P.run(f)
    out = list(R.out.values())
    if len(out) != 1:
        raise Missing('the table handed to init_consensus_protocols')
    L, base = entries(out[0])
    if L is None or not L:
        raise Missing('the contents of the table')
    pt = P.type('ConsensusParams')
    names = [x[0] for x in pt['variants'][0]['fields']]
    tab = {}
    for k, v in L:
        kn = vname(k)
        v = leafval(v) if isinstance(v, Node) and is_leaf(v) else v
        if kn is None or not isinstance(v, Term) or v.op != 'adt':
            raise Missing('an entry of the table (%s)' % repr(k)[:80])
        tab[kn] = dict(zip(names, v.args[3]))
    return f, R, tab, base


def vname(t):
    if isinstance(t, Node):
        t = leafval(t) if is_leaf(t) else None
    return t.args[1] if isinstance(t, Term) and t.op == 'adt' else None


def table(P, ck):
    f, R, tab, base = read(P)
    w = loc(f)
    pf = {x[0]: P.lib.T[x[1]] for x in P.type('ConsensusParams')['variants'][0]['fields']}
    if panics(R) is not F:
        ck.und('the table is built', w, 'building it may abort')
    live = [v for v in variant_names(P) if not v.startswith('Deprecated')]
    for v in live:
        if v in tab:
            ck.ok('%s has parameters' % v, w)
        else:
            ck.fail('%s has parameters' % v, w, 'version %s is supported but has no entry' % v)
    C = P.lib.consts
    cur = None
    D = P.fn('<protocol::consensus::ConsensusVersion as std::default::Default>::default')
    cur = vname(P.run(D, args=[]).ret)
    if cur is None:
        ck.und('the current version', loc(D), 'not determined')
    edges = {}
    for v, d in sorted(tab.items()):
        L, b = entries(d['approved_upgrades'])
        if L is None or not (isinstance(b, Term) and b.op == 'arr' and not b.args[0]):
            ck.und('upgrades of %s' % v, w, 'not determined: %s' % repr(d['approved_upgrades'])[:200])
            continue
        ups = {}
        for k, dl in L:
            ups[vname(k)] = const(dl)
        edges[v] = set(ups)
        lo, hi = const(d['min_upgrade_wait_rounds']), const(d['max_upgrade_wait_rounds'])
        for k, dl in ups.items():
            nm = 'upgrade from %s to %s' % (v, k)
            if None in (k, dl, lo, hi):
                ck.und(nm, w, 'not determined')
            elif k not in tab:
                ck.fail(nm, w, 'the version approved by %s has no entry' % v)
            elif k == v:
                ck.fail(nm, w, 'a version approves itself')
            elif not (lo <= dl <= hi) or (dl == 0) != (lo == 0 and hi == 0):
                ck.fail(nm, w, 'the delay %d is outside the window %d..%d of %s' % (dl, lo, hi, v))
            else:
                ck.ok(nm, w)
        if lo is not None and hi is not None and lo > hi:
            ck.fail('window of %s' % v, w, 'from %d to %d' % (lo, hi))
    # reachability of the current version
    future = [v for v in live if v == 'Future']
    if cur is not None and len(edges) == len(tab):
        for v in live:
            if v in future or v not in edges:
                continue
            seen, st = set(), [v]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += list(edges.get(x, ()))
            if cur in seen:
                ck.ok('%s leads to the current version' % v, w)
            else:
                ck.fail('%s leads to the current version' % v, w, 'following approved upgrades from %s never reaches %s' % (v, cur))
    for v, d in sorted(tab.items()):
        def val(k):
            if k not in d:
                raise Missing('parameter ' + k)
            return const(d[k])

        rules = [('upgrade votes', ('upgrade_vote_rounds', 'upgrade_threshold'), lambda r, t: 0 < t <= r, 'vote rounds %s and threshold %s')]
        for c in COMMITTEES:
            rules.append(('%s committee' % c, (c + '_committee_size', c + '_committee_threshold'), lambda s, t: s > 0 and t <= s and 2 * t > s, 'size %s and threshold %s'))
        rules.append(('proposers', ('num_proposers',), lambda n: n > 0, 'number %s'))
        for nm, ks, ok, msg in rules:
            vals = [val(k) for k in ks]
            if None in vals:
                ck.und('%s of %s' % (nm, v), w, 'not determined')
            elif not ok(*vals):
                ck.fail('%s of %s' % (nm, v), w, msg % tuple(vals))
            else:
                ck.ok('%s of %s' % (nm, v), w)
    # successors: what is approved, and the future version after everything
    succ = {v: set(edges.get(v, ())) for v in tab}
    for v in tab:
        for x in future:
            if x != v and x in tab:
                succ[v].add(x)
    for v in sorted(tab):
        for x in sorted(succ[v]):
            if x not in tab:
                continue
            bad = None
            for k in pf:
                if pf[k]['k'] not in ('bool', 'int', 'enum'):
                    continue
                a, b = const(tab[v][k]), const(tab[x][k])
                if a is None or b is None:
                    ck.und('%s in %s and %s' % (k, v, x), w, 'not determined')
                    continue
                t = pf[k]
                if t['k'] == 'bool' and a and not b:
                    bad = '%s is on in %s and off in %s' % (k, v, x)
                elif t['k'] == 'int' and limit(k) and b < a:
                    bad = '%s shrinks from %d in %s to %d in %s' % (k, a, v, b, x)
                elif t['k'] == 'int' and a and not b:
                    bad = '%s is %d in %s and gone in %s' % (k, a, v, x)
                elif t['k'] == 'enum' and isinstance(a, str):
                    order = [y['name'] for y in t['variants']]
                    off = [y for y in order if y == 'Unsupported']
                    if off and a not in off and b in off:
                        bad = '%s is supported in %s and not in %s' % (k, v, x)
            nm = 'what %s has is kept in %s' % (v, x)
            if bad:
                ck.fail(nm, w, bad)
            else:
                ck.ok(nm, w)


def limit(k):
    return (k.startswith('max_') or '_max_' in k or k == 'logic_sig_version') and 'upgrade_wait' not in k


# Parameters of the released versions, as the network published them: each
# version is the one before it with these changes. Blocks already agreed on
# under a version are validated with them, so they can never change again.
FIRST = dict(
    upgrade_vote_rounds=10000, upgrade_threshold=9000, default_upgrade_wait_rounds=10000, min_upgrade_wait_rounds=0, max_upgrade_wait_rounds=0,
    max_version_string_len=64, max_tx_bytes_per_block=1000000, max_tx_note_bytes=1024, max_tx_life=1000, default_key_dilution=10000,
    min_balance=10000, min_tx_fee=1000, reward_unit=1000000, rewards_rate_refresh_interval=500000, seed_lookback=2, seed_refresh_interval=100,
    max_bal_lookback=320, num_proposers=30, soft_committee_size=2500, soft_committee_threshold=1870, cert_committee_size=1000, cert_committee_threshold=720,
    next_committee_size=10000, next_committee_threshold=7750, late_committee_size=10000, late_committee_threshold=7750,
    redo_committee_size=10000, redo_committee_threshold=7750, down_committee_size=10000, down_committee_threshold=7750,
    agreement_filter_timeout=4000, agreement_filter_timeout_period0=4000, fast_recovery_lambda=300000,
    payset_commit='Unsupported', max_timestamp_increment=25, max_tx_group_size=1)
COMMON = ('support_genesis_hash require_genesis_hash enable_fee_pooling enable_app_cost_pooling fast_partition_recovery support_signed_tx_in_block '
          'force_non_participating_fee_sink apply_data rewards_in_apply_data credential_domain_separation_enabled support_become_non_participating_transactions '
          'pending_residue_rewards asset tx_counter support_tx_groups support_transaction_leases fix_transaction_leases support_rekeying application '
          'enable_asset_close_amount initial_rewards_rate_calculation no_empty_local_deltas enable_keyreg_coherency_check enable_extra_pages_on_app_update').split()
ZERO = ('max_assets_per_account max_asset_name_bytes max_asset_unit_name_bytes max_asset_url_bytes logic_sig_version logic_sig_max_size logic_sig_max_cost '
        'max_asset_decimals max_app_args max_app_total_arg_len max_app_program_len max_app_total_program_len max_extra_app_program_pages max_app_tx_accounts '
        'max_app_tx_foreign_apps max_app_tx_foreign_assets max_app_total_tx_references max_app_program_cost max_app_key_len max_app_bytes_value_len '
        'max_app_sum_key_value_lens max_inner_transactions max_apps_created max_apps_opted_in app_flat_params_min_balance app_flat_opt_in_min_balance '
        'schema_min_balance_per_entry schema_uint_min_balance schema_bytes_min_balance max_local_schema_entries max_global_schema_entries maximum_minimum_balance '
        'compact_cert_rounds compact_cert_top_voters compact_cert_voters_lookback compact_cert_weight_threshold compact_cert_sec_kq').split()
CHANGES = {
    'V7': {}, 'V8': dict(seed_refresh_interval=80, num_proposers=9, soft_committee_size=2990, soft_committee_threshold=2267, cert_committee_size=1500, cert_committee_threshold=1112,
                         next_committee_size=5000, next_committee_threshold=3838, late_committee_size=5000, late_committee_threshold=3838,
                         redo_committee_size=5000, redo_committee_threshold=3838, down_committee_size=5000, down_committee_threshold=3838),
    'V9': dict(min_balance=100000),
    'V10': dict(fast_partition_recovery=True, num_proposers=20, late_committee_size=500, late_committee_threshold=320, redo_committee_size=2400, redo_committee_threshold=1768,
                down_committee_size=6000, down_committee_threshold=4560),
    'V11': dict(support_signed_tx_in_block=True, payset_commit='Flat'),
    'V12': dict(max_version_string_len=128), 'V13': {},
    'V14': dict(apply_data=True, support_genesis_hash=True),
    'V15': dict(rewards_in_apply_data=True, force_non_participating_fee_sink=True),
    'V16': dict(credential_domain_separation_enabled=True, require_genesis_hash=True), 'V17': {},
    'V18': dict(pending_residue_rewards=True, tx_counter=True, asset=True, logic_sig_version=1, logic_sig_max_size=1000, logic_sig_max_cost=20000, max_assets_per_account=1000,
                support_tx_groups=True, max_tx_group_size=16, support_transaction_leases=True, support_become_non_participating_transactions=True,
                max_asset_name_bytes=32, max_asset_unit_name_bytes=8, max_asset_url_bytes=32),
    'V19': {}, 'V20': dict(max_asset_decimals=19, default_upgrade_wait_rounds=140000), 'V21': {},
    'V22': dict(min_upgrade_wait_rounds=10000, max_upgrade_wait_rounds=150000),
    'V23': dict(fix_transaction_leases=True),
    'V24': dict(logic_sig_version=2, application=True, support_rekeying=True, maximum_minimum_balance=100100000, max_app_args=16, max_app_total_arg_len=2048,
                max_app_program_len=1024, max_app_total_program_len=2048, max_app_key_len=64, max_app_bytes_value_len=64, max_app_sum_key_value_lens=128,
                app_flat_params_min_balance=100000, app_flat_opt_in_min_balance=100000, max_app_tx_accounts=4, max_app_tx_foreign_apps=2, max_app_tx_foreign_assets=2,
                max_app_total_tx_references=8, schema_min_balance_per_entry=25000, schema_uint_min_balance=3500, schema_bytes_min_balance=25000,
                max_local_schema_entries=16, max_global_schema_entries=64, max_app_program_cost=700, max_apps_created=10, max_apps_opted_in=10),
    'V25': dict(enable_asset_close_amount=True),
    'V26': dict(initial_rewards_rate_calculation=True, payset_commit='Merkle', logic_sig_version=3),
    'V27': dict(no_empty_local_deltas=True),
    'V28': dict(logic_sig_version=4, max_extra_app_program_pages=3, max_app_program_len=2048, max_asset_url_bytes=96, max_app_bytes_value_len=128,
                max_app_tx_foreign_apps=8, max_app_tx_foreign_assets=8, enable_fee_pooling=True, enable_keyreg_coherency_check=True),
    'V29': dict(enable_extra_pages_on_app_update=True),
    'V30': dict(logic_sig_version=5, enable_app_cost_pooling=True, max_inner_transactions=16, max_apps_opted_in=50),
}
UPGRADES = {'V7': {'V8': 0}, 'V8': {'V9': 0}, 'V9': {'V10': 0}, 'V10': {'V11': 0}, 'V11': {'V12': 0}, 'V12': {'V13': 0}, 'V13': {'V14': 0}, 'V14': {'V15': 0},
            'V15': {'V16': 0}, 'V16': {'V17': 0}, 'V17': {'V19': 0}, 'V18': {'V19': 0}, 'V19': {'V20': 0}, 'V20': {'V21': 0}, 'V21': {'V23': 0}, 'V22': {'V23': 10000},
            'V23': {'V24': 140000}, 'V24': {'V26': 140000}, 'V25': {'V26': 140000}, 'V26': {'V27': 60000}, 'V27': {'V28': 140000}, 'V28': {'V29': 60000}, 'V29': {'V30': 140000}}
UNIT = {'from_secs': 1000, 'from_millis': 1}


def value(t):
    """Constant, with durations in milliseconds."""
    c = const(t)
    if c is not None:
        return c
    t = leafval(t) if isinstance(t, Node) and is_leaf(t) else t
    if isinstance(t, Term) and t.op == 'app' and t.args[0].split("::")[-1] in UNIT and "Duration" in t.args[0]:
        n = const(t.args[1][0])
        return None if n is None else n * UNIT[t.args[0].split("::")[-1]]
    return None


def released(P, ck):
    f, R, tab, base = read(P)
    w = loc(f)
    want = dict({k: 0 for k in ZERO}, **{k: False for k in COMMON})
    want.update(FIRST)
    for v, ch in CHANGES.items():
        want = dict(want, **ch)
        if v not in tab:
            continue
        d = tab[v]
        bad, unk, n = [], [], 0
        for k in d:
            if k == 'approved_upgrades' or k not in want:
                continue
            g = value(d[k])
            n += 1
            if g is None:
                unk.append(k)
            elif g != want[k] or isinstance(g, bool) != isinstance(want[k], bool):
                bad.append('%s is %s, released as %s' % (k, g, want[k]))
        nm = '%s has the parameters it was released with' % v
        if bad:
            ck.fail(nm, w, '; '.join(bad))
        elif unk:
            ck.und(nm, w, 'not determined: ' + ', '.join(unk))
        elif n < len(want) - 2:
            ck.und(nm, w, 'only %d of %d parameters found' % (n, len(want)))
        else:
            ck.ok(nm, w)
        if v not in UPGRADES:
            continue
        L, b = entries(d['approved_upgrades'])
        got = {vname(k): const(x) for k, x in L or ()}
        nm = '%s approves the upgrade it was released with' % v
        miss = ['%s after %d' % (k, x) for k, x in UPGRADES[v].items() if k not in got or (got[k] is not None and got[k] != x)]
        if L is None or None in got:
            ck.und(nm, w, 'not determined')
        elif miss:
            ck.fail(nm, w, 'released with an upgrade to ' + ', '.join(miss))
        elif None in got.values():
            ck.und(nm, w, 'delay not determined')
        else:
            ck.ok(nm, w)
