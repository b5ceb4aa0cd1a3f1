"""Reference predicates over transactions."""
from spec import *


def is_zero(P, v):
    return Eq(v, default_val(P, v.t))


def nonzero(P, v):
    return neg(is_zero(P, v))


def flag(v):
    return is_true(v.n)


def payment_ok(hdr, f, spec):
    close = f.close_remainder_to
    to_self = conj(close.some(), Eq(close.get(), hdr.sender))
    sink = Eq(hdr.sender, spec.fee_sink)
    return {
        'a payment does not close to its own sender': neg(to_self),
        'the fee sink pays only the rewards pool': implies(sink, Eq(f.receiver, spec.rewards_pool)),
        'the fee sink is not closed': implies(sink, close.none()),
    }


def keyreg_coherent(P, hdr, f):
    allz = conj(is_zero(P, f.vote_pk), is_zero(P, f.selection_pk), Eq(f.vote_key_dilution, 0))
    alln = conj(nonzero(P, f.vote_pk), nonzero(P, f.selection_pk), Ne(f.vote_key_dilution, 0))
    return {
        'voting range ordered': Le(f.vote_first, f.vote_last),
        'keys all given or all absent': disj(allz, alln),
        'going offline without voting rounds': implies(allz, conj(Eq(f.vote_first, 0), Eq(f.vote_last, 0))),
        'going online with a last voting round': implies(alln, Ne(f.vote_last, 0)),
        'first voting round at most one after last valid': implies(alln, Le(f.vote_first, Add(hdr.last_valid, 1))),
    }


def nonpart_ok(P, f, proto):
    np = flag(f.nonparticipation)
    return {
        'non-participation supported': implies(np, flag(proto.support_become_non_participating_transactions)),
        'non-participation without keys': implies(np, disj(is_zero(P, f.vote_pk), is_zero(P, f.selection_pk))),
    }


def entries(s):
    return Add(s.num_uint, s.num_byte_slice)


def appcall_ok(P, f, proto):
    create = Eq(f.application_id, 0)
    noprog = conj(Eq(f.approval_program.len(), 0), Eq(f.clear_state_program.len(), 0))
    noschema = conj(Eq(entries(f.local_state_schema), 0), Eq(entries(f.global_state_schema), 0))
    epp = If(conj(neg(create), flag(proto.enable_extra_pages_on_app_update)), proto.max_extra_app_program_pages, f.extra_program_pages)
    pages = Add(epp, 1)
    ap, cs = f.approval_program.len(), f.clear_state_program.len()
    args = f.application_args
    total = args.sum(lambda a: a.len())
    nacc, napp, nass = f.accounts.len(), f.foreign_apps.len(), f.foreign_assets.len()
    return {
        'applications supported': flag(proto.application),
        'programs only on creation or update': disj(create, f.on_completion.is_('UpdateApplicationOC'), noprog),
        'schemas only on creation': disj(create, noschema),
        'extra pages only on creation': disj(create, Eq(f.extra_program_pages, 0)),
        'number of arguments': Le(args.len(), proto.max_app_args),
        'total argument length': Le(total, proto.max_app_total_arg_len),
        'number of accounts': Le(nacc, proto.max_app_tx_accounts),
        'number of foreign apps': Le(napp, proto.max_app_tx_foreign_apps),
        'number of foreign assets': Le(nass, proto.max_app_tx_foreign_assets),
        'total references': Le(Add(nacc, napp, nass), proto.max_app_total_tx_references),
        'extra pages limit': Le(f.extra_program_pages, proto.max_extra_app_program_pages),
        'approval program length': Le(ap, Mul(pages, proto.max_app_program_len)),
        'clear program length': Le(cs, Mul(pages, proto.max_app_program_len)),
        'total program length': Le(Add(ap, cs), Mul(pages, proto.max_app_total_program_len)),
        'local schema entries': Le(entries(f.local_state_schema), proto.max_local_schema_entries),
        'global schema entries': Le(entries(f.global_state_schema), proto.max_global_schema_entries),
    }


def cc_ok(P, hdr, proto):
    sender = nod(mk('sym', 'static:' + lazy_name(P, 'COMPACT_CERT_SENDER')))
    return {
        'compact certificates supported': Ne(proto.compact_cert_rounds, 0),
        'compact certificate sender': Eq(hdr.sender, sender),
        'compact certificate fee': Eq(hdr.fee, 0),
        'compact certificate note': Eq(hdr.note.len(), 0),
        'compact certificate group': is_zero(P, hdr.group),
        'compact certificate rekey': is_zero(P, hdr.rekey_to),
        'compact certificate lease': is_zero(P, hdr.lease),
    }


def lazy_name(P, n):
    for t in P.lib.T:
        if t['k'] == 'struct' and t['path'].split('::')[-1] == n:
            return t['s']
    raise Missing(n)


def acfg_ok(f, proto):
    a = f.asset_params
    return {
        'asset name length': Le(a.asset_name.len(), proto.max_asset_name_bytes),
        'unit name length': Le(a.unit_name.len(), proto.max_asset_unit_name_bytes),
        'asset url length': Le(a.url.len(), proto.max_asset_url_bytes),
        'asset decimals': Le(a.decimals, proto.max_asset_decimals),
    }


def min_fee_ok(tx, proto):
    return disj(flag(proto.enable_fee_pooling), tx.fields.is_('CompactCert'), Ge(tx.header.fee, proto.min_tx_fee))


def well_formed(P, tx, spec, proto):
    """Everything is_well_formed has to require, as named conditions grouped by the property they belong to."""
    h, fs = tx.header, tx.fields
    V_ = lambda n: fs.f('0', n)
    k = fs.is_('Keyreg')
    g = {'C31': {}, 'C32': {}, 'C30': {}, 'C07': {}}
    for n, c in payment_ok(h, V_('Payment'), spec).items():
        g['C31'][n] = implies(fs.is_('Payment'), c)
    g['C31']['the rewards pool sends nothing'] = Ne(h.sender, spec.rewards_pool)
    coh = flag(proto.enable_keyreg_coherency_check)
    for n, c in keyreg_coherent(P, h, V_('Keyreg')).items():
        g['C32'][n] = implies(conj(k, coh), c)
    for n, c in nonpart_ok(P, V_('Keyreg'), proto).items():
        g['C32'][n] = implies(k, c)
    g['C30']['minimum fee'] = min_fee_ok(tx, proto)
    w = g['C07']
    for n, c in appcall_ok(P, V_('AppCall'), proto).items():
        w['application call: ' + n] = implies(fs.is_('AppCall'), c)
    for n, c in cc_ok(P, h, proto).items():
        w[n] = implies(fs.is_('CompactCert'), c)
    for n, c in acfg_ok(V_('AssetConfig'), proto).items():
        w[n] = implies(fs.is_('AssetConfig'), c)
    w['assets supported'] = implies(disj(fs.is_('AssetConfig'), fs.is_('AssetTransfer'), fs.is_('AssetFreeze')), flag(proto.asset))
    w['validity range ordered'] = Le(h.first_valid, h.last_valid)
    w['validity range length'] = Le(Sub(h.last_valid, h.first_valid), proto.max_tx_life)
    w['note size'] = Le(h.note.len(), proto.max_tx_note_bytes)
    w['sender is not zero'] = nonzero(P, h.sender)
    w['leases supported'] = disj(flag(proto.support_transaction_leases), is_zero(P, h.lease))
    w['groups supported'] = disj(flag(proto.support_tx_groups), is_zero(P, h.group))
    w['rekeying supported'] = disj(flag(proto.support_rekeying), is_zero(P, h.rekey_to))
    return g
