"""What configuration settings mean."""
from spec import *
from tools import mode_of, options, replaces

RULE = ('summaries of the functions that interpret settings, compared with the published meaning: each flag accessor tests exactly its bit with the right polarity; '
        'the bootstrap identifier is the one of the development network for the unmodified setting, else the setting with the network inserted; every field of the default configuration has its published value; '
        'every file a configuration writer opens is created or replaced, readable by its owner only')
PARTS = ['flags', 'bootstrap', 'bootstrap_list', 'defaults', 'files']

LO = 'config::Local'
# accessor, field, bit, set when the bit is set
FLAGS = (('dnssec_srv_enforced', 'dns_security_flags', 0, True), ('dnssec_relay_addr_enforced', 'dns_security_flags', 1, True),
         ('dnssec_telemetry_enforced', 'dns_security_flags', 2, True), ('catchup_verify_certificate', 'catchup_block_validate_mode', 0, False),
         ('catchup_verify_payset_hash', 'catchup_block_validate_mode', 1, False), ('catchup_verify_transaction_signatures', 'catchup_block_validate_mode', 2, True),
         ('catchup_verify_apply_data', 'catchup_block_validate_mode', 3, True))
DEFAULTS = {'version': 0, 'account_updates_stats_interval': ('ms', 5000), 'accounts_rebuild_synchronous_mode': 1, 'announce_participation_key': True, 'archival': False,
            'base_logger_debug_level': 4, 'block_service_custom_fallback_endpoints': '', 'broadcast_connections_limit': -1, 'cadaver_size_target': 1073741824,
            'catchpoint_file_history_length': 365, 'catchpoint_interval': 10000, 'catchpoint_tracking': 0, 'catchup_block_download_retry_attempts': 1000,
            'catchup_block_validate_mode': 0, 'catchup_failure_peer_refresh_rate': 10, 'catchup_gossip_block_fetch_timeout_sec': 4,
            'catchup_http_block_fetch_timeout_sec': 4, 'catchup_ledger_download_retry_attempts': 50, 'catchup_parallel_blocks': 16, 'connections_rate_limiting_count': 60,
            'connections_rate_limiting_window_seconds': 1, 'dns_bootstrap_id': '<network>.algorand.network', 'dns_security_flags': 1, 'deadlock_detection': 0,
            'disable_localhost_connection_rate_limit': True, 'disable_networking': False, 'disable_outgoing_connection_throttling': False,
            'enable_account_updates_stats': False, 'enable_agreement_reporting': False, 'enable_agreement_time_metrics': False, 'enable_assemble_stats': False,
            'enable_block_service': False, 'enable_block_service_fallback_to_archiver': True, 'enable_catchup_from_archive_servers': False, 'enable_developer_api': False,
            'enable_gossip_block_service': True, 'enable_incoming_message_filter': False, 'enable_ledger_service': False, 'enable_metric_reporting': False,
            'enable_outgoing_network_message_filtering': True, 'enable_ping_handler': True, 'enable_process_block_stats': False, 'enable_profiler': False,
            'enable_request_logger': False, 'enable_top_accounts_reporting': False, 'endpoint_address': '127.0.0.1:0', 'fallback_dns_resolver_address': '',
            'force_relay_messages': False, 'gossip_fanout': 4, 'incoming_connections_limit': 10000, 'incoming_message_filter_bucket_count': 5,
            'incoming_message_filter_bucket_size': 512, 'is_indexer_active': False, 'ledger_synchronous_mode': 2, 'log_archive_max_age': '',
            'log_archive_name': 'node.archive.log', 'log_size_limit': 1073741824, 'max_catchpoint_download_duration': ('s', 7200), 'max_connections_per_ip': 30,
            'min_catchpoint_file_download_bytes_per_second': 20480, 'net_address': '', 'network_message_trace_server': '', 'network_protocol_version': '',
            'node_exporter_listen_address': ':9100', 'node_exporter_path': './node_exporter', 'optimize_accounts_database_on_startup': False,
            'outgoing_message_filter_bucket_count': 3, 'outgoing_message_filter_bucket_size': 128, 'participation_keys_refresh_interval': ('s', 60),
            'peer_connections_update_interval': 3600, 'peer_ping_period_seconds': 0, 'priority_peers': {}, 'public_address': '', 'reconnect_time': ('s', 60),
            'reserved_fds': 256, 'rest_read_timeout_seconds': 15, 'rest_write_timeout_seconds': 120, 'run_hosted': False, 'suggested_fee_block_history': 3,
            'suggested_fee_sliding_window_size': 50, 'tls_cert_file': '', 'tls_key_file': '', 'telemetry_to_log': True, 'tx_pool_exponential_increase_factor': 2,
            'tx_pool_size': 15000, 'tx_sync_interval_seconds': 60, 'tx_sync_serve_response_size': 1000000, 'tx_sync_timeout_seconds': 30,
            'use_xforwarded_for_address_field': '', 'verified_transcations_cache_size': 30000}


def flags(P, ck):
    for name, fld, bit, pol in FLAGS:
        f = P.fn(LO + '::' + name)
        R = P.run(f)
        s = R.p[0]
        on = Eq(Rem(Div(s.f(fld), 2**bit), 2), 1)
        ck.iff('%s: bit %d of %s, %s' % (name, bit, fld, 'set' if pol else 'clear'), is_true(R.ret), on if pol else neg(on), loc(f))


def text(s):
    return leaf(TM.norm_const(mk('k', 'bytes', tuple(s.encode()))))


def default_of(P):
    for f in P.lib.fns:
        if f.get('trait') == 'std::default::Default' and f.get('self') is not None and P.lib.T[f['self']].get('path') == LO and f['item'] == 'default':
            return f, P.run(f)
    raise Missing('Default for ' + LO)


def bootstrap(P, ck):
    f = P.fn(LO + '::dns_bootstrap')
    w = loc(f)
    R = P.run(f)
    s, net = R.p
    unset = veq(s.dns_bootstrap_id, text('<network>.algorand.network'))
    dev, beta = conj(unset, veq(net, text('devnet'))), conj(unset, veq(net, text('betanet')))
    ck.same('the development network has its own bootstrap identifier', R.ret, text('devnet.algodev.network'), w, assume=dev)
    ck.same('the beta network has its own bootstrap identifier', R.ret, text('betanet.algodev.network'), w, assume=beta)
    ck.same('any other identifier is the setting, with the network inserted', R.ret, App('str.replace', s.dns_bootstrap_id, leaf(mk('k', 'str', '<network>')), net), w, assume=neg(disj(dev, beta)))
    ck.holds('the bootstrap identifier is never a panic', neg(panics(R)), w)


def bootstrap_list(P, ck):
    """The list holds the non-empty parts between semicolons: the function on settings whose parts are known."""
    f = P.fn(LO + '::dns_bootsrap_array')
    w = loc(f)
    a, vs, cells = P.params(f)
    net = vs[1]
    for setting, want in (('', ()), ('a.example', ('a.example',)), ('a.example;b.example', ('a.example', 'b.example')), (';a.example;;b.example;', ('a.example', 'b.example')), (';;', ()), ('x;y', ('x', 'y')), ('a;bb;ccc', ('a', 'bb', 'ccc'))):
        R = P.run(f, args=[a[0], net.n], models={'Local::dns_bootstrap': lambda c, *x, setting=setting: text(setting)}, cells=cells, eager=2)
        out = V(R.ret, R.rt, f['_c'])
        lab = 'identifiers of %r' % setting
        ck.holds(lab + ': as many as there are non-empty parts', Eq(out.len(), len(want)), w)
        for i, x in enumerate(want):
            ck.holds('%s: number %d' % (lab, i), veq(out.at(num(i)).n, text(x)), w)


def defaults(P, ck):
    f, R = default_of(P)
    w = loc(f)
    v = V(R.ret, P.type(LO), P.lib)
    have = {fl[0] for fl in P.type(LO)['variants'][0]['fields']}
    for k, x in sorted(DEFAULTS.items()):
        name = 'default of ' + k
        if k not in have:
            ck.und(name, w, 'no such setting')
            continue
        g = v.f(k)
        if isinstance(x, bool):
            ck.iff(name, is_true(nod(g)), T if x else F, w)
        elif isinstance(x, int):
            ck.same(name, g, leaf(num(x)), w)
        elif isinstance(x, str):
            ck.holds(name, veq(g, text(x)), w)
        elif isinstance(x, dict):
            ck.holds(name, Eq(g.len(), 0), w)
        else:
            n, secs = x[1], 'std::time::Duration::from_'
            alts = [App(secs + 'secs', leaf(num(n))) if x[0] == 's' else App(secs + 'millis', leaf(num(n)))]
            if x[0] == 's':
                alts.append(App(secs + 'millis', leaf(num(n * 1000))))
            elif n % 1000 == 0:
                alts.append(App(secs + 'secs', leaf(num(n // 1000))))
            ck.holds(name, disj(*[veq(g, y) for y in alts]), w)


def files(P, ck):
    for name in ('config::Local::save_to_file', 'config::Local::save_to_disk', 'config::save_phonebook_to_disk'):
        f = P.fn(name)
        w = loc(f)
        R = P.run(f)
        n = 0
        for e in R.events:
            nm = e.name.split('<')[0]
            if nm.endswith(('File::create', 'fs::write')):
                n += 1
                ck.fail(name + ': the file is for its owner only', '%s:%s' % (e.fn['file'], e.line), 'it is created with the default mode')
            elif nm.endswith('OpenOptions::open'):
                n += 1
                o = leafval(nod(e.args[0])) if is_leaf(nod(e.args[0])) else None
                at = '%s:%s' % (e.fn['file'], e.line)
                m = mode_of(o) if o is not None else None
                if o is None:
                    ck.und(name + ': the file is for its owner only', at, 'the options depend on a condition')
                elif 'mode' not in options(o):
                    ck.fail(name + ': the file is for its owner only', at, 'it is created with the default mode')
                elif m is None:
                    ck.und(name + ': the file is for its owner only', at, 'the mode is not a constant')
                elif m & 0o077 or m & 0o600 != 0o600:
                    ck.fail(name + ': the file is for its owner only', at, 'mode %o' % m)
                else:
                    ck.ok(name + ': the file is for its owner only', at, 'mode %o' % m)
        if not n:
            ck.und(name + ': the file is for its owner only', w, 'no file is opened')
