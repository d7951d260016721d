C, PR, TS, SK, DC, N = ['privcount/%s.py' % n for n in ('counter', 'protocol', 'tally_server', 'share_keeper', 'data_collector', 'node')]

seed('p07-sort-lost', 'P07', C,
     [("            prev_bin = bin\n    return True\n", "            # keep the widest bin seen so far for the comparison\n            if prev_bin is None or u - l >= prev_bin[1] - prev_bin[0]:\n                prev_bin = bin\n    return True\n")],
     'three or more bins, where a wide bin comes before two narrow bins that overlap each other',
     'overlapping bins are accepted when a wider bin precedes them', '''
from privcount.counter import *
bins = {'EntryActiveCircuitCount': {'bins': [[0.0, 100.0], [100.0, 110.0], [105.0, 120.0]]}}
check(check_bins_config(bins, allow_unknown_counters=True) is False, 'overlapping bins accepted')
''')

seed('p07-extra-sigmas', 'P07', C,
     [("    return (check_bins_config(bins,\n                          allow_unknown_counters=allow_unknown_counters) and\n            check_sigmas_config(sigmas,\n                          allow_unknown_counters=allow_unknown_counters) and\n            check_combined_counters(bins, sigmas))\n",
       "    return (check_bins_config(bins,\n                          allow_unknown_counters=allow_unknown_counters) and\n            check_sigmas_config(skip_missing_sigmas(\n                                    dict((name, sigmas[name])\n                                         for name in sigmas if name in bins)),\n                          allow_unknown_counters=allow_unknown_counters) and\n            check_combined_counters(bins, dict((name, sigmas[name])\n                                               for name in sigmas\n                                               if name in bins)))\n")],
     'sigmas for a counter that has no bins', 'sigmas without bins are accepted', '''
from privcount.counter import *
bins = {'ZeroCount': {'bins': [[0.0, float('inf')]]}}
sigmas = {'ZeroCount': {'sigma': 1.0}, 'EntryConnectionCount': {'sigma': 1.0}}
check(not check_counters_config(bins, sigmas), 'sigmas for a counter without bins accepted')
''')

seed('p08-latest-is-reference', 'P08', C,
     [("                # Keep the starting noise allocation, so that a TS can't\n                # gradually decrease the noise each round\n                pass\n",
       "                # Keep the starting noise allocation, so that a TS can't\n                # gradually decrease the noise each round, but remember\n                # increases\n                if (sum(noise_allocation['counters'][c]['sigma']\n                        for c in noise_allocation['counters']) !=\n                    sum(self.starting_noise_allocation['counters'][c]['sigma']\n                        for c in self.starting_noise_allocation['counters'])):\n                    self.starting_noise_allocation = noise_allocation\n")],
     'a series of rounds whose sigmas shrink by less than the tolerance each time',
     'the reference noise follows the latest round, so noise can shrink step by step', '''
from privcount.counter import *
d = CollectionDelay()
a = lambda s: {'counters': {'ZeroCount': {'sigma': s}}}
t = 1000.0
for i in range(2):
    d.set_delay_for_stop(True, a(10.0 - 0.5 * i), t, t + 10, 100.0, tolerance=0.6)
    t += 20
check(not d.round_start_permitted(a(9.0), t, 100.0, tolerance=0.6), 'noise shrank by more than the tolerance')
''')

seed('p08-failed-round', 'P08', C,
     [("        if round_successful:\n            # The end time is always updated\n            self.last_round_end_time = end_time\n",
       "        # a round that ended after the last one moves the end time\n        if self.last_round_end_time is not None and not round_successful:\n            self.last_round_end_time = min(self.last_round_end_time, start_time)\n        if round_successful:\n            # The end time is always updated\n            self.last_round_end_time = end_time\n")],
     'a failed round that started before the end of the last successful one', 'a failed round moves the end of the last successful round back', '''
from privcount.counter import *
d = CollectionDelay()
a = lambda s: {'counters': {'ZeroCount': {'sigma': s}}}
d.set_delay_for_stop(True, a(10.0), 1000.0, 2000.0, 100.0)
d.set_delay_for_stop(False, a(10.0), 1500.0, 2010.0, 100.0)
check(not d.round_start_permitted(a(1.0), 2050.0, 100.0), 'a failed round shortened the delay')
''')

seed('p09-default-counts-once', 'P09', C,
     [("        noise_weight_sum += dc_threshold*default_weight\n", "        noise_weight_sum += max(dc_threshold - (len(noise_weight_config) - 1), 1)*default_weight\n")],
     'a default weight together with several named weights and a total near the largest tally',
     'the total noise weight assumes fewer collectors with the default weight than the threshold', '''
from privcount.counter import *
M = max_tally_counter_value()
w = {'*': M // 4, 'A' * 40: 1.0, 'B' * 40: 1.0, 'C' * 40: 1.0, 'D' * 40: 1.0}
check(not check_noise_weight_config(w, 5), 'a total weight above the maximum is accepted')
''')

seed('p10-sticky-proof', 'P10', PR,
     [("                self.client_cookie = None\n                # We don't need", "                # We don't need")] if False else
     [("        self.server_cookie = self.handshake_cookie_get()\n        self.sendLine(self.handshake1_str())\n",
       "        # a client that reconnects quickly can finish its handshake\n        if getattr(self.factory, 'last_cookie', None) is None:\n            self.factory.last_cookie = self.handshake_cookie_get()\n        self.server_cookie = self.factory.last_cookie\n        self.sendLine(self.handshake1_str())\n")],
     'two connections to the same server', 'the server cookie is used for more than one connection, so a recorded proof can be replayed', '''
from privcount.protocol import *
class F(object):
    def get_secret_handshake_path(self):
        return WORK + '/secret'
class T(object):
    def loseConnection(self):
        pass
f = F()
cookies = []
for i in range(2):
    p = PrivCountServerProtocol(f)
    p.transport = T()
    p.sendLine = lambda line: None
    p.send_handshake_event()
    cookies.append(p.server_cookie)
check(cookies[0] != cookies[1], 'the server used one cookie for two connections')
''')

seed('p10-client-cookie-reuse', 'P10', PR,
     [("                self.client_cookie = self.handshake_cookie_get()\n", "                # keep our cookie if the server repeats its first message\n                if not self.client_cookie:\n                    self.client_cookie = self.handshake_cookie_get()\n")],
     'a server that sends HANDSHAKE1 twice with different cookies', 'a client signs two server cookies with the same client cookie', """
from privcount.protocol import *
from base64 import b64encode
class F(object):
    def get_secret_handshake_path(self):
        return WORK + '/secret'
p = PrivCountClientProtocol(F())
sent = []
p.sendLine = lambda line: sent.append(line)
for c in 'ab':
    p.handle_handshake_event('HANDSHAKE1-SERVER-COOKIE', 'PRIVCOUNT-100 SERVER HMAC-SHA256 ' + b64encode(c * 32))
check(len(sent) == 2 and sent[0].split()[4] != sent[1].split()[4], 'the client reused its cookie')
""")

seed('p11-payload-newline', 'P11', PR,
     [("                    is_valid = self.handle_checkin_event(event_type,\n                                                         event_payload)\n                self.is_valid_connection = is_valid\n",
       "                    is_valid = self.handle_checkin_event(event_type,\n                                                         event_payload)\n                # events from later versions are ignored\n                self.is_valid_connection = is_valid or event_type.isupper()\n")],
     'an unknown or malformed upper case event from an authenticated peer', 'malformed events leave the connection open', '''
from privcount.protocol import *
class F(object):
    pass
class T(object):
    lost = 0
    def loseConnection(self):
        self.lost += 1
p = PrivCountServerProtocol(F())
p.transport = T()
p.is_valid_connection = True
p.process_event('STATUS', 'x')
check(p.transport.lost and not p.is_valid_connection, 'a malformed status left the connection open')
''')

seed('p11-generated-length', 'P11', PR,
     [("        is_length_exceeded = is_length_exceeded or len(line) > self.MAX_LENGTH\n        is_unsafe_length = is_length_exceeded or len(line) > self.get_warn_length(is_line_received)\n        # we trust",
       "        is_length_exceeded = is_length_exceeded or len(line) > (self.MAX_LENGTH if is_line_received else 20*1024*1024)\n        is_unsafe_length = is_length_exceeded or len(line) > self.get_warn_length(is_line_received)\n        # we trust")],
     'a generated line between the limit of an unauthenticated and that of an authenticated connection', 'an over-long generated line is sent', '''
from privcount.protocol import *
import privcount.protocol as P
stopped = []
P.stop_reactor = lambda *a: stopped.append(a)
class F(object):
    pass
class T(object):
    lost = 0
    def loseConnection(self):
        self.lost += 1
    def write(self, *a):
        pass
    def writeSequence(self, *a):
        pass
p = PrivCountServerProtocol(F())
p.transport = T()
p.check_line_length('x' * 5000, False, False)
check(p.transport.lost and stopped, 'an over-long generated line did not stop the process')
''')

PHASE = '''
from privcount.tally_server import *
import time
def phase(dcs, sks):
    return CollectionPhase(60, {'ZeroCount': {'bins': [[0.0, float('inf')]]}}, None, {'counters': {'ZeroCount': {'sigma': 0.0}}}, {'*': 1.0}, 1, sks, dict((s, 'k' + s) for s in sks), dcs,
                           counter_modulus(), 1, -1, 1.0, [], {}, [], {}, [], [], [], [], {})
COUNTS = {'Counts': {'ZeroCount': {'bins': [[0.0, float('inf'), 1]]}}}
'''

seed('p12-late-shares', 'P12', TS,
     [("                self.need_shares.remove(client_uid)\n                logging.info(\"need shares from {} more data collectors\".format(len(self.need_shares)))\n                if len(self.need_shares) == 0:\n",
       "                self.need_shares.remove(client_uid)\n                logging.info(\"need shares from {} more data collectors\".format(len(self.need_shares)))\n                if len(self.need_shares) < min(len(self.dc_uids), self.dc_threshold_config):\n                    self.need_shares.clear()\n")],
     'a data collector threshold below the number of data collectors and a slow data collector',
     'share keepers are started before every data collector has sent its shares', PHASE + '''
p = phase(['dc1', 'dc2', 'dc3'], ['sk1'])
p.dc_threshold_config = 2
p.start()
p.store_data('dc1', {'sk1': {'secret': 'a'}}, is_start=True)
p.store_data('dc2', {'sk1': {'secret': 'b'}}, is_start=True)
check(p.state == 'starting_dcs' and p.get_start_config('sk1') is None, 'share keepers started with a share missing')
''')

seed('p12-duplicate-counts', 'P12', TS,
     [("            if client_uid in self.need_counts:\n", "            if client_uid in self.need_counts or (self.state == 'stopping' and data.get('Counts')):\n"),
      ("                self.need_counts.remove(client_uid)\n            else:\n                logging.info(\"ignoring duplicate", "                self.need_counts.discard(client_uid)\n            else:\n                logging.info(\"ignoring duplicate")],
     'a client that answers a stop command twice with different counts', 'a second answer replaces the counts of a client', PHASE + '''
p = phase(['dc1', 'dc2'], ['sk1'])
p.start()
for d in ('dc1', 'dc2'):
    p.store_data(d, {'sk1': {'secret': 'a'}}, is_start=True)
p.store_data('sk1', {}, is_start=True)
p.stop()
p.store_data('dc1', COUNTS, is_start=False)
first = p.final_counts['dc1']
p.store_data('dc1', {'Counts': {'ZeroCount': {'bins': [[0.0, float('inf'), 99]]}}}, is_start=False)
check(p.final_counts['dc1'] == first, 'a later answer replaced the counts')
''')

seed('p12-abort-keeps-error', 'P12', TS,
     [("            for uid in self.dc_uids+self.sk_uids:\n                self.need_counts.add(uid)\n\n            # when sending STOP, indicate that we need tallies\n",
       "            # a client that never took its shares has no counts\n            for uid in self.dc_uids+self.sk_uids:\n                if uid not in self.need_shares:\n                    self.need_counts.add(uid)\n\n            # when sending STOP, indicate that we need tallies\n")],
     'a round stopped while a share keeper has not yet taken its shares', 'a share keeper is not asked for its counts, and the phase can end without them', PHASE + '''
p = phase(['dc1'], ['sk1', 'sk2'])
p.start()
p.store_data('dc1', {'sk1': {'secret': 'a'}, 'sk2': {'secret': 'b'}}, is_start=True)
p.store_data('sk1', {}, is_start=True)
p.stop()
for u in ('dc1', 'sk1'):
    p.store_data(u, COUNTS, is_start=False)
p.stop()
check(not p.is_stopped() or p.is_error(), 'the phase ended without the counts of a share keeper')
''')

SKD = '''
from privcount.share_keeper import *
import privcount.share_keeper as S
import privcount.node as N
S.load_private_key_file = lambda p: 'key'
S.decrypt = lambda k, t: t
class Store(object):
    taken = None
    def __init__(self, *a, **k):
        self.taken = []
    def import_blinding_share(self, s):
        self.taken.append(s['secret'])
        return s['secret'] != 'bad'
    def detach_counts(self):
        return {'c': self.taken}
S.SecureCounters = Store
sk = ShareKeeper(WORK + '/none')
sk.config = {'key': 'k', 'delay_period': 1, 'always_delay': False, 'sigma_decrease_tolerance': 0.1}
sk.check_start_config = lambda config, **k: {}
S.count_bins = lambda c: 0
'''
seed('p13-duplicate-secret', 'P13', SK,
     [("        for share in share_list:\n            encrypted_secret = share['secret']\n", "        imported = set()\n        for share in share_list:\n            encrypted_secret = share['secret']\n            # a share that was sent twice must not be imported twice\n            if len(encrypted_secret) in imported:\n                continue\n            imported.add(len(encrypted_secret))\n")],
     'two data collectors whose encrypted shares have the same length', 'a share is skipped, so its blinding never cancels', SKD + '''
r = sk.do_start({'shares': [{'secret': 'aaaa'}, {'secret': 'bbbb'}]})
check(r is not None and sorted(sk.keystore.taken) == ['aaaa', 'bbbb'], 'a share was not imported')
''')

seed('p13-counts-again', 'P13', SK,
     [("        logging.info(\"got command to start new collection phase\")\n", "        logging.info(\"got command to start new collection phase\")\n        last_start = getattr(self, 'start_config', None)\n"),
      ("        for share in self.start_config.get('shares', []):\n", "        for share in self.start_config.get('shares', []):\n            if last_start == config:\n                break\n")],
     'the same start command sent twice', 'encrypted shares are kept for the context of the results', SKD + '''
c = {'shares': [{'secret': 'aaaa'}]}
sk.start_config = deepcopy(c)
sk.do_start(deepcopy(c))
check('aaaa' not in str(sk.start_config), 'an encrypted share is kept')
''')

DCD = '''
from privcount.data_collector import *
import privcount.data_collector as D
'''
seed('p14-late-fingerprint', 'P14', DC,
     [("        if self.is_aggregator_pending:\n            self.is_aggregator_pending = False\n            self.aggregator.start()\n",
       "        if self.aggregator is not None:\n            self.is_aggregator_pending = False\n            self.aggregator.start()\n")],
     'a timer of a stopped round that fires after the next round began, or twice', 'counting starts when it is not pending', DCD + '''
dc = DataCollector(WORK + '/none')
class A(object):
    n = 0
    def start(self):
        self.n += 1
D.task.deferLater = lambda *a: type('d', (), {'addErrback': lambda s, f: None})()
dc.aggregator = A()
dc.is_aggregator_pending = True
dc._start_aggregator_deferred()
dc._start_aggregator_deferred()
check(dc.aggregator.n == 1, 'counting started twice')
''')

seed('p14-unused-keepers', 'P14', DC,
     [("        if digest_error or len(expected_sk_digests) != 0:\n", "        if digest_error or len(expected_sk_digests) >= len(self.config['share_keepers']):\n")],
     'a round offered with only some of the configured share keepers', 'a data collector takes part without all of its share keepers', DCD + '''
from base64 import b64encode
D.get_public_digest_string = lambda s, **k: 'digest-' + s
D.load_public_key_string = lambda s: s
D.encrypt = lambda k, s: k + s
D.task.deferLater = lambda *a: type('d', (), {'addErrback': lambda s, f: None})()
class Agg(object):
    def __init__(self, *a):
        self.keepers = a[2]
    def get_shares(self):
        return dict((k, {'secret': 's'}) for k in self.keepers)
D.Aggregator = Agg
D.count_bins = lambda c: 0
dc = DataCollector(WORK + '/none')
dc.config = {'share_keepers': ['digest-k1', 'digest-k2'], 'name': 'n', 'event_source': 'e', 'rotate_period': 1, 'use_setconf': True}
dc.check_start_config = lambda c, **k: {}
r = dc.do_start({'sharekeepers': {'s1': b64encode('k1')}, 'noise_weight': {}})
check(r is None and dc.aggregator is None, 'a round started without a configured share keeper')
''')

seed('p15-period-of-server', 'P15', N,
     [("            self.config['delay_period'],\n            always_delay=self.config['always_delay'],\n            tolerance=self.config['sigma_decrease_tolerance']):\n",
       "            min(self.config['delay_period'],\n                start_config.get('delay_period', self.config['delay_period'])),\n            always_delay=self.config['always_delay'],\n            tolerance=self.config['sigma_decrease_tolerance']):\n")],
     'a start command with a delay period of its own', 'the tally server can shorten the delay enforced by a client', '''
import privcount.node as N
from privcount.share_keeper import *
N.check_counters_config = lambda *a, **k: True
N.check_noise_weight_config = lambda *a, **k: True
N.combine_counters = lambda *a: {}
sk = ShareKeeper(WORK + '/none')
sk.config = {'delay_period': 1000.0, 'always_delay': True, 'sigma_decrease_tolerance': 0.1}
sk.collection_delay.set_delay_for_stop(True, {'counters': {}}, 1.0, N.time() - 10, 1000.0)
sk.collection_delay.last_round_end_time = N.time() - 10
c = {'counters': {}, 'noise': {'counters': {}}, 'noise_weight': {}, 'dc_threshold': 1, 'collect_period': 1, 'delay_period': 0}
check(sk.check_start_config(c, allow_unknown_counters=True) is None, 'the server shortened the delay')
''')

seed('p15-success-without-counts', 'P15', N,
     [("        else:\n            logging.info(\"No counts available\")\n", "        else:\n            logging.info(\"No counts available\")\n            # a round that was aborted by the tally server needs no delay\n            if self.collection_start_time is not None and not wants_counters:\n                self.collection_start_time = None\n")],
     'a stop command that asks for no counts', 'the end of an aborted round is not registered with the delay', '''
import privcount.node as N
from privcount.share_keeper import *
sk = ShareKeeper(WORK + '/none')
sk.config = {'delay_period': 1000.0, 'always_delay': False, 'sigma_decrease_tolerance': 0.1}
sk.start_config = {}
sk.collect_period = 1
sk.last_noise_config = {'counters': {}}
sk.collection_start_time = N.time() - 5
seen = []
sk.collection_delay.set_delay_for_stop = lambda *a, **k: seen.append(a)
sk.check_stop_config({'send_counters': False}, {})
check(len(seen) == 1 and seen[0][0] is False, 'the end of the round was not registered')
''')
