PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note)
    d.update(kw)
    PROPS.append(d)


STD = ('All obligations are generated from the current source and discharged by z3 (cvc5 as fallback / second opinion in '
       'the thorough tier). Trusted: the VC generator in /verif/pv and its encoding of Python 2, the listed dependency '
       'contracts; integers are unbounded (as in Python), finite floats are reals. ')

P('P01', 'The published tally is the sum of everything reported',
  'For any number of reports with any counts, when the tally server accepts the reports, each bin of the tally is '
  'congruent, modulo the counter modulus, to the sum of that bin over all reports, and is the signed representative of '
  'that sum. Counters start at zero, every accepted report has every configured counter and bin, and a report that does '
  'not match the configured counters changes nothing and is refused.',
  ['inputs', 'configurations'], 'all counter configurations, all numbers of reports, all counts',
  'unit tests add a handful of reports of one fixed configuration; the claim is over all configurations, report counts '
  'and (huge) values',
  ['privcount/counter.py'],
  [('SecureCounters.tally_counters', 'privcount/counter.py'), ('SecureCounters._tally_counter', 'privcount/counter.py'),
   ('SecureCounters._check_counter', 'privcount/counter.py')],
  STD + 'Modulus checked for 2**70 and small representatives; loop invariants proved for any number of counters, bins, reports.')

P('P02', 'Counts are blinded per share keeper and the blinding cancels exactly',
  'Each data collector adds, to every bin, one value freshly sampled from the whole counter range for every share '
  'keeper, and the share prepared for a share keeper holds exactly the values added for it. A share keeper that imports a '
  'share subtracts exactly those values, so blinding and unblinding cancel modulo the counter modulus and the tally of '
  'all data collectors and share keepers equals the sum of the true counts. A share that does not cover every configured '
  'counter and bin is refused and changes nothing.',
  ['inputs', 'configurations'], 'all counter configurations, all sets of share keepers, all sampled values, all counts',
  'tests use fixed configurations and cannot establish freshness, completeness and cancellation for every bin and keeper',
  ['privcount/counter.py'],
  [('SecureCounters.generate_blinding_shares', 'privcount/counter.py'),
   ('SecureCounters.import_blinding_share', 'privcount/counter.py'),
   ('derive_blinding_factor', 'privcount/counter.py')],
  STD + 'The end-to-end pipeline of collectors, keepers and tally server is additionally run on the real code (bounded). '
  'Assumed: a structural check repeated on unchanged structure gives the same answer.')

P('P03', 'Signed interpretation of a tallied count',
  'For every modulus and every count below it, the signed value is congruent to the count modulo the modulus and lies '
  'between minus half the modulus and half the modulus (exclusive when even), so every value in that range survives the '
  'round trip through the modulus. A count that is not below the modulus is refused, and the advertised counter limits '
  'are exactly this range for a modulus larger than 2**64.',
  ['inputs'], 'all moduli and counts', 'tests sample a few values; the claim is for all integers of any size',
  ['privcount/counter.py'], [('adjust_count_signed', 'privcount/counter.py'),
                             ('add_counter_limits_to_config', 'privcount/counter.py')], STD)

P('P04', 'Blinding values are uniform over the whole counter range',
  'A sampled blinding value is the output of the operating system CSPRNG, with enough bits that every value below the '
  'modulus can occur, where draws are discarded only if they are not below the modulus (so the result is uniform and '
  'unbiased). A bounded random integer is such a sample over exactly the requested inclusive range, and an unblinding '
  'value is always the additive inverse of the blinding value.',
  ['inputs'], 'all moduli, all sequences of random draws', 'bias and unreachable values cannot be seen by sampling tests '
  'on 70-bit ranges', ['privcount/counter.py'],
  [('sample', 'privcount/counter.py'), ('sample_randint', 'privcount/counter.py'),
   ('derive_blinding_factor', 'privcount/counter.py')], STD + 'Trusted: SystemRandom returns uniform independent bits.')

P('P05', 'No counts leave a data collector without one noise sample per bin',
  'Noise generation adds to every bin of every counter its own rounded sample of a zero-mean Gaussian from the system '
  'CSPRNG, whose standard deviation is the counter\'s sigma times the noise weight. Counters that require noise refuse to '
  'release their counts until noise was added, and released counts can not be released again.',
  ['inputs', 'configurations'], 'all counter configurations, sigmas, weights and noise samples',
  'tests check noise statistically for single counters', ['privcount/counter.py'],
  [('SecureCounters.generate_noise', 'privcount/counter.py'), ('noise', 'privcount/counter.py'),
   ('SecureCounters.detach_counts', 'privcount/counter.py')],
  STD + 'Square root, Gaussian sampling and float rounding are trusted; independence of samples between bins is checked at run time.')

P('P06', 'An increment changes exactly the bins that contain the value',
  'Incrementing a counter adds the increment, modulo the counter modulus, to exactly those bins of that counter whose '
  'interval contains the value (lower bound inclusive, upper bound exclusive unless infinite), and changes no other bin or '
  'counter; unknown counters are ignored. Single-bin counters accept only the single-bin placeholder, multi-bin counters '
  'accept anything but the placeholder, and fractional increments are refused. Adjacent bins have no gap and no overlap.',
  ['inputs', 'configurations'], 'all counter configurations, values (including infinities and NaN) and increments',
  'tests sample a few bins and values', ['privcount/counter.py'],
  [('SecureCounters.increment', 'privcount/counter.py'), ('SecureCounters.is_in_bin', 'privcount/counter.py')], STD)

P('P07', 'Only valid, matching counter configurations are accepted',
  'A counter configuration is accepted only if, for every counter: its bins are non-empty intervals (lower bound below '
  'upper bound), no two of them overlap, its sigma is not negative, its name is known (unless unknown counters are '
  'allowed), count-type counters have exactly one bin and all other counters more than one, and bins and sigmas are '
  'configured for exactly the same counters.',
  ['configurations'], 'all numbers of counters and names, all bounds and sigmas',
  'tests check a few fixed configurations', ['privcount/counter.py'],
  [('check_bins_config', 'privcount/counter.py'), ('check_sigmas_config', 'privcount/counter.py'),
   ('check_combined_counters', 'privcount/counter.py')],
  STD + 'Bounded stand-in, not counted as proved: disjointness of the bins (sorting) for a counter with at most 3 bins of '
  'any bounds, plus generated cases; everything else is for any number of counters. Bounds that are nan are excluded.')

P('P08', 'Less noise waits for the collection delay',
  'A round may use a noise allocation right after the last successful round only if both have the same counters and no '
  'sigma decreased by more than the tolerance since the allocation that started the series; otherwise (or when always '
  'delaying) it may start only after the configured delay has passed since the end of the last successful round. Failed '
  'rounds change nothing, and equivalent allocations keep the first one as reference, so noise cannot shrink step by step.',
  ['inputs', 'histories', 'configurations'], 'all allocations, tolerances, delays, times and delay-tracker states',
  'the tests walk a few fixed sequences; the guarantee must hold after every history of rounds',
  ['privcount/counter.py'], [('CollectionDelay', 'privcount/counter.py')],
  STD + 'Finite times and sigmas; a change decision is a function of the two allocations.')

P('P09', 'Noise weights and thresholds stay in their safe range',
  'A noise weight configuration is accepted only if the data collector threshold is between 1 and 10**6, there are at least '
  'threshold many weights or a default weight, every weight is between zero and the largest tally value, and so is the '
  'total when a threshold of collectors uses the default. The weight of a collector is its own, else the default, else none.',
  ['configurations'], 'all weight configurations (any number of fingerprints, any values) and thresholds',
  'tests do not exercise these checks on boundary values',
  ['privcount/counter.py'], [('check_noise_weight_config', 'privcount/counter.py'),
                             ('check_noise_weight_value', 'privcount/counter.py'), ('get_noise_weight', 'privcount/counter.py')],
  STD + 'sum() of the weights is an unconstrained number whose range the code has to check; weights are numbers that are not nan.')

P('P10', 'A connection is authenticated only by proof of the shared secret',
  'Whatever lines a peer sends, in whatever order, a tally server treats a connection as authenticated, stores a client '
  'cookie, or sends its own proof, only after the peer has presented an authentication code computed with the shared '
  'secret over the client prefix, the cookie this server freshly drew for this connection (32 random bytes) and a client '
  'cookie that differs from it. A client treats a server as authenticated only after an authentication code over the '
  'server prefix, the cookie of the server and the fresh cookie the client generated, and only ever signs data that start '
  'with the client prefix and end with a cookie it has just generated. A handshake line that proves nothing closes the '
  'connection.',
  ['histories'], 'all lines and all states of the two protocol objects that satisfy the inductive invariant '
  '(authenticated or client cookie stored implies proof given)',
  'tests run an honest handshake; a peer that skips, repeats, reflects or reorders messages needs every line in every state',
  ['privcount/protocol.py', 'privcount/crypto.py'],
  [('PrivCountServerProtocol.handle_handshake_event', 'privcount/protocol.py'), ('PrivCountClientProtocol.handle_handshake_event', 'privcount/protocol.py'),
   ('PrivCountProtocol.process_event', 'privcount/protocol.py'), ('PrivCountProtocol.handshake2_verify', 'privcount/protocol.py'),
   ('PrivCountProtocol.handshake3_verify', 'privcount/protocol.py'), ('verify_hmac', 'privcount/crypto.py')],
  STD + 'HMAC-SHA256 is an unforgeable function of key and data; urandom is an unpredictable source; the secret file holds 32 '
  'bytes in base 64 or something too short; strings are an abstract data type with length, concatenation and equality; '
  'stop_reactor ends the process.')

P('P11', 'Strangers get nothing, failures close the connection',
  'A line from a peer that is not authenticated and that is not part of the handshake causes no call of the tally server '
  'or client and no answer, and closes the connection, and when a connection ends its authentication and cookies are '
  'forgotten. For an authenticated peer, a line that is not a well formed event closes the connection, and an error while '
  'handling an event closes the connection and stops the process. An over-long received line closes the connection, an '
  'over-long generated line is never sent, closes the connection and stops the process, and an unauthenticated connection '
  'accepts only short lines.',
  ['fault_sequences'], 'all lines, all states of both protocol objects, any error in any call of the factory',
  'tests do not send malformed events or raise errors inside handlers',
  ['privcount/protocol.py'],
  [('PrivCountProtocol.process_event', 'privcount/protocol.py'), ('PrivCountProtocol.check_line_length', 'privcount/protocol.py'),
   ('PrivCountProtocol.clear', 'privcount/protocol.py')],
  STD + "twisted's sendLine, lineLengthExceeded, loseConnection and LoopingCall behave as documented; json.loads returns something or "
  'raises ValueError; stop_reactor ends the process.')

P('P12', 'A round counts only with all shares and tallies only with all counts',
  'In a collection phase of the tally server, share keepers are started only once every data collector of the phase has '
  'sent its encrypted shares, counting begins only once every share keeper has taken its shares, and each keeper is sent '
  'exactly the shares that each collector contributed, once, for it. Stopping asks every collector and keeper of the '
  'phase, and the phase ends only when each has answered; an answer is kept once and never replaced, and a missing or '
  'incomplete answer, or an abort before the shares are complete, makes the phase an error. Clients are asked for counts '
  'only if the phase is not an error, and no tally is computed or written for a phase that is an error, or before every '
  'client has delivered counts.',
  ['histories', 'schedules'], 'all states of a phase that satisfy an inductive invariant over arbitrary sets of clients, all answers in any order',
  'tests never drive the phase state machine; late, repeated, missing and malformed answers need every state',
  ['privcount/tally_server.py'],
  [('CollectionPhase', 'privcount/tally_server.py'), ('CollectionPhase.store_data', 'privcount/tally_server.py'),
   ('CollectionPhase.stop', 'privcount/tally_server.py'), ('CollectionPhase.write_results', 'privcount/tally_server.py'),
   ('TallyServer.get_start_config', 'privcount/tally_server.py'), ('TallyServer.get_stop_config', 'privcount/tally_server.py')],
  STD + 'The invariant is stated for two arbitrary different clients; the server creates a phase with start() called before stop(); '
  'the names for log messages; SecureCounters is checked under P01.')

P('P13', 'A share keeper keeps all shares of a round or none',
  'A share keeper starts a round only with a configuration that passes its checks and a list of shares, and only if its '
  'counters accept every share of the list, each decrypted with its own private key and imported exactly once; if '
  'anything is refused it keeps no counters, not even those of an earlier round, and later reports no counts. When it '
  'stops it answers with the counts of the running round, or with none, and forgets them, so that they are never reported '
  'twice. What it keeps for the context of the results holds no encrypted share.',
  ['inputs', 'histories'], 'all lists of shares of any length, any refusals in any position, running or not running keepers',
  'tests start one keeper with valid shares; partial failures at any position and restarts are never driven',
  ['privcount/share_keeper.py'],
  [('ShareKeeper.do_start', 'privcount/share_keeper.py'), ('ShareKeeper.do_stop', 'privcount/share_keeper.py')],
  STD + 'SecureCounters is checked under P02, the checks of the configuration under P15; decrypt is a function of key and text.')

P('P14', 'A data collector counts one round at a time, blinded and with noise',
  'A data collector starts a round only when none is running, its configuration passes its checks, and the public keys '
  'offered are exactly those of the share keepers configured locally; it then sends to each keeper its own share, '
  "encrypted with that keeper's key, while a refused start or a status check leaves a running round unchanged. Counting "
  'starts once, only while the round has not been stopped; stopping answers with the counts of the running round, or with '
  'none if counting never began, and forgets them. Counts leave the collector only with noise added exactly once, with '
  'the weight configured for the first valid fingerprint of its relay (or the default weight), and a relay without a '
  'weight counts nothing.',
  ['inputs', 'histories', 'schedules'], 'all key sets of any size, all states of the collector and of its aggregator, any order of commands, timers and fingerprints',
  'tests run the happy path of one round; repeated or early commands, unknown keepers and late fingerprints are never driven',
  ['privcount/data_collector.py'],
  [('DataCollector.do_start', 'privcount/data_collector.py'), ('DataCollector.do_stop', 'privcount/data_collector.py'),
   ('DataCollector.check_aggregator', 'privcount/data_collector.py'), ('Aggregator.stop', 'privcount/data_collector.py'),
   ('Aggregator.generate_noise', 'privcount/data_collector.py'), ('Aggregator.set_fingerprint', 'privcount/data_collector.py')],
  STD + 'A digest is a function of the key text; twisted task.deferLater calls once; SecureCounters is checked under P01, P02 and P05.')

P('P15', 'Clients accept only configurations that pass all their own checks',
  'A client accepts a start command only if it has counters, noise, noise weights, a threshold and a collection period, '
  'the counters and the noise weights pass their checks, the traffic model (when there is one and unknown counters are '
  'not allowed) passes its check, and the collection delay, decided with the delay period, override and tolerance '
  'configured at the client and never with values of the server, permits the round. Only an accepted round is recorded, '
  'and the answer shows the start configuration as a copy. On a stop command the client sends counts exactly when they '
  'are asked for and there are some, and registers the end of the round with its delay, with the noise and start time of '
  'that round and its own limits.',
  ['inputs', 'configurations'], 'all start and stop commands, all outcomes of the checks, both kinds of clients in any earlier state',
  'tests use valid configurations; each missing part and each failing check must refuse on its own',
  ['privcount/node.py'],
  [('PrivCountClient.check_start_config', 'privcount/node.py'), ('PrivCountClient.set_round_start', 'privcount/node.py'),
   ('PrivCountClient.check_stop_config', 'privcount/node.py')],
  STD + 'The checks of counters, weights, and delay themselves are verified under P07, P09 and P08.')

P('P16', 'A data collector authenticates to Tor without giving its secrets away',
  'With cookie authentication, the data collector sends its proof of knowledge of the control cookie only after Tor has proved '
  'knowledge of the same 32-byte cookie over a fresh 32-byte nonce of the collector, and it never sends the cookie itself. It uses the '
  'strongest method that Tor offers and it is configured for, and never sends a password shorter than 8 or longer than 1024 bytes; any other '
  'line from Tor during authentication closes the connection, is ignored, or stops the collector, without authenticating. The collector is '
  'logged in only after Tor answers its authentication with 250 OK.',
  ['inputs', 'histories'], 'all lines from Tor in each state of the authentication, all cookies, passwords and nonces',
  'tests talk to a well-behaved Tor server; wrong proofs, wrong lengths and unexpected lines are not driven',
  ['privcount/protocol.py'],
  [('TorControlClientProtocol.lineReceived', 'privcount/protocol.py'), ('TorControlProtocol.getClientHash', 'privcount/protocol.py'),
   ('TorControlProtocol.verifyServerHash', 'privcount/protocol.py'), ('TorControlProtocol.getConfiguredPassword', 'privcount/protocol.py')],
  STD + 'HMAC-SHA256 is an uninterpreted function with 32-byte results and os.urandom returns unpredictable bytes of the length asked.')

P('P17', 'Exactly the wanted Tor events of a round are counted, whole and once',
  'An event from Tor is handed to the counters exactly once, with all its fields unchanged, exactly when a round is being counted, the round '
  'wants the event, and it has fields, and a rejected event closes the connection. Starting a round asks Tor for exactly the events of its '
  'counters and the extra events, once logged in; stopping asks for no events, and keeps the events wanted for a reconnection only if told to. When '
  'not allowed to change the configuration of Tor the collector never sends SETCONF; otherwise stopping restores the settings.',
  ['inputs', 'histories'], 'all lines from Tor in each state of the connection, all verdicts on events, rounds started and stopped in each state',
  'tests send a few wanted events while counting; unwanted events, events out of a round, and stopping in other states are not driven',
  ['privcount/protocol.py'],
  [('TorControlClientProtocol.lineReceived', 'privcount/protocol.py'), ('TorControlClientProtocol.startCollection', 'privcount/protocol.py'),
   ('TorControlClientProtocol.stopCollection', 'privcount/protocol.py'), ('TorControlClientProtocol.sendLine', 'privcount/protocol.py')],
  STD + 'The events of a counter are those of the event table of the counters.')

P('P18', 'Shares are readable only whole, unchanged, and with the private key',
  'What is encrypted for a public key is encrypted, whole, with a newly generated key for authenticated symmetric encryption that is used for nothing '
  'else and that appears only encrypted for the public key (with OAEP and SHA-256); with the private key it decrypts to the same value, and with '
  'another key, from mixed parts, or from changed text it does not decrypt. An authentication code is that of the prefix followed by the data under the '
  'whole key, is accepted only if it is equal, and keys shorter than 32 bytes are refused. The computed lengths of encoded bytes are those of base64 '
  'for every number of bytes.',
  ['inputs'], 'all values, keys and ciphertexts, all byte counts below 2**48',
  'tests encrypt and decrypt a few values once; mixed or changed ciphertexts, repeated use and other lengths are not driven',
  ['privcount/crypto.py'],
  [('encrypt', 'privcount/crypto.py'), ('decrypt', 'privcount/crypto.py'), ('get_hmac', 'privcount/crypto.py'),
   ('verify_hmac', 'privcount/crypto.py'), ('b64_padded_length', 'privcount/crypto.py')],
  STD + 'Fernet and RSA-OAEP are assumed secure: a randomised ciphertext decrypts only with its key; JSON text is injective.')

P('P19', 'A malformed event, or one with a malformed field, is dropped whole',
  'A tagged event with any number of fields yields its fields only if each is empty or is Key=Value with a key, one "=", and no whitespace or NUL, '
  'and no key occurs twice; otherwise it yields nothing. A field that should be a string, a list, an integer, a flag, a float, or an address is accepted '
  'only if it is one and (where limits are given) lies within its limits, a number that is not a number never is, and a missing field is accepted only if it is not '
  'mandatory. The value read is the value sent, or the default if there is none, and a value that is not valid is never returned.',
  ['inputs'], 'all events with any number of fields, all field texts and limits, lists of up to four items',
  'tests sample some events; texts that are almost well formed, and all combinations of limits, are not driven',
  ['privcount/tagged_event.py'],
  [('parse_tagged_event', 'privcount/tagged_event.py'), ('is_int_valid', 'privcount/tagged_event.py'), ('is_float_valid', 'privcount/tagged_event.py'),
   ('is_string_valid', 'privcount/tagged_event.py'), ('is_list_valid', 'privcount/tagged_event.py'), ('get_flag_value', 'privcount/tagged_event.py')],
  STD + 'Whether a text is an integer, float or IP address is decided by int, float and the ipaddress package.')

P('P20', 'Each stream is counted once in each breakdown of the stream counters',
  'A stream that ended after a transfer is counted exactly once in the counters of all streams and in exactly one part of each breakdown of them (by '
  'port class, web or not, first or subsequent on its circuit, address or hostname, IP version, and their combinations), with its own numbers of bytes '
  'written, read and in total, their log ratio and its lifetime; a stream with a negative or no transfer is not counted at all. The first stream of a circuit to a '
  'web hostname is counted for the list that matches the host (an exact match, or else the suffix match), or as unmatched, and no other '
  'stream is. Each counted stream is remembered, by port class, for its circuit.',
  ['inputs'], 'all ports, byte counts, times, hosts, addresses and list matches; circuits with and without earlier streams',
  'tests inject a few streams and look at some counters; the combinations of port, address, position and lists are not driven',
  ['privcount/data_collector.py'],
  [('Aggregator._handle_stream_event', 'privcount/data_collector.py'), ('Aggregator._increment_stream_end_counters', 'privcount/data_collector.py'),
   ('Aggregator._classify_port', 'privcount/data_collector.py'), ('Aggregator._encode_ratio', 'privcount/data_collector.py')],
  STD + 'SecureCounters.increment is verified under P06; matching of one list under its own property; the ipaddress package decides what an address is.')

P('P21', 'Each circuit is counted once in each breakdown of the circuit counters',
  'A closed circuit is counted exactly once in the circuit, cell, lifetime (if it was active, cell ratio; if it failed, failure reason) counters of each role the '
  'relay had in it and of its hidden service position, side, hops and version, both in all and in the active or inactive, failed or successful part of each, and in no '
  'other; every such counter asks Tor for the event that feeds it. Its cell counts are the largest reported, and it is active if they reach eight in '
  'total or its position says so. A client circuit also counts once for its address in the current window (and the last, if it began then), an exit '
  'circuit counts its streams once and is then forgotten, and a window that ends counts each of its clients once.',
  ['inputs'], 'all mixes of hops, positions, sides, versions, outcomes, cell counts and times; exit circuits with up to two streams per class, windows with up to three clients (bounded)',
  'tests inject a few circuits and look at some counters; the combinations of roles, outcomes and versions are not driven',
  ['privcount/data_collector.py', 'privcount/counter.py'],
  [('Aggregator._handle_circuit_close_event', 'privcount/data_collector.py'), ('Aggregator._increment_circuit_close_counters', 'privcount/data_collector.py'),
   ('Aggregator._handle_legacy_exit_circuit_event', 'privcount/data_collector.py'), ('Aggregator._do_rotate', 'privcount/data_collector.py')],
  STD + 'SecureCounters.increment is verified under P06; a circuit has at most one end position.')

P('P22', 'Each connection is counted once in each breakdown of the connection counters',
  'A closed connection is counted exactly once in the count, byte, circuit, lifetime and overlap counters of its position (from a client or not) and of '
  'whether relays are known on its address, with its own numbers (those not reported count as zero), and again in the match or no match part for its country and for its '
  'network; in each country or network list it is counted for the first list that has it, or as unmatched. The network is looked up '
  'from its own address in the map for its IP version, and every such counter asks Tor for the event that feeds it.',
  ['inputs'], 'all positions, addresses, countries, networks and list matches; all byte, circuit, relay and overlap numbers and times',
  'tests inject a few connections and look at some counters; the combinations of position, relays and lists are not driven',
  ['privcount/data_collector.py', 'privcount/counter.py'],
  [('Aggregator._handle_connection_close_event', 'privcount/data_collector.py'), ('Aggregator._increment_connection_close_variants', 'privcount/data_collector.py'),
   ('Aggregator._increment_connection_close_histograms', 'privcount/data_collector.py'), ('Aggregator._exact_match_bin', 'privcount/data_collector.py')],
  STD + 'SecureCounters.increment is verified under P06; the network of an address is what the pyasn package says.')

P('P23', 'Each descriptor upload and download is counted once in each breakdown',
  'A hidden service descriptor that is uploaded or downloaded is counted exactly once in the counters of all versions and of its version, in all and in the part for its outcome '
  '(added or rejected, cached or not) and, for version 2, its client authorisation, with its own sizes, introduction points, revision and delay (only those reported), and in '
  'each list for the first list that has its reason or (also as a digest) its onion address, or as unmatched. One with a field of the other version, without a field it must have, '
  'larger than its version allows, or with more introduction point bytes than bytes is not counted at all.',
  ['inputs'], 'all versions, outcomes, sets of optional fields, sizes, times and list matches',
  'tests inject a few descriptors and look at some counters; the combinations of version, outcome and fields are not driven',
  ['privcount/data_collector.py', 'privcount/counter.py'],
  [('Aggregator._handle_hsdir_store_event', 'privcount/data_collector.py'), ('Aggregator._handle_hsdir_fetch_event', 'privcount/data_collector.py'),
   ('Aggregator._increment_hsdir_store_version_counters', 'privcount/data_collector.py'), ('Aggregator.are_hsdir_common_fields_valid', 'privcount/data_collector.py')],
  STD + 'SecureCounters.increment is verified under P06.')
