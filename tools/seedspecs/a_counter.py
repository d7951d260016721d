C = 'privcount/counter.py'
BASE = '''
from privcount.counter import *
import privcount.counter as C
CFG = {'A': {'bins': [[0.0, 5.0], [5.0, float('inf')]], 'sigma': 0.0},
       'B': {'bins': [[0.0, float('inf')]], 'sigma': 0.0}}
M = counter_modulus()
'''

seed('p01-first-report-unchecked', 'P01', C,
     [("        for counter in counters:\n            if not self._tally_counter(counter):\n                return False\n",
       "        for counter in counters:\n            if not self._tally_counter(counter):\n                continue\n        if self.counters is None:\n            return False\n")],
     'a report that does not match the configured counters among the reports being tallied',
     'tally_counters skips reports that do not match and still reports success', BASE + '''
s = SecureCounters(CFG, M, require_generate_noise=False)
a = SecureCounters(CFG, M, require_generate_noise=False).detach_counts()
b = deepcopy(a); del b['B']
check(s.tally_counters([a, b]) is False, 'a report without a configured counter was accepted')
''')

seed('p01-tally-signed-early', 'P01', C,
     [("                tally_bin[2] = adjust_count_signed(tally_bin[2], self.modulus)\n",
       "                tally_bin[2] = (adjust_count_signed(tally_bin[2], self.modulus)\n                                if tally_bin[2] != self.modulus // 2\n                                else tally_bin[2])\n")],
     'a tally that is exactly half the modulus', 'the tally is not the signed representative for the most negative value',
     BASE + '''
s = SecureCounters(CFG, M, require_generate_noise=False)
a = SecureCounters(CFG, M, require_generate_noise=False).detach_counts()
a['A']['bins'][1][2] = M // 2
check(s.tally_counters([a]) is True, 'refused')
check(s.detach_counts()['A']['bins'][1][2] == -(M // 2), 'wrong sign')
''')

seed('p02-half-range-blinds', 'P02', C,
     [("                blinding_factor = derive_blinding_factor(original_factor,\n                                                         self.modulus,\n",
       "                # freshly sampled factors stay in the positive range, like counts\n                blinding_factor = derive_blinding_factor(original_factor,\n                                                         self.modulus if not generate_factors else self.modulus // 2,\n")],
     'nothing (statistical): the sampled values cancel as before',
     'blinding values are sampled from the lower half of the counter range, so a blinded count is not hidden',
     BASE + '''
seen = []
C.sample = lambda m: seen.append(m) or 7
s = SecureCounters(CFG, M, require_generate_noise=False)
s.generate_blinding_shares(['sk1', 'sk2'])
check(seen == [M] * 6, 'blinding values are not sampled from the whole range')
''')

seed('p02-partial-share', 'P02', C,
     [("        unblinding_factors = self._unblind(share['secret'])\n",
       "        # counters added since the share was made have no blinding factors\n        for key in self.counters:\n            if key not in share['secret']:\n                share['secret'][key] = deepcopy(self.zero_counters[key])\n        unblinding_factors = self._unblind(share['secret'])\n")],
     'a share that lacks a configured counter', 'a share that does not cover every counter is accepted', BASE + '''
s = SecureCounters(CFG, M, require_generate_noise=False)
s.generate_blinding_shares(['sk1'])
sh = s.detach_blinding_shares()['sk1']
del sh['secret']['B']
k = SecureCounters(CFG, M, require_generate_noise=False)
check(k.import_blinding_share(sh) is False, 'a partial share was imported')
''')

seed('p03-odd-modulus', 'P03', C,
     [("    assert count < modulus\n", "    assert count <= modulus\n")],
     'a count equal to the modulus', 'a count outside the modulus is accepted', BASE + '''
try:
    adjust_count_signed(M, M)
except AssertionError:
    pass
else:
    check(False, 'a count that is not below the modulus was accepted')
''')

seed('p04-sample-bias', 'P04', C,
     [("        if 0L <= v < modulus:\n            break\n    return v\n",
       "        if 0L <= v < modulus:\n            break\n        if sample_bit_count > 64 and v % modulus:\n            return v % modulus\n    return v\n")],
     'a modulus over 64 bits that is not a power of two and an out-of-range draw',
     'out of range draws are folded back into the range, which biases the blinding values', BASE + '''
class R(object):
    draws = [2 ** 65 + 5, 7]
    def getrandbits(self, n):
        return R.draws.pop(0)
C.SystemRandom = R
check(sample(2 ** 65 + 1) == 7, 'an out of range draw was not discarded')
''')

seed('p05-noise-one-bin', 'P05', C,
     [("                sampled_noise = noise(sigma, 1, noise_weight)\n",
       "                sampled_noise = noise(sigma, 1, noise_weight / len(noise_values[key]['bins']) if len(noise_values[key]['bins']) > 12 else noise_weight)\n")],
     'a counter with more than twelve bins', 'wide histograms get less noise than configured', BASE + '''
seen = []
C.noise = lambda s, q, p: seen.append((s, q, p)) or 0.0
bins = [[float(i), float(i + 1)] for i in range(13)]
s = SecureCounters({'A': {'bins': bins, 'sigma': 100.0}}, M)
s.generate_noise(0.5)
check(seen == [(100.0, 1, 0.5)] * 13, 'noise not drawn with the configured sigma and weight')
''')

seed('p06-fractional-value', 'P06', C,
     [("                bin = float(bin)\n            for item", "                bin = float(bin)\n                # byte and cell counts are whole numbers\n                if abs(bin) < 2**53:\n                    bin = float(int(bin))\n            for item")],
     'a fractional value and a bin edge that is not a whole number', 'fractional values are counted in the wrong bin', BASE + '''
s = SecureCounters({'A': {'bins': [[0.0, 0.25], [0.25, 1.0], [1.0, float('inf')]], 'sigma': 0.0}}, M, require_generate_noise=False)
s.increment('A', bin=0.5, inc=1)
check([b[2] for b in s.detach_counts()['A']['bins']] == [0, 1, 0], 'wrong bin')
''')
