"""C28: WiFi 802.11 link: code, puncturing, modulation, error accounting."""
import itertools, math
from fractions import Fraction as F
from checks.c26 import model_full, chunk_of

PID = 'C28'
RULE = ('all schemes x chunk sizes x aggregations x error histories of the transmission loop, through a scripted channel that decodes what it is given with an '
        'independent encoder (parity of every transmitted bit) and answers with the exact codeword of another message; all patterns of one or two erroneous '
        'transmitted bits of short blocks against a maximum-likelihood search')
BOUNDS = dict(quick='10 schemes; chunks of 1-3 steps, aggregation 1-3, up to 2 SNRs x 2 transmissions; blocks of 20-24 bits: all single errors, all pairs in a window; '
                    'clean chains from 10 to 200 dB; histories of 3 schemes', thorough='3 transmissions, longer blocks, all pairs')
ASSUMPTIONS = ['the Viterbi search is the maximum-likelihood one for blocks of at most 24 bits (see C04)']

MCS = [(2, F(1, 2)), (4, F(1, 2)), (4, F(3, 4)), (16, F(1, 2)), (16, F(3, 4)), (64, F(2, 3)), (64, F(3, 4)), (64, F(5, 6)), (256, F(3, 4)), (256, F(5, 6))]
PUNCT = {F(1, 2): '11', F(2, 3): '1110', F(3, 4): '111001', F(5, 6): '1110011001'}
TAPS = ((0, 2, 3, 5, 6), (0, 1, 2, 3, 6))                       # 133 and 171 octal: delays tapped by outputs A and B


def steps_out(rate, t):
    p = PUNCT[rate]
    k = len(p) // 2
    return [o for o in (0, 1) if p[2 * (t % k) + o] == '1']


def encode(msg, rate):
    m = [0] * 6 + [int(b) for b in msg]
    return [sum(m[6 + t - d] for d in TAPS[o]) % 2 for t in range(len(msg)) for o in steps_out(rate, t)]


def recover(c, bits, rate):
    """message of a transmitted stream; every transmitted bit is verified"""
    m, pos = [0] * 6, 0
    while pos < len(bits):
        t = len(m) - 6
        out = steps_out(rate, t)
        for n, o in enumerate(out):
            part = sum(m[6 + t - d] for d in TAPS[o] if d) % 2
            if n == 0:
                m.append(bits[pos] ^ part)
            elif pos < len(bits):
                c.true(bits[pos] == (part + m[6 + t]) % 2, 'transmitted bit %d is not the parity bit of the (133,171) code' % pos, bits)
            pos += 1
    return m[6:]


def mapping(m):
    """independent constellations: Gray-labelled points come from C14; here the labelling of the modem is inverted exactly"""
    from commpy.modulation import PSKModem, QAMModem
    md = PSKModem(m) if m <= 4 else QAMModem(m)
    return md, [complex(v) for v in md.constellation]


def symbols_to_bits(c, symbs, con):
    n = len(con).bit_length() - 1
    out = []
    idx = {}
    for s in symbs:
        s = complex(s)
        if s not in idx:
            j = min(range(len(con)), key=lambda j: abs(con[j] - s))
            c.true(abs(con[j] - s) < 1e-9, 'transmitted symbol is not in the constellation of the scheme', s)
            idx[s] = j
        out += [idx[s] >> (n - 1 - b) & 1 for b in range(n)]
    return out


def bits_to_symbols(bits, con):
    n = len(con).bit_length() - 1
    out = []
    for i in range(0, len(bits), n):
        v = 0
        for b in bits[i:i + n]:
            v = 2 * v + b
        out.append(con[v])
    return out


class Over(Exception):
    pass


def channel_of(c, mcs, script, log, std=None, flips=False):
    """script: per transmission, the positions of message bits to change (or transmitted bits when flips)"""
    import numpy as np
    from commpy.channels import SISOFlatChannel
    m, rate = MCS[mcs]
    md, con = mapping(m)

    class Chan(SISOFlatChannel):
        def set_SNR_dB(self, SNR_dB, code_rate=1., Es=1):
            c.true(abs(float(code_rate) - float(rate)) < 1e-12, 'code rate given to the channel', code_rate)
            c.true(abs(Es - sum(abs(v) ** 2 for v in con) / len(con)) < 1e-9, 'symbol energy given to the channel', Es)
            log.append(('snr', SNR_dB))
            SISOFlatChannel.set_SNR_dB(self, SNR_dB, code_rate, Es)

        def propagate(self, msg):
            if sum(e[0] == 'msg' for e in log) >= len(script):
                raise Over()
            coded = symbols_to_bits(c, msg, con)
            sent = recover(c, coded, rate)
            k = sum(e[0] == 'msg' for e in log)
            log.append(('msg', sent, coded))
            if flips:
                new = list(coded)
                for i in script[k]:
                    new[i] ^= 1
            else:
                alt = list(sent)
                for i in script[k]:
                    alt[i] ^= 1
                new = encode(alt, rate)
            y = np.array(bits_to_symbols(new, con))
            if not np.iscomplexobj(msg):
                y = y.real
            self.channel_gains = np.ones(len(y))
            self.noises, self.unnoisy_output = y * 0, y
            return y
    return Chan(None, (1 + 0j, 0)), md


def loop_case(c, mcs, snrs, tx_max, err_min, send_chunk, nchunk, stop, script, done, kw):
    """script: per transmission, tuple of error tuples per chunk"""
    import numpy as np
    from commpy.wifi80211 import Wifi80211
    m, rate = MCS[mcs]
    chunk = chunk_of(send_chunk, err_min, rate, m.bit_length() - 1)
    log = []
    flat = [tuple(k * chunk + i for k, e in enumerate(w) for i in e) for w in script]
    ch, md = channel_of(c, mcs, flat, log)
    w = Wifi80211(mcs)
    np.random.seed(3)
    try:
        if kw:
            res = w.link_performance(channel=ch, SNRs=snrs, tx_max=tx_max, err_min=err_min, send_chunk=send_chunk, frame_aggregation=nchunk, stop_on_surpass_error=stop)
        elif nchunk == 1 and stop:
            res = w.link_performance(ch, snrs, tx_max, err_min, send_chunk)
        else:
            res = w.link_performance(ch, snrs, tx_max, err_min, send_chunk, nchunk, None, stop)
    except Over:
        c.true(False, 'another transmission was made after %s' % (script,))
    n = len(snrs)
    done = list(done) + [[]] * (n - len(done))
    pad = lambda v: v + [0] * (tx_max - len(v))
    bes = [pad([sum(len(e) for e in x) for x in tx]) for tx in done]
    c.eq(len(res), 4, 'number of metrics')
    c.close(res[0], [sum(b) / (len(tx) * nchunk * chunk) if tx else 0 for b, tx in zip(bes, done)], 1e-12, 'BERs for %s' % (script,))
    c.eq(res[1], bes, 'bit errors for %s' % (script,))
    c.eq(res[2], [pad([sum(len(e) > 0 for e in x) for x in tx]) for tx in done], 'chunk errors for %s' % (script,))
    c.eq(res[3], [pad([nchunk] * len(tx)) for tx in done], 'chunks sent')
    c.eq([e[1] for e in log if e[0] == 'snr'], [s for s, tx in zip(snrs, done) if tx], 'SNRs simulated')
    for e in log:
        if e[0] == 'msg':
            c.eq(len(e[1]), chunk * nchunk, 'message length')
            c.eq(len(e[2]), int(chunk * nchunk / rate), 'transmitted length')
    c.step(sum(len(e[2]) for e in log if e[0] == 'msg'))
    return sum(map(sum, bes))


def loops(ctx, mcs, n_snr, tx_max, mult, nchunk, stop, err_min, kinds):
    m, rate = MCS[mcs]
    d = chunk_of(1, 1, rate, m.bit_length() - 1)
    chunk = d * mult
    ch = {'two': [(), (chunk // 2,)], 'three': [(), (0,), (chunk - 1,)], 'many': [(), (0,), (chunk - 1,), tuple(range(chunk))]}[kinds]
    snrs = [40., 55][:n_snr]
    for script, done in model_full(n_snr, tx_max, err_min, chunk, nchunk, stop, ch):
        ctx.case(('loop', mcs, n_snr, tx_max, err_min, chunk, nchunk, stop, tuple(script)), loop_case, mcs, snrs, tx_max, err_min, chunk + (d - 1) // 2, nchunk, stop, script, done, mult % 2)


def best_messages(word, L, rate):
    """distance of the best message(s) of L bits to a word of transmitted bits: (distance, message, unique)"""
    cur = {(0,) * 6: (0, (), True)}
    pos = 0
    for t in range(L):
        out = steps_out(rate, t)
        nxt = {}
        for s, (d, m, u) in cur.items():
            for b in (0, 1):
                reg = (b,) + s
                dd = d + sum((sum(reg[x] for x in TAPS[o]) % 2) != word[pos + i] for i, o in enumerate(out))
                k = reg[:6]
                old = nxt.get(k)
                if old is None or dd < old[0]:
                    nxt[k] = (dd, m + (b,), u)
                elif dd == old[0]:
                    nxt[k] = (dd, old[1], False)
        pos += len(out)
        cur = nxt
    d = min(v[0] for v in cur.values())
    best = [v for v in cur.values() if v[0] == d]
    return d, list(best[0][1]), len(best) == 1 and best[0][2]


def receiver_of(mcs):
    """hard demapping to LLRs of +-4 (positive: 1)"""
    import numpy as np
    md, con = mapping(MCS[mcs][0])

    def receive(y, h, constellation, noise_var):
        return np.array([4. if b else -4. for b in md.demodulate(np.asarray(y), 'hard')])
    return receive


def flip_case(c, mcs, L, flips, seed):
    import numpy as np
    from commpy.wifi80211 import Wifi80211
    m, rate = MCS[mcs]
    log = []
    ch, md = channel_of(c, mcs, [flips], log, flips=True)
    np.random.seed(seed)
    res = Wifi80211(mcs).link_performance(ch, [12.], 1, 1, L, receiver=receiver_of(mcs))
    sent, coded = log[-1][1:]
    word = list(coded)
    for i in flips:
        word[i] ^= 1
    d, best, unique = best_messages(word, L, rate)
    c.step(len(coded))
    if not unique:
        return 'tie'
    c.eq(int(res[1][0][0]), sum(a != b for a, b in zip(sent, best)), 'bit errors after transmission errors at %s' % (flips,))
    return 'corrected' if best == sent else 'not correctable'


def flips(ctx, mcs, k, window, part, parts, L0):
    m, rate = MCS[mcs]
    d = chunk_of(1, 1, rate, m.bit_length() - 1)
    L = max(d, L0 // d * d)
    n = int(L / rate)
    i = 0
    for f in itertools.combinations(range(n), k):
        if f[-1] - f[0] <= window:
            i += 1
            if i % parts == part:
                ctx.case(('flip', mcs, L, f), flip_case, mcs, L, f, 1 + i % 7)


def clean_case(c, mcs, chunk, agg, snrs, kind):
    """real channel, receiver of the library"""
    import numpy as np
    from commpy.wifi80211 import Wifi80211
    from commpy.channels import SISOFlatChannel

    class Still(SISOFlatChannel):                                # the noise setting is kept but no noise is added
        def generate_noises(self, dims):
            self.noises = np.zeros(dims, complex if self.isComplex else float)
    ch = (Still if kind == 'still' else SISOFlatChannel)(None, (1 + 0j, 0j))
    np.random.seed(4)
    w = Wifi80211(mcs)
    res = w.link_performance(ch, snrs, 1, 0, chunk, agg)
    for r, what in zip(res[:3], ('BER', 'bit errors', 'chunk errors')):
        c.true(not np.any(r), what + ' over a clean channel', np.array(r).tolist())
    c.eq(res[3], [[agg]] * len(snrs), 'chunks sent')
    c.step(chunk * agg * len(snrs))
    return 'clean'


def mimo_case(c, mcs, nt, chunk_steps):
    """MIMO channel and receiver given by the user"""
    import numpy as np
    from commpy.wifi80211 import Wifi80211
    from commpy.channels import MIMOFlatChannel
    m, rate = MCS[mcs]
    md, con = mapping(m)
    sent = []

    class Chan(MIMOFlatChannel):
        def propagate(self, msg):
            coded = symbols_to_bits(c, msg, con)
            sent.append(recover(c, coded, rate))
            nv = len(msg) // nt
            c.eq(nv * nt, len(msg), 'symbols per vector')
            self.channel_gains = np.tile(np.eye(nt)[::-1] + 0j, (nv, 1, 1))
            return np.asarray(msg).reshape(nv, nt)[:, ::-1]
    ch = Chan(nt, nt)
    ch.uncorr_rayleigh_fading(complex)

    def receive(y, h, constellation, noise_var):
        c.close(h, np.eye(nt)[::-1].tolist(), 1e-12, 'channel given to the receiver')
        c.close(constellation, con, 1e-12, 'constellation given to the receiver')
        return np.array([4. if b else -4. for b in md.demodulate(y[::-1], 'hard')])
    d = chunk_of(1, 1, rate, nt * (m.bit_length() - 1))
    np.random.seed(8)
    res = Wifi80211(mcs).link_performance(ch, [20.], 1, 1, d * chunk_steps, receiver=receive)
    c.eq(int(res[1][0][0]), 0, 'bit errors over a permutation channel')
    c.eq(len(sent[0]), d * chunk_steps, 'message length')
    c.step(len(sent[0]))


def table_case(c, hist):
    """several objects alive: modem of each scheme, whatever was asked before"""
    from commpy.wifi80211 import Wifi80211
    ws = [Wifi80211(m) for m in hist]
    for w, mcs in list(zip(ws, hist)) + list(zip(ws, hist))[::-1]:
        md, con = mapping(MCS[mcs][0])
        got = c.call(w.get_modem)
        c.eq(w.mcs, mcs, 'mcs')
        c.eq((got.m, got.num_bits_symbol), (MCS[mcs][0], MCS[mcs][0].bit_length() - 1), 'constellation size')
        c.close(got.constellation, con, 1e-12, 'constellation')
        if MCS[mcs][0] == 2:
            c.true(all(abs(complex(v).imag) < 1e-12 for v in got.constellation), 'BPSK is not on the real axis')


def mixed_case(c, hist):
    """simulations of several schemes one after another in one process, objects reused"""
    objs = {}
    for mcs in hist:
        m, rate = MCS[mcs]
        d = chunk_of(1, 1, rate, m.bit_length() - 1)
        loop_case(c, mcs, [40.], 1, 1, d, 2, True, [((), (0,))], [[((), (0,))]], True)


def tables(ctx, n):
    for h in itertools.product(range(10), repeat=n):
        ctx.case(('table', h), table_case, h)


def mixed(ctx, first):
    pool = (0, 2, 5, 7, 9)
    for h in itertools.product(pool, repeat=2):
        ctx.case(('mixed', (first,) + h), mixed_case, (first,) + h)


def cleans(ctx, mcs):
    m, rate = MCS[mcs]
    d = chunk_of(1, 1, rate, m.bit_length() - 1)
    for k in (1, 2):
        for agg in (1, 2):
            ctx.case(('clean', mcs, d * k, agg), clean_case, mcs, d * k, agg, [45., 60, 100], 'real')
    # 3 dB without noise: the LLRs are those of a noisy channel, the symbols are exact
    ctx.case(('still', mcs), clean_case, mcs, d * 3, 1, [3 * (m.bit_length() - 1) + 3.], 'still')
    ctx.case(('high', mcs), clean_case, mcs, d * 3, 1, [200.], 'real')
    ctx.case(('long', mcs), clean_case, mcs, -(-(240 if ctx.thorough else 100) // d) * d, 1, [50.], 'real')


def mimos(ctx):
    for mcs in range(10):
        for nt in (1, 2, 3):
            ctx.case(('mimo', mcs, nt), mimo_case, mcs, nt, 1)


def shards(tier):
    th = tier == 'thorough'
    out = []
    for mcs in range(10):
        out.append((cleans, (mcs,)))
        for part in range(3):
            out.append((flips, (mcs, 1, 0, part, 3, 24)))
        for part in range(6 if th else 2):
            out.append((flips, (mcs, 2, 48 if th else 2, part, 6 if th else 2, 24 if th else 12)))
        for e in (1, 2):
            for stop in (True, False):
                out.append((loops, (mcs, 1, 3 if th else 2, 1, 2, stop, e, 'two')))
                out.append((loops, (mcs, 2, 2, 1, 1, stop, e, 'two')))
        out.append((loops, (mcs, 1, 1, 2, 1, True, 1, 'many')))
        out.append((loops, (mcs, 1, 1, 1, 3, False, 3, 'three')))
    return out + [(tables, (n,)) for n in (1, 2)] + [(mixed, (f,)) for f in (0, 2, 5, 7, 9)] + [(mimos, ())]
