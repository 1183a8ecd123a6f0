"""C26: link simulation: accounting, stopping rule and data flow."""
import functools, itertools, math
from fractions import Fraction as F

PID = 'C26'
RULE = ('explicit-state model of the simulation loop (SNR index, bits sent, errors, chunk errors); every error history the model allows (all choices of the '
        'errors of every chunk, to the end of the run) is replayed on the real loop with scripted components that record all their calls')
BOUNDS = dict(quick='per-chunk errors 0, 1, 2 or all bits x up to 3 SNRs x up to 3 chunks per SNR x err_min 1-6 x every bit pattern of one chunk; all rates p/q '
                    'with q <= 12 (and all q <= 64 for single runs) x 1-4 antennas x 1-6 bits per symbol; 9 decoder forms; real modem/channel/decoder chains',
              thorough='up to 5 chunks per SNR; all rates with q <= 20')
ASSUMPTIONS = ['err_min >= 1 and a positive bit budget', 'float rates stand for the nearest fraction with a denominator up to 100']


class Over(Exception):
    pass


class Rig:
    """scripted modulator, channel, receiver and decoder; every call is recorded"""
    def __init__(self, c, nt, nr, nbs, rate, form, script, dt, extra):
        import numpy as np
        from commpy.channels import SISOFlatChannel, MIMOFlatChannel
        rig = self
        self.c, self.np, self.nt, self.nr, self.nbs, self.rate, self.form = c, np, nt, nr, nbs, F(rate), form
        self.script, self.pos, self.dt, self.extra = script, 0, dt, extra
        self.snr, self.mod, self.prop, self.recv, self.dec, self.msgs = [], [], [], [], [], []
        self.at = []                                   # number of SNR settings made before each chunk
        self.tag = 0.

        class Mixin:
            def set_SNR_dB(self, SNR_dB, code_rate=1., Es=1):
                rig.snr.append((SNR_dB, float(code_rate), Es))
                self.noise_std = .1 + len(rig.snr)

            def propagate(self, msg):
                rig.prop.append(np.array(msg))
                rig.at.append(len(rig.snr))
                rig.tag += 1
                n = len(msg)
                if nt is None:
                    self.channel_gains = np.arange(n) * 1j + rig.tag
                    y = np.array(msg) + 1000 * rig.tag
                else:
                    nv = -(-n // nt)
                    self.channel_gains = (np.arange(nv * nr * nt) * 1j + rig.tag).reshape(nv, nr, nt)
                    y = (np.arange(nv * nr) + 1000j * rig.tag).reshape(nv, nr)
                self.noises, self.unnoisy_output = y * 0, y
                rig.out = (y, self.channel_gains, self.noise_std ** 2)
                rig.outs = getattr(rig, 'outs', []) + [rig.out]
                return y.copy()

        if nt is None:
            class Chan(Mixin, SISOFlatChannel):
                pass
            self.channel = Chan(None, (1 + 0j, 0))
        else:
            class Chan(Mixin, MIMOFlatChannel):
                pass
            self.channel = Chan(nt, nr)
            self.channel.uncorr_rayleigh_fading(complex)
        self.width = nbs * (nt or 1)
        self.constellation = np.arange(2 ** nbs) * (1 - 1j)

        class Method:
            def one(self, msg):
                return rig.decode(msg)

            def full(self, y, h, constellation, noise_var, msg, bits):
                return rig.decode(msg, y, h, constellation, noise_var, bits)

        class Callable:
            def __call__(self, msg):
                return rig.decode(msg)

        def with_option(msg, *, flag):
            return rig.decode(msg)
        self.decoder = dict(
            none=None, one=lambda msg: rig.decode(msg), full=lambda y, h, con, nv, msg, b: rig.decode(msg, y, h, con, nv, b),
            method=Method().one, methodfull=Method().full, partial=functools.partial(with_option, flag=3), object=Callable(), kwonly=functools.partial(Method().one),
            named=Method.one.__get__(Method()))[form]

    def modulate(self, bits):
        np = self.np
        bits = np.array(bits)
        self.msgs.append(bits)
        n = F(len(bits)) / self.rate / self.nbs
        self.c.true(n.denominator == 1 and (n / (self.nt or 1)).denominator == 1, 'chunk of %d bits does not fill the symbol vectors' % len(bits))
        s = np.arange(int(n)) + 1j * len(self.msgs)
        self.mod.append(s)
        return s.copy()

    def receive(self, y, h, constellation, noise_var):
        np = self.np
        self.recv.append((len(self.msgs), np.array(y), np.array(h), np.array(constellation), noise_var))
        if self.form == 'none':
            return self.answer()
        n = self.width if self.nt is not None else len(self.mod[-1]) * self.nbs
        r = np.arange(n) + 100. * len(self.recv)
        self.last = (getattr(self, 'last', []) if self.nt is not None and len(self.recv) > 1 and self.recv[-2][0] == len(self.msgs) else []) + r.tolist()
        return r

    def decode(self, msg, *full):
        self.dec.append((len(self.msgs), self.np.array(msg), full))
        return self.answer()

    def answer(self):
        if self.pos >= len(self.script):
            raise Over()
        out = self.msgs[-1].copy()
        for i in self.script[self.pos]:
            out[i] ^= 1
        self.pos += 1
        out = self.np.concatenate((out, [1] * self.extra)) if self.extra else out
        return out.astype(self.dt)

    def check(self, snrs, Es, chunk_bits, chunks_per_snr):
        c, np = self.c, self.np
        c.eq([s[0] for s in self.snr], list(snrs[:len(chunks_per_snr)]), 'SNRs set')
        for s in self.snr:
            c.true(abs(s[1] - float(self.rate)) < 1e-12 and s[2] == Es, 'rate and symbol energy given to the channel', s)
        n = sum(chunks_per_snr)
        c.eq((len(self.mod), len(self.prop), len(self.msgs)), (n, n, n), 'chunks modulated and propagated')
        c.eq(self.at, [i + 1 for i, k in enumerate(chunks_per_snr) for _ in range(k)], 'SNR of every propagated chunk')
        for m in self.msgs:
            c.true(m.shape == (chunk_bits,) and set(m.tolist()) <= {0, 1}, 'message', m.tolist())
        if chunk_bits >= 60:
            for a, b in zip(self.msgs, self.msgs[1:]):
                c.true((a != b).any(), 'the same message was sent twice')
            for m in self.msgs:
                c.true(0 < m.sum() < chunk_bits, 'constant message')
        for a, b in zip(self.mod, self.prop):
            c.true(a.shape == b.shape and (a == b).all(), 'symbols propagated', b.tolist(), a.tolist())
        want = []
        for k, (y, h, nv) in enumerate(getattr(self, 'outs', [])):
            want += [(k + 1, y, h, nv)] if self.nt is None else [(k + 1, y[i], h[i], nv) for i in range(len(y))]
        c.eq(len(self.recv), len(want), 'receiver calls')
        for got, w in zip(self.recv, want):
            c.eq(got[0], w[0], 'chunk received')
            for i in (1, 2):
                c.true(got[i].shape == w[i].shape and (got[i] == w[i]).all(), 'receiver argument %d' % i, got[i].tolist(), w[i].tolist())
            c.true((got[3] == self.constellation).all(), 'receiver constellation')
            c.true(abs(got[4] - w[3]) < 1e-9, 'receiver noise variance', got[4], w[3])
        if self.form == 'none':
            return
        c.eq([d[0] for d in self.dec], list(range(1, n + 1)), 'decoder calls')
        total = int(F(chunk_bits) / self.rate)
        per = total // self.width if self.nt is not None else 1
        for k, (_, msg, full) in enumerate(self.dec):
            w = self.width if self.nt is not None else total
            exp = [v for i in range(per) for v in (np.arange(w) + 100. * (k * per + i + 1)).tolist()]
            c.true(msg.tolist() == exp, 'decoder input', msg.tolist(), exp)
            c.eq(len(full), 5 if 'full' in self.form else 0, 'decoder arguments')
            if full:
                y, h, nv = self.outs[k]
                c.true(np.array_equal(full[0], y) and np.array_equal(full[1], h) and np.array_equal(full[2], self.constellation), 'decoder arguments')
                c.true(abs(full[3] - nv) < 1e-9, 'decoder noise variance')
                c.eq(full[4], self.width, 'bits per symbol vector given to the decoder')


def step_of(rate, width):
    """smallest number of bits whose coded version fills symbol vectors"""
    d = 1
    while (F(d) / rate / width).denominator != 1:
        d += 1
    return d


def chunk_of(send_chunk, err_min, rate, width):
    d = step_of(rate, width)
    return max(d, (send_chunk or err_min) // d * d)


def exact(rate):
    return F(rate).limit_denominator(100) if isinstance(rate, float) else F(rate)


# ---- the model: yields (script, expected result) for every error history

def model_plain(n_snr, send_max, err_min, chunk, choices):
    def rec(i, sent, err, script, done, per):
        """done: BERs so far; per: chunks per SNR"""
        if sent < send_max and err < err_min:
            for e in choices:
                yield from rec(i, sent + chunk, err + len(e), script + [e], done, per[:-1] + [per[-1] + 1])
            return
        done = done + [F(err, sent)]
        if err < err_min or i + 1 == n_snr:
            yield script, done + [0] * (n_snr - len(done)), per
        else:
            yield from rec(i + 1, 0, 0, script, done, per + [0])
    return rec(0, 0, 0, [], [], [0])


def model_full(n_snr, tx_max, err_min, chunk, nchunk, stop, choices):
    words = list(itertools.product(choices, repeat=nchunk))

    def rec(i, tx, script, done):
        tot = sum(len(e) for w in tx for e in w)
        if len(tx) < tx_max and not (stop and tot > err_min):
            for w in words:
                yield from rec(i, tx + [w], script + [w], done)
            return
        done = done + [tx]
        if tot < err_min or i + 1 == n_snr:
            yield script, done
        else:
            yield from rec(i + 1, [], script, done)
    return rec(0, [], [], [])


def err_choices(chunk, kind):
    last = chunk - 1
    if kind == 'all':
        return [tuple(i for i in range(chunk) if m >> i & 1) for m in range(1 << chunk)]
    out = [(), (0,), (last,)] if kind == 'ends' else [(), (last // 2,)]
    if chunk > 1:
        out.append(tuple(range(chunk)) if kind != 'few' else (0, last))
    return sorted(set(out))


CFG = dict(nt=None, nr=1, nbs=2, rate=1, form='one', dt='int64', extra=0, Es=1, api='method', snrs=(0, 5.5, -3), snr_type=list)


def rig_and_link(c, cfg, script):
    import numpy as np
    from commpy.links import LinkModel
    rig = Rig(c, cfg['nt'], cfg['nr'], cfg['nbs'], exact(cfg['rate']), cfg['form'], script, cfg['dt'], cfg['extra'])
    kw = {} if cfg['Es'] == 1 else {'Es': cfg['Es']}
    if rig.decoder is not None:
        kw['decoder'] = rig.decoder
    link = LinkModel(rig.modulate, rig.channel, rig.receive, cfg['nbs'], rig.constellation, rate=cfg['rate'], **kw)
    np.random.seed(5)
    return rig, link


def conv_snrs(cfg, n):
    import numpy as np
    s = cfg['snrs'][:n]
    return s, {'list': list, 'tuple': tuple, 'array': lambda v: np.array(v, float), 'int': lambda v: np.array([int(x) for x in v])}[cfg.get('snr_kind', 'list')](s)


def plain_case(c, cfg, n_snr, send_max, err_min, send_chunk, script, bers, per, rig_link=None):
    import numpy as np
    from commpy.links import link_performance
    rig, link = rig_link or rig_and_link(c, cfg, script)
    vals, snrs = conv_snrs(cfg, n_snr)
    if cfg.get('snr_kind') == 'int':
        vals = [int(v) for v in vals]
    keep = np.array(snrs).tolist()
    kw = {} if cfg['rate'] == 1 and cfg['extra'] == 0 else {'code_rate': cfg['rate']}
    try:
        if cfg['api'] == 'function':
            got = link_performance(link, snrs, send_max, err_min, send_chunk, **kw)
        elif send_chunk is None:
            got = link.link_performance(snrs, send_max, err_min, **kw)
        else:
            got = link.link_performance(snrs, send_max, err_min, send_chunk, **kw)
    except Over:
        c.true(False, 'another chunk was sent after %s' % (rig.script,))
    c.step(len(script) * 4)
    c.eq(np.array(snrs).tolist(), keep, 'SNRs argument')
    c.true(np.shape(got) == (n_snr,), 'one BER per SNR', np.shape(got))
    for g, w in zip(got.tolist(), bers):
        c.true(abs(g - float(w)) < 1e-12, 'BERs for errors %s' % (script,), got.tolist(), [str(b) for b in bers])
    chunk = chunk_of(send_chunk, err_min, exact(cfg['rate']), cfg['nbs'] * (cfg['nt'] or 1))
    rig.check(vals, cfg['Es'], chunk, per)
    return tuple(per)


def full_case(c, cfg, n_snr, tx_max, err_min, send_chunk, nchunk, stop, script, done):
    import numpy as np
    chunk = chunk_of(send_chunk, err_min, exact(cfg['rate']), cfg['nbs'] * (cfg['nt'] or 1))
    flat = [tuple(k * chunk + i for k, e in enumerate(w) for i in e) for w in script]
    rig, link = rig_and_link(c, cfg, flat)
    vals, snrs = conv_snrs(cfg, n_snr)
    kw = {} if nchunk == 1 and stop else dict(number_chunks_per_send=nchunk, stop_on_surpass_error=stop)
    if cfg['rate'] != 1:
        kw['code_rate'] = cfg['rate']
    try:
        res = link.link_performance_full_metrics(snrs, tx_max, err_min, send_chunk, **kw)
    except Over:
        c.true(False, 'another transmission was made after %s' % (script,))
    c.step(len(script) * 4)
    c.eq(len(res), 4, 'number of metrics')
    done = list(done) + [[]] * (n_snr - len(done))
    pad = lambda v: v + [0] * (tx_max - len(v))
    bes = [pad([sum(len(e) for e in w) for w in tx]) for tx in done]
    ces = [pad([sum(len(e) > 0 for e in w) for w in tx]) for tx in done]
    ncs = [pad([nchunk for w in tx]) for tx in done]
    bers = [sum(b) / (len(tx) * nchunk * chunk) if tx else 0 for b, tx in zip(bes, done)]
    c.close(res[0], bers, 1e-12, 'BERs for %s' % (script,))
    c.eq(res[1], bes, 'bit errors')
    c.eq(res[2], ces, 'chunk errors for %s' % (script,))
    c.eq(res[3], ncs, 'chunks sent')
    for a, b in zip(link.full_simulation_results, res):
        c.eq(a, np.array(b).tolist(), 'full_simulation_results')
    rig.check(vals, cfg['Es'], chunk * nchunk, [len(tx) for tx in done if tx])
    return sum(map(sum, bes))


def key_of(cfg):
    return tuple(sorted((k, str(v)) for k, v in cfg.items() if CFG.get(k) != v))


def plains(ctx, over, n_snr, send_chunk, budgets, err_mins, kind):
    cfg = dict(CFG, **over)
    width = cfg['nbs'] * (cfg['nt'] or 1)
    for err_min in err_mins:
        chunk = chunk_of(send_chunk, err_min, exact(cfg['rate']), width)
        for b in budgets:
            for send_max in sorted({b * chunk, b * chunk - 1, (b - 1) * chunk + 1}):
                if send_max < 1:
                    continue
                for script, bers, per in model_plain(n_snr, send_max, err_min, chunk, err_choices(chunk, kind)):
                    ctx.case((key_of(cfg), n_snr, send_max, err_min, send_chunk, tuple(script)), plain_case, cfg, n_snr, send_max, err_min, send_chunk, script, bers, per)


def fulls(ctx, over, n_snr, send_chunk, tx_max, err_mins, nchunk, stop, kind):
    cfg = dict(CFG, **over)
    width = cfg['nbs'] * (cfg['nt'] or 1)
    for err_min in err_mins:
        chunk = chunk_of(send_chunk, err_min, exact(cfg['rate']), width)
        for script, done in model_full(n_snr, tx_max, err_min, chunk, nchunk, stop, err_choices(chunk, kind)):
            ctx.case(('full', key_of(cfg), n_snr, tx_max, err_min, send_chunk, nchunk, stop, tuple(script)), full_case, cfg, n_snr, tx_max, err_min, send_chunk, nchunk, stop, script, done)


def rates(ctx, q0, q1, widths, full):
    """data flow for every code rate: two chunks of one or two steps"""
    for q in range(q0, q1):
        for p in range(1, q + 1):
            if math.gcd(p, q) > 1:
                continue
            for nt, nbs in widths:
                r = F(p, q)
                forms = [r] + ([p / q] if q <= 12 else []) + ([1] if q == 1 else [])
                for rate in forms:
                    for form in ('one', 'full'):
                        cfg = dict(CFG, nt=nt, nr=(nt or 1) + 1, nbs=nbs, rate=rate, form=form, extra=(p + q) % 3)
                        d = step_of(r, nbs * (nt or 1))
                        for mult in (1, 2, 3) if q < 13 or ctx.thorough else (1, 3):
                            sc = d * mult + (d - 1) * (q % 2)
                            script = [(0,), (d * mult - 1,)]
                            ctx.case(('rate', key_of(cfg), mult), plain_case, cfg, 1, 2 * d * mult, 10 ** 6, sc, script, [F(2, 2 * d * mult)], [2])
                            if full and form == 'one':
                                ctx.case(('rate full', key_of(cfg), mult), full_case, cfg, 1, 2, 10 ** 6, sc, 2, True, [((0,), ()), ((), (d * mult - 1,))], [[((0,), ()), ((), (d * mult - 1,))]])


def history_case(c, runs):
    """one link object reused with different rates, chunk sizes and targets"""
    import numpy as np
    from commpy.links import LinkModel
    cfg0 = dict(CFG)
    link = None
    for rate, send_chunk, err_min, budget in runs:
        cfg = dict(CFG, rate=rate, extra=1)
        chunk = chunk_of(send_chunk, err_min, exact(rate), 2)
        script, bers, per = next(model_plain(2, budget * chunk, err_min, chunk, [(0,)]))
        rig = Rig(c, None, 1, 2, exact(rate), 'one', script, 'int64', 1)
        if link is None:
            link = LinkModel(rig.modulate, rig.channel, rig.receive, 2, rig.constellation, decoder=rig.decoder)
        link.modulate, link.channel, link.receive, link.decoder, link.constellation = rig.modulate, rig.channel, rig.receive, rig.decoder, rig.constellation
        plain_case(c, cfg, 2, budget * chunk, err_min, send_chunk, script, bers, per, (rig, link))


def histories(ctx, first):
    ops = [(1, 4, 2, 2), (F(1, 2), 5, 1, 1), (F(2, 3), 1, 3, 2), (.75, None, 4, 3), (1, 12, 1, 2)]
    for rest in itertools.product(ops, repeat=2):
        ctx.case(('reuse', ops[first]) + rest, history_case, (ops[first],) + rest)


def chain_case(c, name, snr, seed):
    """real components: the BER equals the errors counted outside"""
    import numpy as np
    from commpy.links import LinkModel
    from commpy.channels import SISOFlatChannel, MIMOFlatChannel
    from commpy.modulation import QAMModem, PSKModem, kbest
    from commpy.channelcoding.convcode import Trellis, conv_encode, viterbi_decode
    sent, decoded = [], []
    m = {'bpsk': lambda: PSKModem(2), '16qam': lambda: QAMModem(16)}.get(name, lambda: QAMModem(4))()
    rate, decoder = 1, None
    if name == 'kbest':
        ch = MIMOFlatChannel(2, 3)
        ch.uncorr_rayleigh_fading(complex)
        recv = lambda y, h, con, nv: m.demodulate(kbest(y, h, con, 4), 'hard')
    else:
        ch = SISOFlatChannel(None, (1 + 0j, 0))
        recv = lambda y, h, con, nv: m.demodulate(y, 'hard')
    encode = lambda b: b
    dec = lambda b: b
    if name == 'coded':
        t = Trellis(np.array([2]), np.array([[5, 7]]))
        encode = lambda b: conv_encode(b, t, 'cont')
        dec = lambda b: viterbi_decode(b.astype(int), t, 6)
        rate = .5

    def modulate(b):
        sent.append(np.array(b))
        return m.modulate(encode(b))

    def decoder(b):
        out = dec(b)
        decoded.append(np.array(out))
        return out
    link = LinkModel(modulate, ch, recv, m.num_bits_symbol, m.constellation, m.Es, decoder, rate)
    np.random.seed(seed)
    ber = link.link_performance([snr], 400, 30, 48, rate)
    err = [int((a != b[:len(a)].astype(int)).sum()) for a, b in zip(sent, decoded)]
    n = len(sent)
    c.step(n)
    c.close(float(ber[0]), sum(err) / (48 * n), 1e-12, 'BER of a real chain')
    c.true(sum(err[:-1]) < 30 and (sum(err) >= 30 or n == 9), 'stopping rule in a real chain', err)
    if snr >= 100:
        c.eq(sum(err), 0, 'errors over a noiseless chain')
    sent.clear(); decoded.clear()
    full = link.link_performance_full_metrics([snr], 6, 30, 48, rate, 2, False)
    err = [int((a != b[:len(a)].astype(int)).sum()) for a, b in zip(sent, decoded)]
    c.eq(full[1].tolist(), [err], 'full metrics of a real chain: bit errors')
    c.close(float(full[0][0]), sum(err) / (96 * 6), 1e-12, 'full metrics of a real chain: BER')
    c.eq(full[2].tolist(), [[int((a[i:i + 48] != b[i:i + 48].astype(int)).any()) + int((a[i + 48:i + 96] != b[i + 48:i + 96].astype(int)).any()) for i in (0,) for a, b in [ab]][0] for ab in zip(sent, decoded)] and
         [[int((a[:48] != b[:48].astype(int)).any()) + int((a[48:96] != b[48:96].astype(int)).any()) for a, b in zip(sent, decoded)]], 'full metrics of a real chain: chunk errors')
    return sum(err)


def chains(ctx, name):
    for snr in (0, 3, 8, 200):
        for seed in range(3):
            ctx.case(('chain', name, snr, seed), chain_case, name, snr, seed)


FORMS = ['none', 'one', 'full', 'method', 'methodfull', 'partial', 'object', 'kwonly', 'named']


def shards(tier):
    th = tier == 'thorough'
    B = (1, 2, 3, 4, 5) if th else (1, 2, 3)
    out = []
    for send_chunk in (2, 4, 5, 7, 64):
        for e in (1, 2, 3, 5, 6):
            out.append((plains, ({}, 2, send_chunk, B, (e,), 'ends' if send_chunk < 8 else 'few')))
            out.append((plains, ({'form': 'full'}, 1, send_chunk, B + (4,), (e,), 'ends')))
    out.append((plains, ({'api': 'function'}, 2, None, (1, 2), (2, 3, 5), 'ends')))
    out.append((plains, ({'api': 'function'}, 2, 0, (1, 2), (2, 3, 5), 'ends')))
    out.append((plains, ({'api': 'function', 'rate': F(1, 2)}, 2, 6, (1, 2), (1, 3), 'ends')))
    out.append((plains, ({}, 2, None, (1, 2, 3), (2, 4, 7), 'ends')))
    for e in (1, 2, 4):
        out.append((plains, ({'nbs': 1}, 3, 3, (1, 2) if not th else (1, 2, 3), (e,), 'few')))
        out.append((plains, ({'nbs': 4}, 1, 4, (1, 2), (e,), 'all')))
        out.append((plains, ({'nt': 2, 'nr': 2}, 2, 4, (1, 2), (e,), 'ends')))
        out.append((plains, ({'nt': 3, 'nr': 4, 'nbs': 1, 'form': 'full', 'rate': F(1, 2)}, 2, 6, (1, 2), (e,), 'few')))
    for form in FORMS:
        for nt in (None, 2):
            if not (form == 'none' and nt):
                for dt, extra in (('int64', 0), ('float64', 3), ('bool', 0), ('int8', 1)):
                    out.append((plains, ({'form': form, 'nt': nt, 'dt': dt, 'extra': extra, 'Es': 2.5}, 2, 4, (1, 2), (1, 3), 'few')))
    for k in ('tuple', 'array', 'int'):
        out.append((plains, ({'snr_kind': k, 'snrs': (3, 0, 7)}, 3, 2, (1, 2), (1, 2), 'few')))
    for nchunk in (1, 2, 3):
        for stop in (True, False):
            for send_chunk in (2, 5):
                for e in (1, 2, 4):
                    out.append((fulls, ({}, 2 if nchunk < 3 else 1, send_chunk, 2 if nchunk < 3 or th else 2, (e,), nchunk, stop, 'few' if nchunk > 1 else 'ends')))
            out.append((fulls, ({'nt': 2, 'nr': 2, 'rate': F(2, 3)}, 1, 8, 2, (1, 3), nchunk, stop, 'few')))
            out.append((fulls, ({'form': 'full', 'nbs': 3}, 1, 3, 2, (2,), nchunk, stop, 'few')))
            out.append((fulls, ({'nbs': 1}, 1, 2, (4, 4 if stop or th else 3, 3 if th else 2)[nchunk - 1], (1, 2, 3, 4), nchunk, stop, 'few' if nchunk > 1 else 'all')))
    W = [(None, 1), (None, 2), (None, 3), (1, 1), (2, 1), (2, 2), (3, 2), (4, 4), (2, 6)]
    for q in range(1, 21 if th else 13):
        out.append((rates, (q, q + 1, W, True)))
    for q in range(13, 65, 2):
        out.append((rates, (q, q + 2, [(1, 2), (2, 1)], False)))
    out.sort(key=lambda s: 0 if s[0] is not plains or s[1][3] == (1, 2) else -1)
    return [(chains, (n,)) for n in ('bpsk', 'qpsk', '16qam', 'kbest', 'coded')] + out + [(histories, (i,)) for i in range(5)]
