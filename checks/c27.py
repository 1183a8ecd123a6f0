"""C27: iterative detection and decoding: only extrinsic information is fed back."""
import itertools, math

PID = 'C27'
RULE = ('all iteration counts up to a bound x block shapes x all input LLR words over an alphabet x detector/decoder/decision stubs; the complete trace of calls '
        '(arguments, per-iteration sets, order of the two phases) compared with the extrinsic-information model, also inside link simulations')
BOUNDS = dict(quick='1-4 iterations (8 for one family), 1-3 vectors, 1-3 bits per vector, 5-letter LLR words up to length 4 (fixed words beyond), '
                    '4 detector x 4 decoder stubs, reuse histories of length 3', thorough='words up to length 6, 1-6 iterations')
ASSUMPTIONS = ['the received LLRs have one value per transmitted coded bit and are floats']

ALPHA = (0., 1., -2., 7.5, -.25)


def dec_fn(kind):
    """values are multiples of 2^-k, so that sums and differences are exact"""
    def diff(v):
        return [v[i] + .5 * v[i - 1] + (i + 1) for i in range(len(v))]
    return dict(diff=diff, identity=lambda v: list(v), const=lambda v: [3. - i for i in range(len(v))],
                sign=lambda v: [math.copysign(4. + i, x) + x for i, x in enumerate(v)])[kind]


def det_fn(kind):
    def mix(y, h, nv, a):
        return [.5 * a[j] + y[0].real * (j + 1) + h[0][0].imag - nv for j in range(len(a))]
    return dict(mix=mix, noprior=lambda y, h, nv, a: [y[0].real - j for j in range(len(a))], echo=lambda y, h, nv, a: list(a),
                neg=lambda y, h, nv, a: [-x * .25 + y[0].imag for x in a])[kind]


def model(a0, Y, H, nv, bits, n_it, det, dec):
    """list of ('dec', input) / ('det', set of (vector, a-priori)) and the decision input"""
    trace, apd = [], list(a0)
    out = None
    for _ in range(n_it):
        trace.append(('dec', list(apd)))
        ext = [d - a for d, a in zip(dec(apd), apd)]
        out = []
        phase = []
        for i in range(len(Y)):
            a = ext[i * bits:(i + 1) * bits]
            phase.append((i, a))
            out += det(Y[i], H[i], nv, a)
        trace.append(('det', phase))
        apd = [o - e for o, e in zip(out, ext)]
    return trace, out


def block(nv, nr, nt, salt=0):
    import numpy as np
    Y = np.array([[complex(i * 2 + r + salt, 1 - i) for r in range(nr)] for i in range(nv)])
    H = np.array([[[complex(i + r, t + i * .5 + salt) for t in range(nt)] for r in range(nr)] for i in range(nv)])
    return Y, H


def make(c, n_it, detk, deck, con):
    import numpy as np
    from commpy.links import idd_decoder
    log = []
    det, dec = det_fn(detk), dec_fn(deck)

    def detector(y, h, constellation, noise_var, a_priori):
        a = np.array(a_priori)
        log.append(('det', np.array(y), np.array(h), np.array(constellation), noise_var, a.tolist()))
        return np.array(det(y, h, noise_var, a.tolist()))

    def decoder(llrs):
        v = np.array(llrs).tolist()
        log.append(('dec', v))
        return np.array(dec(v)) if deck != 'identity' else llrs

    def decision(llrs):
        log.append(('end', np.array(llrs).tolist()))
        return (np.array(llrs) > 0).astype(int)
    return idd_decoder(detector, decoder, decision, n_it), log, det, dec


def run(c, fn, log, det, dec, a0, Y, H, con, nv, bits, n_it, dt=float, kw=False):
    import numpy as np
    del log[:]
    a = np.array(a0, dt)
    if kw:
        got = c.call(fn, y=Y, h=H, constellation=con, noise_var=nv, a_priori=a, bits_per_send=bits)
    else:
        got = c.call(fn, Y, H, con, nv, a, bits)
    trace, last = model([float(v) for v in a0], Y.tolist(), H.tolist(), nv, bits, n_it, det, dec)
    tol = 1e-4 if dt == 'float32' else 1e-9
    pos = 0
    for kind, want in trace:
        c.step()
        if kind == 'dec':
            c.true(pos < len(log) and log[pos][0] == 'dec', 'decoder call missing at position %d' % pos, [e[0] for e in log])
            c.close(log[pos][1], want, tol, 'decoder input (call %d)' % pos)
            pos += 1
        else:
            calls = log[pos:pos + len(want)]
            c.true(len(calls) == len(want) and all(e[0] == 'det' for e in calls), 'detector calls missing at position %d' % pos, [e[0] for e in log])
            left = list(want)
            for e in calls:
                i = next((i for i, _ in left if np.array_equal(e[1], Y[i]) and np.array_equal(e[2], H[i])), None)
                c.true(i is not None, 'detector called with another received vector or channel', e[1].tolist(), e[2].tolist())
                c.true(np.array_equal(e[3], con) and e[4] == nv, 'constellation and noise variance given to the detector')
                c.close(e[5], dict(left)[i], tol, 'a priori of vector %d' % i)
                left = [p for p in left if p[0] != i]
            pos += len(want)
    c.eq([e[0] for e in log[pos:]], ['end'], 'calls after the iterations')
    c.close(log[pos][1], last, tol, 'LLRs given to the decision')
    c.eq(got, [int(v > 0) for v in log[pos][1]], 'decided bits')
    return tuple(got.tolist())


def one(c, n_it, nv, nr, nt, bits, a0, detk, deck, nvar, dt, kw):
    import numpy as np
    con = np.array([1, -1, 1j, -1j])
    fn, log, det, dec = make(c, n_it, detk, deck, con)
    Y, H = block(nv, nr, nt)
    return run(c, fn, log, det, dec, a0, Y, H, con, nvar, bits, n_it, dt, kw)


def hist(c, n_it, ops):
    """one produced decoder used several times with different block sizes"""
    import numpy as np
    con = np.array([1, -1, 1j, -1j])
    fn, log, det, dec = make(c, n_it, 'mix', 'diff', con)
    other, olog, odet, odec = make(c, n_it + 1, 'neg', 'sign', con)
    kept = []
    for k, (nv, bits, salt) in enumerate(ops):
        Y, H = block(nv, 2, 2, salt)
        a0 = [ALPHA[(i + k + salt) % 5] for i in range(nv * bits)]
        f = (fn, log, det, dec, n_it) if k % 2 == 0 else (other, olog, odet, odec, n_it + 1)
        run(c, f[0], f[1], f[2], f[3], a0, Y, H, con, .25, bits, f[4])


def link_case(c, n_it, nt, nbs, chunk, rate):
    """inside LinkModel: the receiver's output is the first decoder input, the channel output reaches the detector"""
    import numpy as np
    from commpy.links import LinkModel
    from commpy.channels import MIMOFlatChannel
    con = np.array([1, -1, 1j, -1j])
    fn, log, det, dec = make(c, n_it, 'mix', 'diff', con)
    seen = {}

    class Chan(MIMOFlatChannel):
        def propagate(self, msg):
            nv = len(msg) // nt
            self.noise_std = .5
            Y, H = block(nv, 2, nt, 3)
            self.channel_gains = H
            seen['Y'], seen['H'] = Y, H
            return Y
    ch = Chan(nt, 2)
    ch.uncorr_rayleigh_fading(complex)
    rec = []

    def receive(y, h, constellation, noise_var):
        out = np.array([ALPHA[(len(rec) + j) % 5] for j in range(nbs * nt)])
        rec.extend(out.tolist())
        return out
    n = int(chunk / rate / nbs)
    msgs = []

    def modulate(b):
        msgs.append(np.array(b))
        return np.ones(n) + 0j
    link = LinkModel(modulate, ch, receive, nbs, con, 1, fn, rate)
    np.random.seed(2)
    ber = link.link_performance([3.], chunk, 10 ** 6, chunk, rate)
    trace, last = model(rec, seen['Y'].tolist(), seen['H'].tolist(), .25, nbs * nt, n_it, det, dec)
    flat = [e for e in log]
    c.eq([e[0] for e in flat], [k for kind, w in trace for k in (['dec'] if kind == 'dec' else ['det'] * len(w))] + ['end'], 'calls')
    c.close(flat[0][1], trace[0][1], 1e-9, 'first decoder input')
    c.close(flat[-1][1], last, 1e-9, 'LLRs given to the decision')
    wrong = sum(int(a) != int(v > 0) for a, v in zip(msgs[0].tolist(), last))
    c.close(float(ber[0]), wrong / chunk, 1e-12, 'BER')
    c.step(len(log))


def words(ctx, n_its, nv, bits, nr, nt, detk, decks, lim):
    n = nv * bits
    if n <= lim:
        ws = list(itertools.product(ALPHA, repeat=n))
    else:
        ws = [tuple(ALPHA[(i * s + s) % 5] for i in range(n)) for s in range(1, 9)]
    for deck in decks:
        for n_it in n_its:
            for k, w in enumerate(ws):
                ctx.case((n_it, nv, bits, nr, nt, w, detk, deck), one, n_it, nv, nr, nt, bits, w, detk, deck, (.5, 1., 2.)[k % 3], (float, float, 'float32')[k % 3 if n > 2 else 0], k % 2 == 1)


def histories(ctx, n_it):
    ops = [(1, 1, 0), (2, 3, 1), (3, 2, 2), (1, 4, 1), (4, 1, 5)]
    for h in itertools.product(ops, repeat=3):
        ctx.case(('reuse', n_it, h), hist, n_it, h)


def links(ctx):
    for n_it in (1, 2, 3, 5):
        for nt, nbs in ((1, 1), (2, 1), (2, 2), (3, 2)):
            for rate in (1, .5):
                for k in (1, 2, 4):
                    chunk = int(nt * nbs * k * 2 * rate)
                    ctx.case(('link', n_it, nt, nbs, rate, chunk), link_case, n_it, nt, nbs, chunk, rate)


def shards(tier):
    th = tier == 'thorough'
    lim = 6 if th else 4
    out = []
    for detk in ('mix', 'noprior', 'echo', 'neg'):
        for nv, bits in ((2, 3), (3, 2), (2, 2), (1, 4), (4, 1), (1, 3), (3, 1), (1, 2), (2, 1), (1, 1), (3, 3), (5, 4), (8, 6)):
            for deck in ('diff', 'identity', 'const', 'sign'):
                out.append((words, ((1, 2, 3, 4) + ((5, 6) if th else ()) + ((8,) if detk == 'mix' and nv * bits < 4 else ()), nv, bits, 1 + nv % 2, 1 + bits % 3, detk, (deck,), lim)))
    return out + [(histories, (n,)) for n in (1, 2, 3, 4)] + [(links, ())]
