"""C30: library calls neither change their inputs nor depend on the calls made before."""
import copy, functools, glob, itertools, os, pickle, signal

PID = 'C30'
REPLAY_ALL = True                   # a violation may need the calls of earlier traces of its shard
RULE = ('all sequences of calls up to a depth over an alphabet of closed calls (fixed arguments, seeded generators) covering every part of the library, on '
        'shared objects, with the returned arrays either overwritten by the caller after each call or kept and compared at the end; each result against the '
        'result of the same call made first thing in a fresh process; plus one history per family walking all its ordered pairs without rebuilding the objects')
BOUNDS = dict(quick='all pairs over the whole alphabet with both uses of the results, all triples within each family overwriting the results; walks over all ordered pairs of the alphabet and of each family',
              thorough='all triples over the whole alphabet, all sequences of four within each family')
ASSUMPTIONS = ['calls that draw random numbers are made after seeding the global generator',
               'floating-point results are compared within 1e-9 (memory alignment may change the order of additions)']

FAMILIES = ('conv', 'turbo', 'bits', 'ldpc', 'mod', 'mimo', 'alg', 'chan', 'link')
OPS = {}                            # name -> (family, function(c, e))


def op(fam):
    def deco(f):
        OPS[f.__name__] = (fam, f)
        return f
    return deco


def design(name):
    import commpy
    return glob.glob(os.path.join(os.path.dirname(commpy.__file__), 'channelcoding', 'designs', 'ldpc', '*', name))[0]


def demode(modem, x):
    return modem.demodulate(x, 'hard')


def build():
    """the shared objects; every array is owned by the 'caller'"""
    import numpy as np
    from commpy.channelcoding import Trellis, RandInterlv, get_ldpc_code_params
    from commpy.modulation import Modem, PSKModem, QAMModem
    from commpy.channels import SISOFlatChannel, MIMOFlatChannel
    from commpy.wifi80211 import Wifi80211
    e = {}
    e['g57'] = np.array([[0o5, 0o7]])
    e['mem2'] = np.array([2])
    e['t57'] = Trellis(e['mem2'], e['g57'])
    e['trsc'] = Trellis(np.array([2]), np.array([[1, 5]]), 7, 'rsc')
    e['t2'] = Trellis(np.array([1, 1]), np.array([[1, 0, 3], [2, 3, 1]]))
    e['msg'] = np.array([1, 0, 1, 1, 0, 0, 1, 0], 'int8')
    e['msg2'] = np.array([0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, 1])
    e['punct'] = np.array([[1, 0], [1, 1]])
    e['pvec'] = np.array([1, 1, 0, 1])
    e['rx'] = np.array([1, 1, 0, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0])
    e['soft'] = np.array([3, -2, 7, 1, -90, 2, -4, 5, 1, 1, -3, 6, -8, 2, 3, -1, 4, -5, 120, 3], float)
    e['soft32'] = e['soft'].astype('float32')
    e['soft8'] = e['soft'].astype('int8')
    e['int'] = RandInterlv(8, 3)
    e['ldpc'] = get_ldpc_code_params(design('96.33.964.txt'), True)
    e['ldpcmsg'] = np.array([1, 0, 0, 1] * 12, 'int8')
    e['llr'] = np.array([((i * 37) % 23) - 9.5 for i in range(96)])
    e['psk'], e['qam'] = PSKModem(4), QAMModem(16)
    e['pts'] = np.array([-1 - 1j, -1 + 1j, 1 - 1j, 1 + 1j])
    e['modem'] = Modem(e['pts'])
    e['hard'] = functools.partial(demode, e['modem'])
    e['sym'] = np.array([.3 + .9j, -1.2 + .1j, .8 - 2.1j, -.4 - .3j])
    e['H'] = np.array([[.9 + .4j, -.3 + 1.1j], [.2 - .8j, 1.3 + .1j]])
    e['y'] = np.array([.7 - .2j, -1.1 + .4j])
    e['siso'], e['mimo'] = SISOFlatChannel(None, (.6, .64)), MIMOFlatChannel(2, 2)
    e['mimo'].expo_corr_rayleigh_fading(1j, 1., .5, .3)
    e['wave'] = np.array([1., -2., .5, 3., -1., .25, 1.5, -.5])
    e['cwave'] = e['wave'] + 1j * e['wave'][::-1]
    e['bpsk'] = PSKModem(2)
    e['sisoL'] = SISOFlatChannel(fading_param=(1 + 0j, 0))
    e['wifi'] = Wifi80211(0)
    return e


# ---- convolutional codes

@op('conv')
def enc_term(c, e):
    from commpy.channelcoding import conv_encode
    return c.call(conv_encode, e['msg'], e['t57'])


@op('conv')
def enc_cont(c, e):
    from commpy.channelcoding import conv_encode
    return c.call(conv_encode, e['msg'], e['trsc'], 'cont')


@op('conv')
def enc_rsc_term(c, e):
    from commpy.channelcoding import conv_encode
    return c.call(conv_encode, e['msg'], e['trsc'])


@op('conv')
def enc_k2(c, e):
    from commpy.channelcoding import conv_encode
    return c.call(conv_encode, e['msg'], e['t2'])


@op('conv')
def enc_punct(c, e):
    from commpy.channelcoding import conv_encode
    return c.call(conv_encode, e['msg'], e['t57'], 'cont', e['punct'])


@op('conv')
def vit_hard(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['rx'], e['t57'], 4)


@op('conv')
def vit_hard_default(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['rx'], e['t57'])


@op('conv')
def vit_soft(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['soft'], e['t57'], 5, 'soft')


@op('conv')
def vit_soft32(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['soft32'], e['t57'], 5, 'soft')


@op('conv')
def vit_soft8(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['soft8'], e['t57'], 5, 'soft')


@op('conv')
def vit_unq(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['soft'] / 40, e['trsc'], 6, 'unquantized')


@op('conv')
def vit_k2(c, e):
    from commpy.channelcoding import viterbi_decode
    return c.call(viterbi_decode, e['rx'][:18], e['t2'], 3)


@op('conv')
def vit_bad(c, e):
    from commpy.channelcoding import viterbi_decode
    c.raises(ValueError, viterbi_decode, e['rx'], e['t57'], 4, 'Hard')


@op('conv')
def punct(c, e):
    from commpy.channelcoding.convcode import puncturing
    return c.call(puncturing, e['soft'], e['pvec'])


@op('conv')
def depunct(c, e):
    from commpy.channelcoding.convcode import depuncturing
    return c.call(depuncturing, e['soft'][:6], e['pvec'], 8)


@op('conv')
def new_trellis(c, e):
    from commpy.channelcoding import Trellis, conv_encode
    t = c.call(Trellis, e['mem2'], e['g57'])
    return [t.next_state_table.copy(), t.output_table.copy(), t.k, t.n, t.total_memory]


@op('conv')
def new_rsc(c, e):
    from commpy.channelcoding import Trellis
    t = c.call(Trellis, e['mem2'], e['g57'], 7, 'rsc')
    return [t.next_state_table, t.output_table]


@op('conv')
def tables(c, e):
    return [getattr(e[t], a).copy() for t in ('t57', 'trsc', 't2') for a in ('next_state_table', 'output_table')]


# ---- turbo codes and interleavers

@op('turbo')
def turbo_enc(c, e):
    from commpy.channelcoding import turbo_encode
    return c.call(turbo_encode, e['msg'], e['trsc'], e['trsc'], e['int'])


@op('turbo')
def turbo_dec(c, e):
    from commpy.channelcoding import turbo_decode
    s = e['soft'] / 30
    return c.call(turbo_decode, s[:8], s[8:16], s[12:20], e['trsc'], .5, 2, e['int'])


@op('turbo')
def turbo_dec_prior(c, e):
    from commpy.channelcoding import turbo_decode
    s = e['soft'] / 30
    return c.call(turbo_decode, s[:8], s[8:16], s[12:20], e['trsc'], .5, 1, e['int'], e['soft'][4:12])


@op('turbo')
def map_dec(c, e):
    from commpy.channelcoding import map_decode
    s = e['soft'] / 30
    return c.call(map_decode, s[:8], s[8:16], e['trsc'], .7, s[12:20])


@op('turbo')
def map_llr(c, e):
    from commpy.channelcoding import map_decode
    s = e['soft'] / 30
    return c.call(map_decode, s[:8], s[8:16], e['trsc'], .7, s[12:20], 'compute')


@op('turbo')
def interlv(c, e):
    return c.call(e['int'].interlv, e['msg'])


@op('turbo')
def deinterlv(c, e):
    return c.call(e['int'].deinterlv, e['wave'])


@op('turbo')
def new_interlv(c, e):
    from commpy.channelcoding import RandInterlv
    return c.call(c.call(RandInterlv, 8, 4).interlv, e['wave'])


# ---- bits

@op('bits')
def dec2bits(c, e):
    from commpy.utilities import dec2bitarray
    return c.call(dec2bitarray, 5, 4)


@op('bits')
def dec2bits_arr(c, e):
    from commpy.utilities import dec2bitarray
    return c.call(dec2bitarray, (5, 9, 5), 4)


@op('bits')
def decimal2bits(c, e):
    from commpy.utilities import decimal2bitarray
    return c.call(decimal2bitarray, 5, 4)


@op('bits')
def bits2dec(c, e):
    from commpy.utilities import bitarray2dec
    return c.call(bitarray2dec, e['msg'])


@op('bits')
def dists(c, e):
    from commpy.utilities import hamming_dist, euclid_dist
    return [c.call(hamming_dist, e['rx'][:8], e['rx'][8:16]), c.call(euclid_dist, e['wave'], e['soft'][:8])]


@op('bits')
def up(c, e):
    from commpy.utilities import upsample
    return c.call(upsample, e['wave'], 3)


@op('bits')
def up1(c, e):
    from commpy.utilities import upsample
    return c.call(upsample, e['wave'], 1)


@op('bits')
def power(c, e):
    from commpy.utilities import signal_power
    return c.call(signal_power, e['cwave'])


@op('bits')
def pn(c, e):
    from commpy.sequences import pnsequence
    return c.call(pnsequence, 3, '101', '011', 12)


@op('bits')
def pn_list(c, e):
    from commpy.sequences import pnsequence
    return c.call(pnsequence, 3, [1, 0, 1], [0, 1, 1], 12)


@op('bits')
def zc(c, e):
    from commpy.sequences import zcsequence
    return c.call(zcsequence, 2, 7, 1)


@op('bits')
def filters(c, e):
    from commpy import filters as f
    return [c.call(f.rcosfilter, 8, .5, 2., 4.), c.call(f.rrcosfilter, 8, .5, 2., 4.), c.call(f.gaussianfilter, 7, .5, 2., 4.), c.call(f.rectfilter, 7, 2., 4.)]


@op('bits')
def freq(c, e):
    from commpy.impairments import add_frequency_offset
    return [c.call(add_frequency_offset, e['cwave'], 8., 1.), c.call(add_frequency_offset, e['wave'], 8., 0.)]


# ---- LDPC

@op('ldpc')
def ldpc_read(c, e):
    from commpy.channelcoding import get_ldpc_code_params
    p = c.call(get_ldpc_code_params, design('96.33.964.txt'), True)
    return [p[k].toarray() if hasattr(p[k], 'toarray') else p[k] for k in sorted(p)]


@op('ldpc')
def ldpc_sp(c, e):
    from commpy.channelcoding.ldpc import ldpc_bp_decode
    return c.call(ldpc_bp_decode, e['llr'], e['ldpc'], 'SPA', 3)


@op('ldpc')
def ldpc_ms(c, e):
    from commpy.channelcoding.ldpc import ldpc_bp_decode
    return c.call(ldpc_bp_decode, e['llr'], e['ldpc'], 'MSA', 3)


@op('ldpc')
def ldpc_two(c, e):
    import numpy as np
    from commpy.channelcoding.ldpc import ldpc_bp_decode
    return c.call(ldpc_bp_decode, np.concatenate((e['llr'], 60 * e['llr'][::-1])), e['ldpc'], 'MSA', 2)


@op('ldpc')
def ldpc_zero_it(c, e):
    from commpy.channelcoding.ldpc import ldpc_bp_decode
    return c.call(ldpc_bp_decode, e['llr'], e['ldpc'], 'SPA', 0)


@op('ldpc')
def ldpc_enc(c, e):
    from commpy.channelcoding.ldpc import triang_ldpc_systematic_encode
    return c.call(triang_ldpc_systematic_encode, e['ldpcmsg'], e['ldpc'])


@op('ldpc')
def ldpc_enc_pad(c, e):
    from commpy.channelcoding.ldpc import triang_ldpc_systematic_encode
    return c.call(triang_ldpc_systematic_encode, e['ldpcmsg'][:7], e['ldpc'])


@op('ldpc')
def ldpc_build(c, e):
    from commpy.channelcoding.ldpc import build_matrix
    p = {k: v for k, v in e['ldpc'].items() if not k.endswith('matrix')}
    build_matrix(p)
    return [p['parity_check_matrix'].toarray(), p['generator_matrix'].toarray()]


# ---- modulation

@op('mod')
def psk_mod(c, e):
    return c.call(e['psk'].modulate, e['msg'])


@op('mod')
def qam_mod(c, e):
    return c.call(e['qam'].modulate, e['msg'])


@op('mod')
def qam_hard(c, e):
    return c.call(e['qam'].demodulate, e['sym'], 'hard')


@op('mod')
def qam_soft(c, e):
    return c.call(e['qam'].demodulate, e['sym'], 'soft', .3)


@op('mod')
def psk_soft(c, e):
    return c.call(e['psk'].demodulate, e['sym'], 'soft', .01)


@op('mod')
def modem_hard(c, e):
    return c.call(e['modem'].demodulate, e['sym'], 'hard')


@op('mod')
def modem_bad(c, e):
    c.raises(ValueError, e['modem'].demodulate, e['sym'], 'Hard')


@op('mod')
def modem_const(c, e):
    return [list(e[m].constellation) for m in ('modem', 'psk', 'qam')] + [e[m].Es for m in ('modem', 'psk', 'qam')]


@op('mod')
def new_modems(c, e):
    from commpy.modulation import Modem, PSKModem, QAMModem
    out = []
    for m in (c.call(Modem, e['pts'], False), c.call(PSKModem, 8), c.call(QAMModem, 16)):
        out += [c.call(m.modulate, e['msg2']), m.Es, m.m]
    return out


@op('mod')
def set_const(c, e):
    from commpy.modulation import Modem
    m = c.call(Modem, e['pts'])
    m.constellation = e['pts'] * 3
    return [c.call(m.modulate, e['msg']), m.Es]


@op('mod')
def ofdm(c, e):
    from commpy.modulation import ofdm_tx, ofdm_rx
    y = c.call(ofdm_tx, e['cwave'][:6].reshape(6, 1), 8, 6, 2)
    return [y.copy(), c.call(ofdm_rx, y.copy(), 8, 6, 2)]


# ---- MIMO

@op('mimo')
def ml(c, e):
    from commpy.modulation import mimo_ml
    return c.call(mimo_ml, e['y'], e['H'], e['pts'])


@op('mimo')
def kb(c, e):
    from commpy.modulation import kbest
    return c.call(kbest, e['y'], e['H'], e['pts'], 3)


@op('mimo')
def kb_soft(c, e):
    from commpy.modulation import kbest
    return c.call(kbest, e['y'], e['H'], e['pts'], 16, .5, 'soft', e['hard'])


@op('mimo')
def kb64(c, e):
    from commpy.modulation import kbest
    return c.call(kbest, e['y'].astype('complex64'), e['H'].astype('complex64'), e['pts'], 2)


@op('mimo')
def bfd(c, e):
    from commpy.modulation import best_first_detector
    return c.call(best_first_detector, e['y'], e['H'], e['pts'], (1, 3, 5), .5, e['hard'], 500)


@op('mimo')
def bit_lvl(c, e):
    from commpy.modulation import bit_lvl_repr
    import numpy as np
    return c.call(bit_lvl_repr, e['H'], np.array([2, 1]))


@op('mimo')
def maxlog(c, e):
    import numpy as np
    from commpy.modulation import max_log_approx
    pts = np.array(list(itertools.product(e['pts'], repeat=2))).T
    return c.call(max_log_approx, e['y'], e['H'], .5, pts, e['hard'])


# ---- fields and cyclic codes

@op('alg')
def gf_ops(c, e):
    import numpy as np
    from commpy.channelcoding import GF
    a, b = GF(np.array([1, 5, 7]), 3), GF(np.array([6, 2, 3]), 3)
    return [(a + b).elements, (a * b).elements]


@op('alg')
def gf_all(c, e):
    import numpy as np
    from commpy.channelcoding import GF
    a = GF(np.arange(16), 4)
    return [a.order(), [x.elements for x in a.cosets()], a.minpolys(), a.elements.copy()]


@op('alg')
def gf_conv(c, e):
    import numpy as np
    from commpy.channelcoding import GF
    return [GF(np.array([1, 5, 7, 3]), 3).tuple_to_power().elements, GF(np.array([0, 3, 6, 1]), 3).power_to_tuple().elements]


@op('alg')
def cyc(c, e):
    from commpy.channelcoding import cyclic_code_genpoly
    return sorted(int(v) for v in c.call(cyclic_code_genpoly, 15, 8))


@op('alg')
def cyc7(c, e):
    from commpy.channelcoding import cyclic_code_genpoly
    return sorted(int(v) for v in c.call(cyclic_code_genpoly, 7, 4))


@op('alg')
def polys(c, e):
    from commpy.channelcoding.gfields import polydivide, polymultiply, poly_to_string
    return [int(polydivide(53, 11)), int(polymultiply(5, 7, 3, 11)), poly_to_string(11)]


# ---- channels

def seeded(k):
    import numpy as np
    np.random.seed(k)


@op('chan')
def ch_awgn(c, e):
    from commpy.channels import awgn
    seeded(1)
    return c.call(awgn, e['cwave'], 3., .5)


@op('chan')
def ch_awgn_real(c, e):
    from commpy.channels import awgn
    seeded(1)
    return c.call(awgn, e['wave'], 3.)


@op('chan')
def ch_bsc(c, e):
    from commpy.channels import bsc
    seeded(2)
    return c.call(bsc, e['rx'], .4)


@op('chan')
def ch_bsc0(c, e):
    from commpy.channels import bsc, bec
    seeded(2)
    return [c.call(bsc, e['rx'], 0), c.call(bec, e['rx'], 0)]


@op('chan')
def ch_bec(c, e):
    from commpy.channels import bec
    seeded(3)
    return c.call(bec, e['rx'], .4)


@op('chan')
def siso(c, e):
    ch = e['siso']
    ch.set_SNR_dB(6., .5, 2)
    seeded(4)
    return [c.call(ch.propagate, e['wave']), ch.channel_gains, ch.noises, ch.noise_std, ch.k_factor]


@op('chan')
def siso_noiseless(c, e):
    from commpy.channels import SISOFlatChannel
    ch = SISOFlatChannel(0, (1, 0))
    seeded(4)
    return c.call(ch.propagate, e['wave'])


@op('chan')
def mimo(c, e):
    ch = e['mimo']
    ch.set_SNR_lin(4.)
    seeded(5)
    return [c.call(ch.propagate, e['cwave']), ch.channel_gains, ch.noises, ch.noise_std, ch.k_factor]


@op('chan')
def mimo_modes(c, e):
    from commpy.channels import MIMOFlatChannel
    ch = MIMOFlatChannel(2, 2, .1)
    out = []
    for f in (lambda: ch.uncorr_rayleigh_fading(complex), lambda: ch.expo_corr_rayleigh_fading(-1, 1j, .5, .5),
              lambda: ch.uncorr_rician_fading(e['H'], 3.), lambda: ch.expo_corr_rician_fading(e['H'], 3., 1j, 1, .2, .3)):
        f()
        seeded(6)
        out.append(c.call(ch.propagate, e['cwave']))
    return out


@op('chan')
def mimo_spec(c, e):
    return c.call(e['mimo'].specular_compo, .3, .5, 1.1, .5)


# ---- links

@op('link')
def link(c, e):
    from commpy.links import link_performance, LinkModel
    m, ch = e['bpsk'], e['sisoL']
    lm = LinkModel(m.modulate, ch, lambda y, h, con, nv: m.demodulate(y, 'hard'), m.num_bits_symbol, m.constellation, m.Es)
    seeded(7)
    return c.call(link_performance, lm, e['wave'][:2] + 2, 60, 3, 20)


@op('link')
def link_full(c, e):
    from commpy.links import LinkModel
    m, ch = e['bpsk'], e['sisoL']
    lm = LinkModel(m.modulate, ch, lambda y, h, con, nv: m.demodulate(y, 'hard'), m.num_bits_symbol, m.constellation, m.Es)
    seeded(8)
    return list(c.call(lm.link_performance_full_metrics, e['wave'][:2] + 2, 3, 3, 20))


@op('link')
def wifi_modem(c, e):
    m = c.call(e['wifi'].get_modem)
    return [m.constellation, m.Es]


@op('link')
def wifi_link(c, e):
    from commpy.wifi80211 import Wifi80211
    import numpy as np
    w = Wifi80211(2)
    seeded(9)
    return list(w.link_performance(e['sisoL'], np.array([8.]), 1, 2, 48))


@op('link')
def idd(c, e):
    import numpy as np
    from commpy.links import idd_decoder
    m = e['psk']
    f = idd_decoder(lambda y, h, con, nv, a: m.demodulate(y, 'soft', nv) + .5 * a,
                    lambda a: a * 1.5, lambda a: (a > 0).astype(int), 3)
    return c.call(f, e['sym'].reshape(2, 2), np.array([e['H'], e['H'] * 1j]), e['psk'].constellation, .5, e['wave'], 4)


# ---------------------------------------------------------------------------- exploration

class Quiet:
    """stands in for the context in the fresh process"""
    def call(self, f, *a, **k):
        return f(*a, **k)

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            pass


def freeze(r):
    import numpy as np
    if isinstance(r, (list, tuple)):
        return [freeze(v) for v in r]
    if isinstance(r, np.ndarray):
        return r.tolist()
    if isinstance(r, np.generic):
        return r.item()
    return r


def fresh(names):
    """the results of the calls, each in a process of its own that has only imported the library"""
    out, todo, running = {}, list(names), []
    while todo or running:
        while todo and len(running) < 8:
            name = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.setitimer(signal.ITIMER_REAL, 240)
                    try:
                        res = (True, freeze(OPS[name][1](Quiet(), build())))
                    except Exception as ex:
                        res = (False, type(ex).__name__)
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(w)
            running.append((name, pid, r))
        name, pid, r = running.pop(0)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out[name] = pickle.loads(data) if data else (False, 'no answer')
    return out


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, list):
        return False
    if a == b or (a != a and b != b):
        return True
    try:
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    except TypeError:
        return False


def spoil(r, mine):
    """overwrite every array the library returned"""
    import numpy as np
    if isinstance(r, (list, tuple)):
        for v in r:
            spoil(v, mine)
    elif isinstance(r, np.ndarray) and r.flags.writeable and r.size:
        r[...] = 1 if r.dtype.kind == 'b' else 77


def run(c, e, name, want, hist, k):
    ok, exp = want[name]
    try:
        r = OPS[name][1](c, e)
    except Exception as ex:
        if type(ex).__name__ == 'Mismatch' or ok or type(ex).__name__ != exp:
            raise
        return None, None
    c.true(ok, 'call %d (%s) of %s raised %s in a fresh process but not here' % (k, name, hist, exp))
    f = freeze(r)
    if not same(f, exp):
        c.true(False, 'call %d (%s) of %s depends on the calls before it: got' % (k, name, hist), f, 'fresh process:', exp)
    return r, f


def seq_case(c, hist, mode, want, pristine):
    e = copy.deepcopy(pristine)
    kept = []
    for k, name in enumerate(hist):
        r, f = run(c, e, name, want, hist, k)
        if mode == 'spoil':
            spoil(r, e)
        else:
            kept.append((name, r, f))
    for name, r, f in kept:
        c.true(same(freeze(r), f), 'the result of %s was changed by a later call of %s' % (name, hist))


WANT = {}


def prepare(names):
    return WANT, build()


def pairs(ctx, firsts, modes=('spoil', 'keep')):
    names = list(OPS)
    want, pristine = prepare(names)
    for first in firsts:
        for b in names:
            for mode in modes:
                ctx.case((first, b, mode), seq_case, (first, b), mode, want, pristine)


def family(ctx, fam, depth, firsts):
    names = [n for n, (f, _) in OPS.items() if f == fam]
    want, pristine = prepare(names)
    for first in firsts:
        for rest in itertools.product(names, repeat=depth - 1):
            for mode in ('spoil', 'keep') if ctx.thorough else ('spoil',):
                h = (first,) + rest
                ctx.case((h, mode), seq_case, h, mode, want, pristine)


def triples(ctx, first):
    names = list(OPS)
    want, pristine = prepare(names)
    for rest in itertools.product(names, repeat=2):
        h = (first,) + rest
        ctx.case((h, 'spoil'), seq_case, h, 'spoil', want, pristine)


def walk_case(c, names, mode, want, pristine):
    """all ordered pairs in one history, the objects used throughout: 0 0 1 0 2 ... 1 1 2 1 3 ..."""
    e = copy.deepcopy(pristine)
    seq = []
    for i, a in enumerate(names):
        seq.append(a)
        for b in names[i + 1:]:
            seq += [a, b]
    kept = {}
    for k, name in enumerate(seq):
        r, f = run(c, e, name, want, 'walk', k)
        if mode == 'spoil':
            spoil(r, e)
        elif name not in kept:
            kept[name] = r, f
    for name, (r, f) in kept.items():
        c.true(same(freeze(r), f), 'the first result of %s was changed by a later call' % name)


def walks(ctx, fam, k, mode):
    names = [n for n, (f, _) in OPS.items() if fam == f or fam is None and n not in SLOW]
    want, pristine = prepare(names)
    order = (names, names[::-1], names[1::2] + names[::2])[k]
    ctx.case((tuple(order), mode), walk_case, order, mode, want, pristine)


SLOW = ('wifi_link',)


def groups(names, size):
    names = list(names)
    return [tuple(names[i::-(-len(names) // size)]) for i in range(-(-len(names) // size))]


def shards(tier):
    th = tier == 'thorough'
    WANT.update(fresh(OPS))             # before any worker is forked and before anything else ran
    quickops = [n for n in OPS if n not in SLOW]
    out = [(pairs, (SLOW, (m,))) for m in ('spoil', 'keep')[:2 if th else 1]]
    out += [(walks, (f, k, m)) for f in (None,) + FAMILIES for k, m in itertools.product(range(3), ('spoil', 'keep')) if f or th or (k, m) in ((0, 'spoil'), (1, 'keep'))]
    out += [(pairs, (g,)) for g in groups(quickops, 6)]
    if th:
        out += [(triples, (n,)) for n in OPS]
    for f in FAMILIES:
        out += [(family, (f, 4 if th else 3, g)) for g in groups([n for n, (g, _) in OPS.items() if g == f], 1 if th else 6)]
    return out
