"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None,
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

CC = 'commpy/channelcoding/convcode.py'
p('C01', 'A Trellis realises exactly the encoder its polynomials define',
  'For every memory vector, generator matrix and feedback (none, integer or matrix, MSB or LSB/Matlab bit order), the next-state and output tables of a Trellis are those of the shift-register encoder: output j is the modulo-2 sum over inputs i of the taps of G[i,j] on (current input i, register i), and register l shifts in the modulo-2 sum over i of the taps of the feedback entry F[l,i]. '
  'States, inputs and outputs are numbered with the first register/input/output as the most significant bit, and k, n, total_memory, number_states and number_inputs agree with the matrices. '
  'Building a Trellis leaves the caller\'s arrays as they were, and an unknown polynomial format is refused with ValueError.',
  ['inputs', 'configurations'], 'all generator/feedback polynomials for small memories, k<=3, n<=4, both bit orders, every state and input',
  'The tests build five fixed trellises; the table entry is a function of (state, input, polynomials) and each entry is a separate case.',
  [CC], [('table construction', 'convcode.py: Trellis.__init__')], ['Trellis.next_state_table', 'Trellis.output_table'])
p('C02', 'Convolutional encoding is the trellis walk, properly terminated and punctured',
  'conv_encode walks the trellis from the zero state, consuming k message bits and emitting n coded bits per step, so that a continuous encoding has len*n/k bits and is a prefix of every encoding that extends the message. '
  'With termination the walk continues with flush bits until it is back in the zero state, for recursive and non-recursive codes alike. '
  'With a puncture matrix exactly the coded bits at the kept positions of the cyclically repeated pattern are returned, in order and nothing else.',
  ['inputs', 'configurations'], 'all messages up to a length bound for a family of codes (k=1..3, recursive and not), both terminations, all puncture rows up to period 4',
  'Tests compare a few hand-written codewords of three codes, never a punctured one, and never look at the final state.',
  [CC, 'commpy/channelcoding/turbo.py'], [('encoding loop, flush bits, puncture loop', 'convcode.py: conv_encode')], ['conv_encode return value'])
p('C03', 'Viterbi decoding inverts noiseless encoding',
  'For every code and every message, decoding the noiseless encoding of the message returns the message: on its whole length when the encoding was terminated, for hard bits, unquantized +/-1 values and LLRs, and for any traceback depth from the constraint span up, longer than the block included. '
  'A continuous encoding decoded from LLRs is likewise recovered in full, and from hard or unquantized values up to the last memory-length of steps. '
  'The decoder neither modifies its input nor returns anything that depends on earlier calls or uninitialised memory, and refuses an unknown decoding type with ValueError.',
  ['inputs', 'configurations', 'histories'], 'all messages up to a length bound x codes (k=1,2,3) x decoding type x termination x traceback depth; long structured messages past every depth',
  'The decoder tests are marked slow and sampled random messages of one length; short blocks, k>1 and deep traceback are never run.',
  [CC], [('ACS + traceback with count/t bookkeeping', 'convcode.py: _acs_traceback, viterbi_decode')], ['viterbi_decode return value'])
p('C04', 'Viterbi decoding is maximum-likelihood and corrects guaranteed error patterns',
  'With a traceback depth covering the block and one memory length more, the decoded message re-encodes to a codeword at least as close to the received word (Hamming distance for hard, Euclidean for unquantized, log-likelihood for LLR inputs) as every terminated codeword. '
  'For non-catastrophic codes every pattern of at most floor((dfree-1)/2) bit errors in a terminated block is corrected wherever it falls before the last five memory lengths of the block, also with the default traceback depth.',
  ['inputs', 'configurations'], 'all received words of terminated blocks up to a length bound; all 1- and 2-error patterns of longer blocks; all words over a small soft alphabet; LLRs up to the clipping level',
  'Error correction is only tested statistically in tests marked slow; maximality over all codewords cannot be sampled.',
  [CC], [('add-compare-select', 'convcode.py: _acs_traceback'), ('branch metrics', 'convcode.py: _compute_branch_metrics')], ['viterbi_decode return value'])
p('C05', 'Puncturing keeps the pattern positions and depuncturing restores them',
  'puncturing returns exactly the elements at positions where the cyclically repeated puncturing vector is 1, in order. '
  'depuncturing returns an array of the requested length holding the punctured values, in order, at those positions and 0 at all others, so puncturing the result again gives back the punctured stream for any values, soft ones included.',
  ['inputs', 'configurations'], 'all patterns up to length 7 with all messages/lengths up to a bound (several periods, partial periods)',
  'One pattern (WiFi 3/4) with one message is tested.',
  [CC, 'commpy/wifi80211.py'], [('shift arithmetic on the pattern index', 'convcode.py: puncturing, depuncturing')], ['return values'])
p('C06', 'Turbo encoding emits the message and both constituent parity streams',
  'For every message, trellis pair and interleaver, the three turbo streams all have the length of the message: the message itself, the parity output of the first constituent encoder fed with the message, and the parity output of the second constituent encoder fed with the interleaved message. ',
  ['inputs', 'configurations'], 'all messages up to a length bound x all permutations of small interleavers / several seeds x recursive systematic codes (integer and matrix feedback, different constituents)',
  'The turbo test is statistical, is not reliable here, and never looks at the encoded streams.',
  ['commpy/channelcoding/turbo.py', CC], [('three conv_encode calls and tail stripping', 'turbo.py: turbo_encode')], ['turbo_encode return value'])
p('C07', 'The MAP decoder computes exact a-posteriori LLRs; turbo decoding iterates it',
  'For every received pair of streams, noise variance and a-priori LLR vector, the MAP decoder returns log P(bit=1|received)/P(bit=0|received) under the AWGN model with a zero start state and free end state, and the decisions are the signs. '
  'Turbo decoding returns the message for every noiseless encoding, its decisions being those of alternating the two MAP decoders which exchange the LLRs minus their own a-priori input through the interleaver; inputs are never modified.',
  ['inputs', 'configurations', 'histories'], 'all received words over a small symbol alphabet for short blocks, several variances and priors, against brute force over all messages; all noiseless messages x all small permutations x iteration counts',
  'A single statistical turbo test (unreliable here); the LLR values are never inspected.',
  ['commpy/channelcoding/turbo.py', 'commpy/channelcoding/interleavers.py'], [('alpha/beta recursions', 'turbo.py: _backward_recursion, _forward_recursion_decoding'), ('extrinsic exchange', 'turbo.py: turbo_decode')], ['map_decode, turbo_decode return values'])
GFS = 'commpy/channelcoding/gfields.py'
p('C08', 'Galois-field arithmetic satisfies the field laws and their invariants',
  'In GF(2^m), addition is bitwise exclusive-or and multiplication is polynomial multiplication modulo one primitive polynomial of degree m, element-wise on arrays; converting an exponent tuple to its power of the primitive element and back are mutually inverse over the whole field. '
  'The order of every non-zero element, the cyclotomic cosets (a partition closed under squaring, one per conjugacy class) and the minimal polynomials (monic irreducible with the element as root) are those of field theory, and no operation alters its operands.',
  ['inputs', 'configurations'], 'all element pairs for m<=6 (thorough m<=8), all elements for m<=10, all conversions for m<=16, all small polynomial pairs for polynomial multiply/divide',
  'Tests look at m=3 or 4 only, on hand-picked elements.',
  [GFS], [('power/tuple conversion and element operations', 'gfields.py: GF')], ['GF methods', 'polydivide', 'polymultiply'])
p('C09', 'Cyclic code generator search returns exactly the degree n-k divisors of x^n+1',
  'For every odd n whose splitting field is at most GF(2^16) and every 1 <= k < n, the generator polynomials returned are exactly the distinct degree n-k divisors of x^n+1 over GF(2), each once, as exact integers; even n is refused with ValueError.',
  ['inputs'], 'all odd n in a bounded set (proper divisors of 2^m-1 included) and all k, against independent factorisation',
  'One failing test on (7,4),(31,21); composite field cases are never run.',
  ['commpy/channelcoding/algcode.py', GFS], [('subset products of minimal polynomials', 'algcode.py: cyclic_code_genpoly')], ['cyclic_code_genpoly return value'])
p('C10', 'Interleavers are deterministic permutations with exact inverses',
  'A random interleaver of length N and a given seed applies a fixed permutation of all N positions (the one the NumPy RandomState of that seed yields): every call and every object with the same parameters agree, deinterleaving after interleaving (and the reverse order) is the identity for every data type, and no input is modified. '
  'Building or using one neither reads nor disturbs the global random generator.',
  ['inputs', 'configurations', 'histories'], 'all lengths up to 64 (and powers of two up to 1024) x seeds x dtypes x histories of interleaved uses of several objects, plus every permutation of small length',
  'One test of one length through the turbo code.',
  ['commpy/channelcoding/interleavers.py'], [('p_array and its inversion loop', 'interleavers.py')], ['interlv', 'deinterlv'])
LD = 'commpy/channelcoding/ldpc.py'
p('C11', 'LDPC design files and parameters round-trip the parity-check matrix',
  'Reading a design file yields node counts, degrees, adjacency lists and edge maps that all describe one and the same parity-check matrix, with unused slots marked and maps pointing to the position of each edge in the opposite list. '
  'Writing any parameter set and reading it back gives identical parameters and the same matrix, and building the matrices adds exactly that parity-check matrix and a systematic generator orthogonal to it.',
  ['inputs', 'configurations'], 'all parity-check matrices of small shapes (full enumeration) and every design file shipped with the package',
  'Tests encode with shipped files only; irregular and non-square matrices, and the write path, are hardly covered.',
  [LD], [('adjacency/map construction', 'ldpc.py: get_ldpc_code_params'), ('writer', 'ldpc.py: write_ldpc_params'), ('matrix build', 'ldpc.py: build_matrix')], ['returned dictionaries', 'written files'])
p('C12', 'LDPC encoding yields systematic codewords satisfying every parity check',
  'For every code whose parity part is invertible and every message, each encoded block starts with its message bits and has zero syndrome, encoding is linear, and the all-zero message gives the all-zero word. '
  'Several blocks are encoded independently, a partial last block is zero-padded only when padding is requested and otherwise refused with ValueError, and the caller\'s message is untouched.',
  ['inputs', 'configurations', 'histories'], 'all full-rank systematic parity-check matrices of small shape x all messages; shipped codes on the whole message basis, and all multi-block paddings',
  'Two shipped codes with random messages.',
  [LD], [('generator and triangular solve', 'ldpc.py: triang_ldpc_systematic_encode')], ['triang_ldpc_systematic_encode return value'])
p('C13', 'LDPC belief propagation follows the message-passing equations',
  'For every parity-check matrix, LLR vector, algorithm (sum-product or min-sum) and iteration limit, the decoder\'s output LLRs and hard decisions are those of flooding belief propagation, stopping as soon as every check is satisfied; a valid word is returned unchanged, and on cycle-free graphs sum-product gives the exact a-posteriori bit LLRs. '
  'Blocks of a multi-block input are decoded independently of one another, the input LLRs are not modified, results stay finite for zero and for huge LLRs, and an unknown algorithm name is refused.',
  ['inputs', 'configurations', 'histories'], 'all LLR vectors over a small alphabet (ties, zeros, saturating values) x codes x iteration limits; all single-bit corruptions of codewords; all pairs of blocks',
  'Random AWGN blocks of shipped codes checked for final BER; iteration counts, ties and multi-block states are not.',
  [LD], [('variable/check node updates and syndrome stop', 'ldpc.py: ldpc_bp_decode')], ['ldpc_bp_decode return values'])
MO = 'commpy/modulation.py'
p('C14', 'Modulation maps bit groups to points; hard demodulation takes the nearest one',
  'For every modem, each group of num_bits_symbol bits is mapped to the constellation point of that index (first bit most significant), hard demodulation returns the label of the nearest point, and so noiseless demodulation inverts modulation for every bit stream. '
  'PSK and QAM constellations have the requested size, distinct points and Gray labelling (nearest neighbours differ in one bit), impossible orders are refused with ValueError, and size, bits per symbol and average energy always follow the currently assigned constellation.',
  ['inputs', 'configurations', 'histories'], 'all orders up to 256, all symbols and symbol pairs, all messages up to a bound, a grid over the decision plane, all constellation-reassignment histories up to a depth',
  'Random bit streams for a few orders; labelling adjacency and reassignment histories are not tested exhaustively.',
  [MO], [('constellation generation, setter, table lookup', 'modulation.py: Modem, PSKModem, QAMModem')], ['modulate', 'demodulate', 'Es', 'm', 'num_bits_symbol'])
p('C15', 'Soft demodulation returns the exact bit log-likelihood ratios',
  'For every constellation, received value and noise variance, soft demodulation returns for each bit, in transmission order, the logarithm of the ratio of the summed Gaussian likelihoods of the points labelled 1 and the points labelled 0. '
  'On noiseless points, the noise variance being small against the point spacing, the signs give back the transmitted bits, every symbol is treated independently, and an unknown demodulation type is refused with ValueError.',
  ['inputs', 'configurations'], 'all constellations up to 64 points (custom ones included), a grid of received values covering every decision region, several variances, all symbol sequences up to length 3',
  'Only signs at high SNR with random streams are tested.',
  [MO], [('likelihood sums per bit', 'modulation.py: Modem.demodulate')], ['demodulate return value'])
p('C16', 'OFDM reception inverts OFDM transmission',
  'For every FFT size, number of used carriers and cyclic-prefix length (0 included), receiving the transmitted OFDM signal returns exactly the symbols that were sent, for any number of OFDM symbols. '
  'Every transmitted OFDM symbol begins with a copy of its own last samples, and data occupy only the nsc carriers around (and without) DC, in order of frequency.',
  ['inputs', 'configurations'], 'all basis vectors (linearity) for all sizes/carriers/prefix lengths up to a bound and several OFDM symbols',
  'There is no OFDM test.',
  [MO], [('carrier mapping and prefix', 'modulation.py: ofdm_tx, ofdm_rx')], ['ofdm_tx, ofdm_rx return values'])
p('C17', 'MIMO hard detection is maximum-likelihood (exhaustive and K-best)',
  'For every channel matrix, received vector and constellation, exhaustive detection returns a transmit vector minimising the Euclidean distance to the received vector. '
  'K-best detection always returns constellation points, equals the exact minimiser when K keeps every candidate, recovers every noiseless vector for any K, and its result is the best of the candidates surviving a layer-by-layer beam of width K.',
  ['inputs', 'configurations'], 'all received vectors over a small complex grid and all noiseless vectors x a set of channels (square and tall, ill-conditioned, complex) x constellations x K',
  'Random channels with one constellation, compared statistically.',
  [MO], [('enumeration of all combinations', 'modulation.py: mimo_ml'), ('QR beam search', 'modulation.py: kbest')], ['mimo_ml, kbest return values'])
p('C18', 'Soft MIMO detection gives max-log LLRs; the bit-level model is exact',
  'Soft K-best output and the max-log approximation return, for each transmitted bit in modulator order, the difference of the smallest squared distances among the candidate vectors with that bit at 1 and at 0, divided by twice the noise variance (positive for 0, infinite when one side is missing); with every candidate kept this is the exact max-log LLR. '
  'The best-first detector, its stacks being large enough, has the signs of the maximum-likelihood vector and magnitudes no larger than the given maximum, for square and tall channels, and finds noiseless vectors with any stack size. '
  'The bit-level channel matrix applied to weighted bits reproduces the channel applied to the modulated symbols for every bit vector.',
  ['inputs', 'configurations'], 'all bit vectors and a grid of received vectors x channels (square, tall) x constellations x list sizes',
  'One three-candidate example and the end-to-end BER of one configuration are tested.',
  [MO], [('candidate lists', 'modulation.py: best_first_detector, max_log_approx, kbest'), ('bit-level model', 'modulation.py: bit_lvl_repr')], ['detector return values'])
p('C19', 'PN sequences are the output of the specified shift register',
  'pnsequence returns, for any register order, seed and mask, the bits shifted out of the register while the modulo-2 sum of the masked cells is shifted in, for exactly the requested length. '
  'For a primitive mask and non-zero seed it has period 2^m-1 and is balanced, and inconsistent seed or mask sizes are refused with ValueError.',
  ['inputs', 'configurations'], 'all seeds x all masks for orders up to 6 (thorough 8), all lengths up to several periods for the small ones',
  'Two fixed sequences.',
  ['commpy/sequences.py'], [('shift register loop', 'sequences.py: pnsequence')], ['pnsequence return value'])
p('C20', 'Zadoff-Chu sequences have constant amplitude and zero autocorrelation',
  'For every length, root coprime to it and shift, the sequence follows the Zadoff-Chu formula: all samples have modulus one, every cyclic autocorrelation at non-zero lag is zero (odd and even lengths), and the shift parameter enters as the documented index offset. '
  'Roots that are out of range or not coprime and non-integer parameters are refused with ValueError.',
  ['inputs', 'configurations'], 'all lengths up to 40 (thorough 128), all roots and shifts, all lags',
  'One root and length is tested.',
  ['commpy/sequences.py'], [('closed form', 'sequences.py: zcsequence')], ['zcsequence return value'])
p('C21', 'Pulse-shaping filters sample their closed forms everywhere',
  'For every tap count, roll-off, symbol period and sampling rate, each filter returns the documented number of taps and time axis, and each tap equals the closed-form impulse response at its time, the removable singularities taking their limit values. '
  'Raised-cosine responses vanish at non-zero multiples of the symbol period, root-raised-cosine responses convolve to them, and all responses are finite and symmetric.',
  ['inputs', 'configurations'], 'grid of tap counts (odd and even), roll-offs (0, 1 and those hitting the singular times), periods and sampling rates',
  'Tap counts and a few values of one configuration.',
  ['commpy/filters.py'], [('case split on singular times', 'filters.py: rcosfilter, rrcosfilter, gaussianfilter, rectfilter')], ['filter return values'])
p('C22', 'Frequency-offset impairments compose additively',
  'Adding a frequency offset multiplies sample i by the phasor turning at delta_f/Fs cycles per sample starting from phase zero; it preserves magnitudes and length, offsets compose additively, and the opposite offset restores the waveform, without modifying the input.',
  ['inputs', 'histories'], 'all waveforms over a small alphabet up to a length bound x offsets x rates x all offset sequences of length 3',
  'One offset on one random waveform.',
  ['commpy/impairments.py'], [('phasor', 'impairments.py: add_frequency_offset')], ['return value'])
CH = 'commpy/channels.py'
p('C23', 'Flat-fading channels output gains times input plus the noise they report',
  'After every propagation through a SISO or MIMO flat-fading channel, the returned signal equals the reported channel gains applied to the (per-antenna, zero-padded) input plus the reported noise, and the reported unnoisy output is that sum without the noise. '
  'The noise standard deviation is what the last SNR setting prescribes from SNR, code rate, symbol energy and the channel\'s real/complex nature at that time (real noise has variance noise_std^2, complex noise half of it on each of its components), or the value assigned directly, whatever sequence of settings led there; real channels refuse complex messages, and using a channel without setting its noise is refused.',
  ['inputs', 'configurations', 'histories'], 'all histories of setter/propagate operations up to a depth x environment answers (one-hot noise tapes) x antenna counts x message lengths',
  'Tests estimate statistics of long random runs with wide tolerances, for a few settings.',
  [CH], [('propagate and noise generation', 'channels.py: SISOFlatChannel, MIMOFlatChannel, _FlatChannel')], ['propagate return value', 'noises', 'channel_gains', 'unnoisy_output', 'noise_std'])
p('C24', 'Fading parameters are validated atomically and determine the gain statistics',
  'A channel accepts fading parameters exactly when their average energy is consistent (|mean|^2 + variance = 1 with a non-negative variance for SISO, nb_tx*nb_rx for MIMO; deviations below 1e-9 are accepted and above 1e-2 refused with ValueError), a refused assignment leaves the previous parameters working, and each preset configures the requested K-factor and correlation. '
  'The gains generated then have exactly the mean and covariance given by those parameters: mean the line-of-sight part and E[h_il conj(h_jm)] = Rr[i,j] Rt[l,m] around it.',
  ['inputs', 'configurations', 'histories'], 'all histories of fading setters (valid and invalid) up to a depth; exact gain mean/covariance recovered from one-hot generator tapes for every preset and antenna count',
  'Tests estimate statistics with wide tolerances and fail for the correlated presets.',
  [CH], [('fading_param setters', 'channels.py: SISOFlatChannel, MIMOFlatChannel'), ('presets', 'channels.py: uncorr_*, expo_corr_*, specular_compo')], ['fading_param', 'k_factor', 'channel_gains'])
p('C25', 'BEC, BSC and AWGN act per symbol exactly as their parameters say',
  'The binary erasure channel replaces a symbol by -1 exactly when its random draw falls below the erasure probability and the binary symmetric channel flips it in that case, leaving all others alone; probability 0 never and probability 1 always acts. '
  'The AWGN helper adds, to real signals real and to complex signals complex noise whose total variance is the average input power over rate times SNR, and no channel modifies its input.',
  ['inputs', 'fault_sequences'], 'all bit words up to a length bound x all draw tapes over a boundary alphabet x probabilities; one-hot noise tapes for AWGN',
  'Tests count events of long random runs within tolerances.',
  [CH], [('per-bit draws', 'channels.py: bec, bsc'), ('power scaling', 'channels.py: awgn')], ['return values'])
LK = 'commpy/links.py'
p('C26', 'Link simulation counts errors and stops exactly as documented',
  'For every link and every error history of the channel, the simulated bit error rate of each SNR is the number of wrong decoded bits divided by the number of bits simulated, and link_performance stops an SNR after the first chunk at which err_min errors are reached or send_max bits were sent; the full metrics stop an SNR when asked to (stop_on_surpass_error) once its errors are above err_min and otherwise after all transmissions. '
  'Remaining SNRs are skipped exactly after one whose errors stayed below the target; each chunk carries a fresh random message through modulator, channel, receiver and decoder once, with the documented arguments and lengths (decoders of any documented arity, bound methods and other callables included), and full metrics report bit errors, erroneous chunks and totals consistently with them.',
  ['histories', 'configurations', 'fault_sequences'], 'all per-chunk error patterns of a scripted channel up to a bound x send_max x err_min x chunk sizes x code rates x decoder/receiver arities',
  'One statistical BER run per configuration; stop and accounting rules are not observed.',
  [LK], [('simulation loop', 'links.py: LinkModel.link_performance, link_performance_full_metrics')], ['returned BERs/metrics', 'calls seen by stub components'])
p('C27', 'The iterative detection-decoding receiver feeds back extrinsic information only',
  'The iterative receiver starts from the LLRs handed to it as a priori and alternates decoder and detector the requested number of times: the decoder gets the current LLRs, the detector is given, for each received vector, the decoder output minus the decoder input as its a-priori, and the next decoder input is the detector output minus the detector\'s a-priori. The decision function is finally applied to the last detector output.',
  ['inputs', 'configurations', 'histories'], 'all iteration counts up to a bound x recording stub detectors/decoders x received blocks, comparing the entire call trace',
  'Only the final BER of one random run is tested.',
  [LK], [('loop', 'links.py: idd_decoder')], ['calls seen by stub components'])
p('C28', 'The WiFi 802.11 link uses the standard code, puncturing and modulation per MCS',
  'For each modulation and coding scheme 0 to 9 the link uses the constellation size and code rate of the standard, encodes with the (133,171) octal code and the standard puncturing, and transmits exactly those modulated bits. '
  'Over an error-free channel each scheme has bit error rate 0, short blocks with transmission errors are decoded to the maximum-likelihood message, and per-SNR results are the error counts this leaves.',
  ['configurations', 'inputs', 'histories'], 'all 10 schemes x message basis through a recording channel, noiseless end-to-end runs',
  'One scheme at a few SNRs, compared with wide tolerance.',
  ['commpy/wifi80211.py', LK, CC], [('MCS tables', 'wifi80211.py: Wifi80211'), ('encode/puncture chain', 'wifi80211.py: link_performance')], ['symbols given to the channel', 'returned metrics'])
p('C29', 'Bit utilities are exact inverses and true distances',
  'Converting integers to fixed-width bit arrays (first bit most significant) and back is exact for every value and width, arrays of integers being concatenated in order. '
  'The Hamming and squared Euclidean distances, up-sampling and signal power equal their definitions for every input, and the arrays handed out are the caller\'s own.',
  ['inputs', 'histories'], 'all values up to 2^12 and all powers of two (+/-1) up to 2^70, all widths; all pairs of short words; histories of conversions with mutation of results and more than a cache\'s worth of distinct calls',
  'A handful of examples; the cache and wide words are never exercised.',
  ['commpy/utilities.py'], [('cached conversion', 'utilities.py: decimal2bitarray, dec2bitarray, bitarray2dec')], ['return values'])
p('C30', 'Calls are pure: inputs untouched, results independent of call history',
  'No encoder, decoder, modem, filter or utility call changes the arrays or objects passed to it, and its result depends only on its arguments: it is the same in a fresh process, after any other sequence of library calls, and after the caller has overwritten arrays returned earlier. ',
  ['histories', 'inputs'], 'all sequences up to a depth over an alphabet of calls that share caches, trellises, modems and code dictionaries, with result mutation as an operation',
  'Unit tests call each function once from a fresh state.',
  ['commpy/utilities.py', CC, LD, MO, 'commpy/channelcoding/turbo.py', GFS], [('lru_cache on conversions and branch metrics; shared parameter dictionaries', 'utilities.py, convcode.py, ldpc.py')], ['return values', 'argument arrays after the call'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        q['statement'] = q['statement'].strip()
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
