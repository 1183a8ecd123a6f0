"""Bounded exhaustive explorer: runs every trace of a check's space on the real code of /repo.

A check is a module checks/<id>.py with
    PID, TITLE, RULE                     text
    def shards(tier):  -> list of (function, args)      disjoint parts of the space
and each shard function f(ctx, *args) calls ctx.case(key, body, *args) for every trace of its part, in a
deterministic order.  `key` is the canonical description of the state/input/history; `body(c)` drives the real
library through c.call(...) / c.step() and compares every step with a reference model, raising Mismatch.

Shards run in forked worker processes; the parent merges the sets of distinct states, writes the evidence file,
prints KNOWN-FINDING / VIOLATION lines and picks the exit code.
"""
import array, collections, hashlib, importlib, json, os, pickle, resource, select, signal, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('COMMPY_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

CASE_TIMEOUT = 240
MAX_VIOL_PER_SHARD = 3


class Mismatch(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def h64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'little', signed=True)


class Ctx:
    """What a shard function sees."""
    def __init__(self, pid, tier, shard_no, only=None, known=()):
        self.pid, self.tier, self.shard_no, self.only = pid, tier, shard_no, only
        self.thorough = tier == 'thorough'
        self.n = 0
        self.states = array.array('q')
        self.transitions = 0
        self.traces = 0
        self.viol = []
        self.samples = []
        self.outcomes = collections.Counter()
        self.known = known
        self.known_hit = set()
        self.stop = False
        self.np = importlib.import_module('numpy')

    # -- exploration -----------------------------------------------------
    def case(self, key, body, *args):
        """One trace.  body(self, *args)."""
        n = self.n
        self.n += 1
        if self.stop or (self.only is not None and n != self.only):
            return
        self.states.append(h64(key))
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        msg = None
        try:
            out = body(self, *args)
            self.traces += 1
            if out is not None:
                self.outcomes[short(out, 60)] += 1
        except Mismatch as e:
            msg = str(e)
        except CaseTimeout:
            msg = 'no answer within %d s' % CASE_TIMEOUT
            self.stop = True
        except KeyboardInterrupt:
            raise
        except BaseException as e:                               # the library raised (or returned nonsense)
            msg = '%s: %s | %s' % (type(e).__name__, e, ' <- '.join(
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if n < 2 or n in (50, 500):
            self.samples.append(short(key, 300))
        if msg is not None:
            k = short(key, 2000)
            if k in self.known:
                self.known_hit.add(k)
                return
            self.viol.append(dict(key=k, msg=msg[:2000], n=n))
            if len(self.viol) >= MAX_VIOL_PER_SHARD and not os.environ.get('MC_ALL'):
                self.stop = True

    def step(self, k=1):
        self.transitions += k

    # -- driving the real code --------------------------------------------
    def call(self, fn, *args, **kw):
        """Call the library once; its arguments must be left exactly as they were."""
        before = [_snap(a) for a in args] + [_snap(v) for v in kw.values()]
        self.transitions += 1
        out = fn(*args, **kw)
        after = [_snap(a) for a in args] + [_snap(v) for v in kw.values()]
        for i, (b, a) in enumerate(zip(before, after)):
            if b != a and not (isinstance(b, frozenset) and isinstance(a, frozenset) and b <= a):      # entries may be added
                raise Mismatch('call of %s changed its argument %d: %s -> %s' % (
                    getattr(fn, '__qualname__', fn), i, short(b), short(a)))
        return out

    def raises(self, exc, fn, *args, **kw):
        self.transitions += 1
        try:
            out = fn(*args, **kw)
        except exc:
            return
        except Exception as e:
            raise Mismatch('%s expected from %s, got %s: %s' % (exc, getattr(fn, '__qualname__', fn), type(e).__name__, e))
        raise Mismatch('%s expected from %s%s, got result %s' % (exc, getattr(fn, '__qualname__', fn), short(args), short(out)))

    def eq(self, got, want, what=''):
        got, want = plain(got), plain(want)
        if got != want:
            raise Mismatch('%s: got %s, expected %s' % (what, short(got), short(want)))

    def true(self, cond, what='', *more):
        if not cond:
            raise Mismatch(what + ' ' + ' '.join(short(m) for m in more))

    def close(self, got, want, tol=1e-9, what='', rel=None):
        """element-wise |got-want| <= tol + rel*|want| ; shapes must agree; inf/nan must agree."""
        rel = tol if rel is None else rel
        got, want = plain(got), plain(want)
        _close(got, want, tol, rel, what, got, want)


def plain(x):
    """numpy -> python values/lists (so that comparisons run in plain Python)."""
    if hasattr(x, 'tolist'):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def _close(g, w, tol, rel, what, G, W):
    if isinstance(w, list):
        if not isinstance(g, list) or len(g) != len(w):
            raise Mismatch('%s: shape differs: got %s, expected %s' % (what, short(G), short(W)))
        for a, b in zip(g, w):
            _close(a, b, tol, rel, what, G, W)
        return
    if isinstance(g, list):
        raise Mismatch('%s: shape differs: got %s, expected %s' % (what, short(G), short(W)))
    if g == w:
        return
    d = abs(g - w)
    if not d <= tol + rel * abs(w):
        raise Mismatch('%s: got %s, expected %s (in %s vs %s)' % (what, g, w, short(G), short(W)))


def _snap(a):
    if isinstance(a, type):
        return repr(a)
    if hasattr(a, 'tobytes') and hasattr(a, 'dtype'):
        if a.dtype == object:
            return repr(a.tolist())
        return (a.shape, str(a.dtype), a.tobytes())
    if isinstance(a, dict):
        return frozenset((k, _snap(v)) for k, v in a.items())
    if hasattr(a, 'tocoo') and hasattr(a, 'toarray'):
        return _snap(a.toarray())
    if isinstance(a, (list, tuple)):
        return tuple(_snap(v) for v in a)
    if isinstance(a, (int, float, complex, str, bytes, type(None))):
        return repr(a)
    if type(a).__name__ == 'Trellis':
        return tuple((k, _snap(v)) for k, v in sorted(vars(a).items()))
    return None


# ---------------------------------------------------------------------------- parallel driver

def _run_shard(mod, tier, i, shard, only, known):
    ctx = Ctx(mod.PID, tier, i, only, known)
    signal.signal(signal.SIGALRM, _alarm)
    t = time.time()
    fn, args = shard
    err = None
    try:
        fn(ctx, *args)
    except BaseException as e:
        # the space itself could not be built: the library refused a construction that every trace needs
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        ctx.viol.append(dict(key='shard %s%s' % (fn.__name__, short(args)), msg='while building the space: ' + err[-1900:], n=-1))
    return dict(shard=i, name=fn.__name__ + short(args, 120), states=ctx.states.tobytes(), transitions=ctx.transitions,
                traces=ctx.traces, viol=ctx.viol, samples=ctx.samples, wall=time.time() - t, n=ctx.n,
                outcomes=dict(ctx.outcomes.most_common(20)), distinct_outcomes=len(ctx.outcomes),
                known_hit=sorted(ctx.known_hit), stopped=ctx.stop)


def run_shards(mod, tier, shards, known, workers):
    """Static list, dynamic assignment: each worker is forked per shard."""
    pending = list(enumerate(shards))
    running = {}
    results = [None] * len(shards)
    dead = []
    first_bad = None                 # time of the first violating shard: the rest gets only a little longer
    while pending or running:
        if first_bad is not None and time.time() - first_bad > 60 and not os.environ.get('MC_ALL'):
            for pid, i, _ in running.values():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            break
        while pending and len(running) < workers:
            i, sh = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    os.close(r)
                    data = pickle.dumps(_run_shard(mod, tier, i, sh, None, known))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, i, [])
        ready, _, _ = select.select(list(running), [], [], 5)
        for r in ready:
            pid, i, buf = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                buf.append(chunk)
                continue
            os.close(r)
            del running[r]
            os.waitpid(pid, 0)
            try:
                results[i] = pickle.loads(b''.join(buf))
                if first_bad is None and results[i]['viol']:
                    first_bad = time.time()
            except Exception:
                dead.append(i)
    return results, dead


def preload():
    """Import the library once, before forking; a failure shows up again, as a violation, in every shard."""
    try:
        import numpy, commpy, commpy.channelcoding, commpy.modulation, commpy.channels, commpy.links  # noqa
        import commpy.filters, commpy.sequences, commpy.impairments, commpy.utilities, commpy.wifi80211  # noqa
        assert commpy.__file__.startswith(REPO + '/'), commpy.__file__
    except ImportError as e:
        print('import failed:', e)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
    mod = importlib.import_module('checks.' + pid.lower())
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rep = json.load(f)
        sh = mod.shards(rep['tier'])[rep['shard']]
        res = _run_shard(mod, rep['tier'], rep['shard'], sh, rep['n'] if rep['n'] >= 0 and not getattr(mod, 'REPLAY_ALL', False) else None, ())
        print('replaying', rep['key'])
        for v in res['viol']:
            print('REPRODUCED', v['msg'])
        return 1 if res['viol'] else 0
    t0 = time.time()
    known = load_known(pid)
    known_keys = {k for e in known for k in e['keys']}
    preload()
    shards = mod.shards(tier)
    results, dead = run_shards(mod, tier, shards, known_keys, int(os.environ.get('MC_WORKERS', '8')))
    if dead:
        print('ERROR: worker died in shards', [(d, shards[d][0].__name__, short(shards[d][1])) for d in dead])
    states, viols, samples, outc = set(), [], [], collections.Counter()
    trans = traces = n = 0
    known_hit = set()
    for r in results:
        if r is None:
            continue
        a = array.array('q'); a.frombytes(r['states']); states.update(a)
        trans += r['transitions']; traces += r['traces']; n += r['n']
        samples += r['samples'][:2]
        known_hit.update(r['known_hit'])
        outc.update(r['outcomes'])
        for v in r['viol']:
            viols.append(dict(v, shard=r['shard'], shard_name=r['name']))
    if os.environ.get('MC_VERBOSE'):
        for r in sorted((r for r in results if r), key=lambda r: -r['wall']):
            print('  %6.1fs  %8d traces  %9d transitions  %6d outcomes  %s' % (r['wall'], r['traces'], r['transitions'], r['distinct_outcomes'], r['name']))
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(states=len(states), transitions=trans, traces_validated_against_impl=traces,
               exhaustive=all(r and not r['stopped'] for r in results) and not dead,
               shards=len(shards), distinct_observed_outcomes=len(outc), rule=mod.RULE,
               bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''), samples=samples[:12])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if REPO == '/repo':
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for e in known:
        hit = [k for k in e['keys'] if k in known_hit]
        if hit:
            print('KNOWN-FINDING: property=%s %s (%d of %d listed inputs still fail)' % (pid, e['what'], len(hit), len(e['keys'])))
        else:
            print('NOTE: listed finding no longer observed: property=%s %s' % (pid, e['what']))
    print('%s %s: %d distinct states, %d transitions, %d traces validated, %d violations, %.1f s' % (
        pid, tier, len(states), trans, traces, len(viols), wall))
    if viols:
        rdir = os.path.join(VERIF, 'replays') if REPO == '/repo' else os.path.join('/tmp', 'mc_replays')
        os.makedirs(rdir, exist_ok=True)
        for j, v in enumerate(viols[:5]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, j))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, shard=v['shard'], n=v['n'], key=v['key'], msg=v['msg'],
                               how='./check %s --replay %s' % (pid, path)), f, indent=1)
            print('  case %s\n    %s' % (v['key'][:600], v['msg'][:700]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if os.environ.get('MC_ALL'):
            with open('/tmp/mc_all_%s.json' % pid, 'w') as f:
                json.dump([dict(key=v['key'], msg=v['msg']) for v in viols], f, indent=0)
        return 1
    if dead:
        return 2
    return 0
