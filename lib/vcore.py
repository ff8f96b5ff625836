"""Shared plumbing of the checks: seeds, tiers, violations, known findings, evidence."""
import functools, os, re, sys, json, time, random, traceback, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'


def tier(q, t):
    return t if THOROUGH else q


class Check(object):
    def __init__(self, pid):
        Check.current = self
        self.pid = pid
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.bad = []          # (signature, detail)
        self.known = {}
        self.known_hit = {}
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.rstrip('\n')
                if line.startswith('known: property=' + pid + ' '):
                    rest = line[len('known: property=' + pid + ' '):]
                    sig, _, text = rest.partition(' :: ')
                    self.known[sig.strip()] = text.strip()
        self.repdir = os.path.join(EVID, 'replay')
        os.makedirs(self.repdir, exist_ok=True)
        for f in os.listdir(self.repdir):
            if f.startswith(pid + '-'):
                os.unlink(os.path.join(self.repdir, f))

    # ---- accounting -----------------------------------------------------
    def model(self, name, r):
        """Account for a TLC run over the specification itself."""
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault('models', {})[name] = {'distinct': r.distinct, 'generated': r.generated}

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # ---- verdicts -------------------------------------------------------
    def report(self, sig, detail):
        """A disagreement between the code and the specification."""
        if sig in self.known:
            self.known_hit[sig] = self.known_hit.get(sig, 0) + 1
            return
        if len(self.bad) < 50:
            self.bad.append((sig, detail))

    def finish(self, level='model_checking'):
        for sig, text in self.known.items():
            if sig in self.known_hit:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, text, sig))
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ['none'])
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.bad))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        if self.bad:
            for i, (sig, detail) in enumerate(self.bad[:3]):
                path = os.path.join(self.repdir, '%s-%d.json' % (self.pid, i))
                with open(path, 'w') as fh:
                    json.dump(dict(property=self.pid, signature=sig, seed=SEED, tier=TIER, detail=detail),
                              fh, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  clause: %s' % sig)
                print('  ' + json.dumps(detail, default=str)[:250])
            sys.stdout.flush()
            sys.exit(1)
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(0)


def guard(main):
    """Run main(); a crash of the machinery is an error exit (2), never a verdict; one raised inside SUAVE is."""
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        sys.stdout.flush()
        c = getattr(Check, 'current', None)
        tb = traceback.extract_tb(e.__traceback__)
        mine = [f.filename for f in tb if '/trunk/SUAVE/' in f.filename or f.filename.startswith(ROOT + os.sep)]
        remote = re.findall(r'File "([^"]+)", line', str(e.__cause__ or ''))     # raised in a worker process
        mine = [f for f in remote if '/trunk/SUAVE/' in f or f.startswith(ROOT + os.sep)] or mine
        if c is not None and mine and '/trunk/SUAVE/' in mine[-1] and not isinstance(e, (MemoryError, KeyboardInterrupt)):
            # the workload is fixed by the seed and runs through on the tree the specification was bound to
            c.report('crash:%s' % type(e).__name__, dict(kind='the code raised where the specification has a step',
                     error=repr(e)[:300], where=['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb[-4:]]))
            c.finish()
        sys.exit(2)


def worker(f):
    """For functions run in a pool: an exception which cannot be pickled would hang it."""
    @functools.wraps(f)
    def g(*a):
        try:
            return f(*a)
        except Exception as e:
            raise RuntimeError(repr(e)).with_traceback(e.__traceback__) from None
    return g


class Scratch(object):
    """A scratch working directory which is removed afterwards."""
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='verif_')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)
