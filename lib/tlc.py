"""Running TLC: model checking, behaviour generation, trace validation."""
import os, re, json, subprocess, tempfile, shutil

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result(object):
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        if not m:
            m = re.findall(r'(\d+) states generated.*?(\d+) distinct states', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r'The number of states generated: (\d+)', out)      # simulation mode
        if m and not self.generated:
            self.generated = int(m[-1])
        self.violated = re.findall(r'(?:Invariant|Action property|property) (\S+) (?:is|was) violated', out)
        if 'Temporal properties were violated' in out:
            self.violated.append('temporal')
        self.ok = rc == 0 and not self.violated

    def json_lines(self, tag):
        """Values printed by PrintT(<<tag, ToJson(v)>>) or PrintT(tag \\o ToJson(v))."""
        res = []
        for line in self.out.split('\n'):
            if line.startswith('"' + tag):
                s = json.loads(line)[len(tag):] if line.endswith('"') else None
                res.append(json.loads(s))
        return res


def run(module, cfg, consts=None, workers=4, simulate=None, depth=None, seed=None, files=None,
        timeout=800, coverage=False, extra=None, heap='6g', allow_violation=False):
    """Run TLC on specs/<module>.tla with the given cfg text, in a scratch directory."""
    d = tempfile.mkdtemp(prefix='tlc_')
    try:
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        if consts:
            cfg = 'CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in consts.items()) + cfg
        with open(os.path.join(d, 'run.cfg'), 'w') as fh:
            fh.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-nowarning',
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', 'run.cfg',
               '-workers', str(workers)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += (extra or [])
        cmd += [module + '.tla']
        env = dict(os.environ); env.pop('JAVA_TOOL_OPTIONS', None)
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, universal_newlines=True)
        r = Result(p.stdout, p.returncode)
        if p.returncode != 0 and not (allow_violation and r.violated):
            err = TLCError('TLC failed on %s (rc %s):\n%s' % (module, p.returncode, p.stdout[-6000:]))
            err.rc, err.out = p.returncode, p.stdout
            raise err
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
