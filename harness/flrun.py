"""Drives the compiled fl interpreter over pipes: batches of expressions in, (value, type) or ('!', message) out."""
import subprocess, sys, os, time, random, tempfile, shutil, select, re
class Died(Exception): pass
class Fl:
    def __init__(self, exe, args=(), preload=''):
        self.dir = tempfile.mkdtemp(prefix='flr_'); self.k = 0; self.exe = exe
        self.p = subprocess.Popen([exe, '-noX', '-T', self.dir] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir, env=dict(os.environ, HOME=self.dir))
        os.set_blocking(self.p.stdin.fileno(), False)
        self.buf = b''
        self.batch(['"start"'])
    def _io(self, text, stop, timeout):
        """write text, read until stop appears; returns the output up to it"""
        data = text.encode(); end = time.time() + timeout
        fi, fo = self.p.stdin.fileno(), self.p.stdout.fileno(); stop = stop.encode()
        while True:
            i = self.buf.find(stop)
            if i >= 0:
                j = self.buf.find(b'it::string', i)
                if j >= 0:
                    out = self.buf[:i]; self.buf = self.buf[j + len('it::string'):]; return out.decode('utf8', 'replace')
            left = end - time.time()
            if left <= 0: self.partial = self.buf.decode('utf8', 'replace'); raise Died('no answer within %d s' % timeout)
            r, w, _ = select.select([fo], [fi] if data else [], [], left)
            if w:
                try: n = os.write(fi, data[:60000]); data = data[n:]
                except BlockingIOError: pass
                except BrokenPipeError: data = b''
            if r:
                b = os.read(fo, 1 << 16)
                if not b: self.p.wait(); self.partial = self.buf.decode('utf8', 'replace'); raise Died('fl died (status %s)' % self.p.returncode)
                self.buf += b
    def batch(self, exprs, timeout=60):
        """evaluates each phrase (text without the final ;); returns one raw output string per phrase"""
        k0 = self.k; t = ''
        for e in exprs: t += '%s;\n"@@%d";\n' % (e, self.k); self.k += 1
        out = []
        try: whole = self._io(t, '"@@%d"' % (self.k - 1), timeout)
        except Died as d:
            n = 0
            while '"@@%d"' % (k0 + n) in self.partial: n += 1
            d.at = n; raise
        pos = 0
        for n in range(len(exprs)):
            m = '"@@%d"' % (k0 + n); i = whole.find(m, pos) if n < len(exprs) - 1 else len(whole)
            seg = whole[pos:i]; pos = i + len(m)
            out.append(seg)
        return out
    def evals(self, exprs, timeout=60):
        return [parse(s) for s in self.batch(exprs, timeout)]
    def close(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass
        self.p.stdin.close(); self.p.stdout.close()
        shutil.rmtree(self.dir, ignore_errors=True)
def parse(s):
    s = s.replace('it::string', '', 1) if s.startswith('\nit::string') else s
    s = re.sub(r'^(\s|: )+', '', s); s = re.sub(r'(\s|: ?)+$', '', s) if not s.endswith('"') else s
    if '---' in s and 'Failure' in s: return ('!', s)
    m = re.search(r'\n?it::([^\n]*)$', s)
    if m: return (s[:m.start()].rstrip('\n'), m.group(1))
    return ('!', s)
class Case(Exception): pass
def main(gen):
    """gen(rng, fl) -> list of (phrase, check) with check(value_or_!, type_or_msg) -> None or complaint"""
    exe, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    rng = random.Random(seed); t0 = time.time(); n = 0; fl = Fl(exe); sample = None; fresh = getattr(gen, 'fresh', 0); rounds = 0
    try:
        while time.time() - t0 < secs:
            rounds += 1
            if fresh and rounds % fresh == 0: fl.close(); fl = Fl(exe)      # a young interpreter is a fast one
            cs = gen(rng, fl)
            try: rs = fl.evals([c[0] for c in cs])
            except Died as d:
                print('FAIL %s | %s' % (cs[min(d.at, len(cs) - 1)][0].replace('\n', ' ')[:3000], d)); return 1
            for (e, chk), (v, t) in zip(cs, rs):
                n += 1
                if chk is None: continue
                m = chk(v, t)
                if m: print('FAIL %s | %s' % (e.replace('\n', ' ')[:3000], m.replace('\n', ' ')[:1500])); return 1
            if sample is None or rng.random() < 0.01: sample = (cs[-1][0], rs[-1])
        if sample: print('SAMPLE', sample[0].replace('\n', ' ')[:300], '=>', str(sample[1])[:300].replace('\n', ' '))
        print('OK cases=%d' % n); return 0
    finally: fl.close()
def is_(x, ty=None):
    x = str(x)
    return lambda v, t: None if v == x and (ty is None or t == ty) else 'the result is %s::%s, expected %s' % (v, t, x)
def fails(pat=''):
    return lambda v, t: None if v == '!' and pat in t else 'the result is %s::%s, expected a failure %s' % (v, t, pat)
