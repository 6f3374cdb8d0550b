"""Runner: drives vdrv processes, compares results, reports and replays."""
import os, sys, json, time, subprocess, tempfile, threading, signal, hashlib, shutil, traceback
import multiprocessing as mp
from . import build as B

VERIF = B.VERIF
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=93:'
                            'allocator_may_return_null=1:max_allocation_size_mb=2000:handle_segv=1:print_legend=0:symbolize=1:detect_odr_violation=0',
            'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=93'}

class Res(tuple):
    """(kind, allocs, out, val).  kinds: V value, E error object, R raised object,
    F fatal error, H hang, S signal (allocs = number), X abnormal exit (allocs = status)."""
    __slots__ = ()
    kind = property(lambda s: s[0])
    allocs = property(lambda s: s[1])
    out = property(lambda s: s[2])
    val = property(lambda s: s[3])
    def show(self):
        k = {'V': 'value', 'E': 'error', 'R': 'raised', 'F': 'FATAL ERROR', 'H': 'HANG',
             'S': 'KILLED BY SIGNAL %s' % self[1], 'X': 'ABNORMAL EXIT %s' % self[1]}.get(self[0], self[0])
        s = k
        if self[0] in 'VER':
            s += ' ' + self[3].decode('utf-8', 'backslashreplace')
        elif self[3]:
            s += ' ' + self[3].decode('utf-8', 'backslashreplace')[:1800]
        if self[2]:
            s += ' | output ' + repr(self[2].decode('utf-8', 'backslashreplace'))
        return s

def case(src, flags='w', period=0, off=0):
    if isinstance(src, str):
        src = src.encode('utf-8', 'surrogateescape')
    return (src, flags, period, off)

_scratch = None
def scratch():
    """Per-process scratch directory (removed by the parent)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH')
        if not base:
            import atexit
            base = tempfile.mkdtemp(prefix='vscratch.')
            atexit.register(shutil.rmtree, base, True)
        d = os.path.join(base, 'p%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        _scratch = (os.getpid(), d)
    return _scratch[1]

class Driver:
    """One (restartable) vdrv process.  eval(cases) returns a list of Res."""
    def __init__(self, cfg='compact', flavor='rel', enc=None, files=(), heap=16384, heaps_max=64,
                 heaps_init=1, threshold=1000, limit=5000, args=()):
        self.spec = dict(cfg=cfg, flavor=flavor, enc=enc, files=list(files), heap=heap,
                         heaps_max=heaps_max, heaps_init=heaps_init, threshold=threshold, limit=limit)
        self.exe = B.build(cfg, flavor)
        a = [self.exe, '--lib', B.REPO + '/lib', '--heap', str(heap), '--heaps-max', str(heaps_max),
             '--heaps-init', str(heaps_init), '--threshold', str(threshold), '--limit', str(limit),
             '--file', VERIF + '/scm/prelude.scm']
        for f in files:
            a += ['--file', f if f.startswith('/') else VERIF + '/scm/' + f]
        if enc:
            a += ['--enc', enc]
        self.argv = a + ['serve']
        self.p = None
        self.history = []        # cases evaluated by the present process
        self.keep_history = True
        self.restarts = 0

    def start(self):
        self.cwd = scratch()
        self.errf = open(os.path.join(self.cwd, 'stderr.%d' % id(self)), 'wb+')
        env = dict(os.environ, LC_ALL='C', **ASAN_ENV)
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, cwd=self.cwd, env=env)
        self.history = []
        l = self.p.stdout.readline()
        if l != b'READY\n':
            rc = self._reap()
            raise StartFailure('driver did not start: %r rc=%s %s' % (l, rc, self.err_tail()))

    def err_tail(self, n=3000):
        try:
            self.errf.flush(); self.errf.seek(0, 2)
            size = self.errf.tell()
            self.errf.seek(max(0, size - 200000))
            t = self.errf.read()
            i = t.find(b'ERROR: AddressSanitizer')
            if i < 0: i = t.find(b'runtime error')
            if i < 0: i = t.find(b'ERROR: ')
            if i >= 0:
                return t[max(0, i - 200):i + n].decode(errors='replace')
            return t[-n:].decode(errors='replace')
        except Exception:
            return ''

    def _reap(self):
        p, self.p = self.p, None
        try: p.stdin.close()
        except Exception: pass
        p.stdout.close()
        try:
            rc = p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill(); rc = p.wait()
        return rc

    def close(self):
        if self.p:
            self._reap()

    def _feed(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError, ValueError, AttributeError):
            pass

    def _read1(self):
        f = self.p.stdout
        l = f.readline()
        if not l:
            return None
        k, n, on, vn = l.split()
        on = int(on); vn = int(vn)
        body = f.read(on + vn + 1)
        return Res((k.decode(), int(n), body[:on], body[on:on + vn]))

    CHUNK = 1000
    def eval(self, cases):
        out = []
        i = 0
        while i < len(cases):
            if self.p is None:
                self.start()
            chunk = cases[i:i + self.CHUNK]
            data = b''.join(b'E %s %d %d %d\n%s\n' % (c[1].encode(), c[2], c[3], len(c[0]), c[0]) for c in chunk)
            t = threading.Thread(target=self._feed, args=(data,), daemon=True)
            t.start()
            got = 0
            dead = False
            for c in chunk:
                r = self._read1()
                if r is None:
                    dead = True
                    rc = self._reap()
                    r = self._death(rc)
                elif r[0] in 'FH' and 'f' not in c[1]:
                    dead = True
                    self._reap()
                    r = Res((r[0], 0, r[2], self.err_tail(1500).encode() if r[0] == 'F' else b''))
                out.append(r)
                got += 1
                self.history.append(c) if self.keep_history else None
                if dead:
                    break
            t.join()
            i += got
            if dead:
                self.restarts += 1
        return out

    def _death(self, rc):
        tail = self.err_tail().encode()
        if rc is not None and rc < 0:
            return Res(('S', -rc, b'', tail))
        return Res(('X', rc if rc is not None else -1, b'', tail))

class StartFailure(Exception):
    pass

_drivers = {}
def driver(**spec):
    """Cached per-process driver."""
    key = (os.getpid(), json.dumps(spec, sort_keys=True))
    d = _drivers.get(key)
    if d is None:
        d = _drivers[key] = Driver(**spec)
    return d

def close_drivers():
    for k, d in list(_drivers.items()):
        if k[0] == os.getpid():
            d.close()
            del _drivers[k]

def run_fresh(spec, cases):
    d = Driver(**spec)
    try:
        return d.eval(cases)
    finally:
        d.close()

# ------------------------------------------------------------------ results
class Stats:
    """Accumulates coverage counts and candidate violations of a work item."""
    def __init__(self):
        self.n = {}
        self.viol = []
        self.samples = []
        self.unrepro = []
    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v
    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)
    def merge(self, o):
        for k, v in o.n.items():
            if k.startswith('max_'):
                self.n[k] = max(self.n.get(k, 0), v)
            else:
                self.add(k, v)
        self.viol += o.viol
        self.unrepro += o.unrepro
        for s in o.samples:
            self.sample(s, 12)
    def violation(self, key, what, replay):
        self.viol.append(dict(key=key, what=what, replay=replay))

def txt(b):
    return b.decode('utf-8', 'backslashreplace') if isinstance(b, bytes) else b

def _enc_case(c):
    return dict(src=c[0].decode('latin-1'), flags=c[1], period=c[2], off=c[3])

def confirm(st, spec, drv, idx_in_history, c, bad, what, key=None, expected=None):
    """Re-runs case c alone in a fresh process; bad(Res) tells a violation.
    Falls back to the history of the process it was seen in."""
    r1 = run_fresh(spec, [c])[0]
    rep = dict(spec=spec, expected=expected)
    if bad(r1):
        r2 = run_fresh(spec, [c])[0]
        if bad(r2):
            rep.update(cases=[_enc_case(c)], got=r2.show())
            st.violation(key or ckey(spec, c), what + ' | got: ' + r2.show()[:600], rep)
            return True
    if drv is not None and idx_in_history:
        hist = idx_in_history
        ok, small = _shrink_history(spec, hist, c, bad)
        if ok:
            r2 = run_fresh(spec, small + [c])[-1]
            rep.update(cases=[_enc_case(x) for x in small + [c]], got=r2.show())
            st.violation(key or ckey(spec, c), what + ' (after %d earlier evaluations)' % len(small) +
                         ' | got: ' + r2.show()[:600], rep)
            return True
    st.unrepro.append(what)
    return False

def _shrink_history(spec, hist, c, bad):
    def last(h):
        rs = run_fresh(spec, h + [c])
        return bad(rs[-1])
    if not last(hist):
        return False, hist
    # keep the shortest suffix / drop halves
    n = 2
    t0 = time.time()
    while len(hist) >= 2 and time.time() - t0 < 60:
        step = max(1, len(hist) // n)
        for i in range(0, len(hist), step):
            h = hist[:i] + hist[i + step:]
            if last(h):
                hist = h
                n = max(n - 1, 2)
                break
        else:
            if step == 1:
                break
            n = min(n * 2, len(hist))
    return True, hist

def ckey(spec, c):
    return hashlib.sha1(c[0]).hexdigest()[:12]

def compare(st, spec, cases, judge, describe=None, maxv=3, keyf=None):
    """Evaluates cases on a driver of this spec; judge(i, Res) returns None if
    fine or a short explanation of what is wrong."""
    d = driver(**spec)
    hist_before = None
    rs = []
    CH = 4000
    for o in range(0, len(cases), CH):
        part = cases[o:o + CH]
        # at most ~8000 cases of history per process, so that a history-dependent
        # violation can be replayed
        if len(d.history) > 8000:
            d.close()
        base_hist = list(d.history)
        prs = d.eval(part)
        for j, r in enumerate(prs):
            i = o + j
            w = judge(i, r)
            if w is not None:
                if len(st.viol) >= maxv:
                    st.add('further_mismatches')
                    continue
                c = cases[i]
                hist = (base_hist + part[:j])[-8000:]
                confirm(st, spec, d, hist, c, lambda rr, i=i: judge(i, rr) is not None,
                        '%s: %s' % (txt(c[0])[:400], w), key=keyf(i) if keyf else None, expected=w)
        rs += prs
    st.add('traces_validated_against_impl', len(cases))
    return rs

CRASH = 'SXHF?'
def crashed(r):
    return r[0] in CRASH

# ------------------------------------------------------------ known findings
def load_known(prop):
    known = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                assert rest.startswith('key=')
                key, _, what = rest[4:].partition(' ')
                known[key] = what
    return known

# -------------------------------------------------------------------- main
def _worker(args):
    mod, item, tier = args
    st = Stats()
    t0 = time.time()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        m = __import__('checks.' + mod, fromlist=['x'])
        m.run_item(item, st, tier)
    except StartFailure as e:
        st.violation('start-failure', 'the interpreter does not start: %s' % e, dict(item=repr(item)))
    except Exception:
        st.n['internal_error'] = 1
        st.unrepro.append('INTERNAL ' + traceback.format_exc()[-3000:])
    finally:
        close_drivers()
    if os.environ.get('VERIF_TIMES'):
        with open(os.environ['VERIF_TIMES'], 'a') as f: f.write('%.1f %r\n' % (time.time() - t0, item))
    return st

def main(mod, tier, seed=1):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    m = __import__('checks.' + mod, fromlist=['x'])
    base = tempfile.mkdtemp(prefix='verif-%s.' % m.ID)
    os.environ['VERIF_SCRATCH'] = base
    total = Stats()
    try:
        B.build_many(m.BUILDS)
        items = m.items(tier)
        if os.environ.get('VERIF_ITEMS'):
            import fnmatch
            items = [i for i in items if fnmatch.fnmatch(repr(i), os.environ['VERIF_ITEMS'])]
        budget = getattr(m, 'BUDGET', {}).get(tier, 780 if tier == 'quick' else 6 * 3600)
        done = 0
        ctx = mp.get_context('fork')
        pool = ctx.Pool(NPROC, maxtasksperchild=getattr(m, 'TASKS_PER_CHILD', 1))
        it = pool.imap_unordered(_worker, [(mod, x, tier) for x in items], chunksize=1)
        truncated = False
        while True:
            try:
                st = it.next(timeout=max(1, budget - (time.time() - t0)))
            except StopIteration:
                break
            except mp.TimeoutError:
                truncated = True
                break
            done += 1
            total.merge(st)
            if len(total.viol) >= (1 if os.environ.get('VERIF_STOP') else 12):
                break
        pool.terminate()
        pool.join()
        if hasattr(m, 'finish'):
            m.finish(total, tier)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    known = load_known(m.ID)
    new, seen = [], set()
    for v in total.viol:
        if v['key'] in known:
            if v['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (m.ID, known[v['key']]))
                seen.add(v['key'])
        else:
            new.append(v)
    cov = dict(total.n)
    cov.pop('internal_error', None)
    cov['samples'] = total.samples or ['(none)']
    cov['work_items'] = len(items)
    cov['work_items_done'] = done
    if hasattr(m, 'BOUNDS'):
        cov['bounds'] = m.BOUNDS.get(tier, '')
    if total.unrepro:
        cov['not_reproduced'] = [u[:500] for u in total.unrepro[:10]]
    cov.setdefault('traces_validated_against_impl', 0)
    cov.setdefault('states', cov['traces_validated_against_impl'])
    cov.setdefault('transitions', cov['states'])
    if m.LEVEL in ('exploration', 'fault_enumeration'):
        cov.setdefault('evaluations', cov['traces_validated_against_impl'])
        cov.setdefault('distinct_nontrivial', cov['evaluations'])
        cov.setdefault('rule', getattr(m, 'RULE', 'every case is distinct by construction'))
    ev = dict(property=m.ID, tier=tier, seed=seed, level=m.LEVEL, coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    evdir = os.environ.get('VERIF_EVDIR', VERIF + '/evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(evdir + '/%s.json' % m.ID, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s %s: %d work items, %s, %.1fs' % (m.ID, tier, done, ', '.join(
        '%s=%s' % (k, v) for k, v in sorted(total.n.items())), time.time() - t0))
    internal = [u for u in total.unrepro if u.startswith('INTERNAL')]
    if total.unrepro:
        print('not reproduced / internal: %d' % len(total.unrepro))
        for u in total.unrepro[:5]:
            print('  ' + u[:3000])
    if new:
        rd = os.environ.get('VERIF_EVDIR', VERIF + '/replay')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = '%s/%s-%d.json' % (rd, m.ID, i)
            with open(path, 'w') as f:
                json.dump(dict(property=m.ID, **v), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (m.ID, path))
            print('  key=%s %s' % (v['key'], v['what'][:700]))
        return 1
    if internal or truncated or done < len(items):
        print('check did not complete: internal=%d truncated=%s' % (len(internal), truncated))
        return 2
    if getattr(m, 'NONVACUOUS', None):
        for k, minimum in m.NONVACUOUS.items():
            if total.n.get(k, 0) < minimum:
                print('check is vacuous: %s=%s < %s' % (k, total.n.get(k, 0), minimum))
                return 2
    return 0
