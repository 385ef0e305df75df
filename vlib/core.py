"""Common machinery: sub-checks, forked execution, Hypothesis driving, replay files."""
import ast, hashlib, json, os, pickle, resource, select, signal, sys, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')   # the registered commands always use /repo
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

import hypothesis                                   # noqa: E402
from hypothesis import strategies as st             # noqa: E402
from hypothesis import settings, HealthCheck, Phase  # noqa: E402


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case lies outside the property's domain (counted)."""


def require(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


# ---------------------------------------------------------------- generators

class D:
    """Imperative generation on top of Hypothesis' draw: everything shrinks and replays."""

    _ints = {}
    _choice = {}

    def __init__(self, draw):
        self._draw = draw
        self.n = 0

    def draw(self, strategy):
        return self._draw(strategy)

    def int(self, a, b):
        key = (a, b)
        s = self._ints.get(key)
        if s is None:
            s = self._ints[key] = st.integers(a, b)
        return self._draw(s)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False."""
        return self.int(0, den - 1) >= den - num

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; put the simplest first."""
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def text(self, alphabet, a, b):
        n = self.int(a, b)
        return ''.join(self.choice(alphabet) for _ in range(n))

    def list(self, fn, a, b):
        return [fn() for _ in range(self.int(a, b))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.int(0, i)
            k = i - j
            seq[i], seq[k] = seq[k], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


def strategy(fn):
    """fn(D) -> case  becomes a Hypothesis strategy."""
    @st.composite
    def s(draw):
        return fn(D(draw))
    return s()


# ---------------------------------------------------------------- sub-checks

class Sub:
    """One executable statement of a property.

    gen      fn(D) -> case (plain Python literals)            [random]
    cases    fn(tier) -> iterable of cases                    [enumerated]
    check    fn(case) -> info dict; raises Violation
             info: nontrivial(bool), labels(list), key(optional)
    fork     run every case in a forked child
    """

    def __init__(self, name, check, gen=None, cases=None, quick=200, thorough=2000,
                 fork=True, rule='', cpu=20, mem=2 << 30, batch=1, setup=None):
        self.name, self.check, self.gen, self.cases = name, check, gen, cases
        self.quick, self.thorough = quick, thorough
        self.fork, self.rule, self.cpu, self.mem = fork, rule, cpu, mem
        self.setup = setup
        self.batch = batch

    def run_case(self, case):
        if self.fork:
            return run_forked(self.check, case, self.cpu, self.mem)
        return run_inline(self.check, case, self.cpu)


def _outcome(check, case):
    try:
        info = check(case) or {}
        return ('ok', info)
    except Violation as e:
        return ('violation', str(e))
    except Skip as e:
        return ('skip', str(e))
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        return ('violation', 'MemoryError while processing the case')
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        # who raised?  an exception that went through the code under test is the code's answer
        sut = [f for f in tb if f.filename.startswith(REPO + '/')]
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
        if sut:
            return ('violation', 'exception escaped from plasTeX: %s: %s\n%s' % (type(e).__name__, e, text))
        return ('harness', text)


class CpuTimeout(BaseException):
    pass


def run_inline(check, case, cpu):
    def onalarm(*a):
        raise CpuTimeout()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        return _outcome_t(check, case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _outcome_t(check, case):
    r = _outcome(check, case)
    if r[0] in ('harness', 'violation') and 'CpuTimeout' in r[1]:
        return ('violation', 'no result within the CPU limit (does not terminate)')
    return r


def run_forked(check, case, cpu, mem):
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = _outcome(check, case)
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
            try:
                os.write(2, traceback.format_exc().encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + cpu * 12 + 30
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ('inconclusive', 'wall clock limit')
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU, signal.SIGKILL) and not chunks:
            if sig == signal.SIGKILL:
                return ('inconclusive', 'killed')
            return ('violation', 'no result within %d CPU seconds (does not terminate)' % cpu)
        if not chunks:
            return ('violation', 'interpreter died with signal %d' % sig)
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return ('harness', 'no outcome from child (status %r)' % (status,))


# ---------------------------------------------------------------- case files

def case_hash(sub, case):
    return hashlib.sha1((sub + '\0' + repr(case)).encode('utf-8', 'surrogatepass')).hexdigest()


def dump_case(prop, sub, case, msg, path):
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'sub': sub, 'case': ascii(case), 'message': msg,
                   'pretty': case if _jsonable(case) else None}, f, indent=1, ensure_ascii=True)
    os.rename(tmp, path)


def _jsonable(x):
    try:
        json.dumps(x)
        return True
    except Exception:
        return False


def load_case(path):
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    return d['property'], d['sub'], ast.literal_eval(d['case']), d.get('message', '')


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']
