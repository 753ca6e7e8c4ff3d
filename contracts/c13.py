"""C13: every submitted job is delivered exactly once with its own outcome.

Ghost state: the set of outstanding job identities, the input queue, the jobs being executed
and the output queue (multisets of identities).
Contracts
  AsyncFuture.__init__ / execute   fn(*args, **{kwargs, shared}) is called once; its result or its
                                   exception is recorded, nothing escapes
  submit      adds the new job to the outstanding ones and to the input queue
  evaluator_daemon   every job taken from the input queue is executed once and put on the output
                     queue once, with its identity and outcome; other results never end the loop
  wait_next   removes one job of the output queue from the outstanding ones and returns the very
              object made by submit, with that job's outcome; error when none is outstanding
  __enter__/__exit__   workers are started once; afterwards none is left
  lemma       these steps preserve: outstanding = input + executing + output, each exactly once
"""
import z3
from pyvc.driver import *
from pyvc.std import Uid
from pyvc.interp import QueueEmpty, NoSuchProcess, StructError

PROOFS = Registry()
AE = "gama.utilities.generic.async_evaluator"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Thing(Model):
    """Any object; its truth value may be anything and may even raise."""
    type_name = "value"

    def __init__(self, what, error=None, has_error=True):
        self.what, self.error, self.has = what, error, has_error

    def py_bool(self, ctx):
        k = ctx.choose(3)
        if k == 2:
            ctx.raise_(ValueError, "truth value is ambiguous")
        return k == 0

    def py_hasattr(self, ctx, name):
        return name == "error" and self.has

    def py_getattr(self, ctx, name):
        if name == "error" and self.has:
            return self.error
        if name == "error":
            ctx.raise_(AttributeError, name)
        return super().py_getattr(ctx, name)

    def py_setattr(self, ctx, name, value):
        if name != "error" or not (isinstance(self.error, ExcVal) and issubclass(self.error.cls, MemoryError)):
            ctx.fail("results are not changed", f"{name} of {self.what}")
        self.error = value

    def py_isinstance(self, ctx, t):
        return False

    def py_is_none(self, ctx):
        return False


def results(ctx):
    """An arbitrary value a job may return."""
    k = ctx.choose(8)
    if k == 0:
        return None
    if k == 7:
        return (Thing("only", ExcVal(MemoryError)),)
    if k == 1:
        return ()
    if k == 2:
        return (None, Thing("second"))
    if k == 3:
        return (Thing("first", ExcVal(MemoryError)), Thing("second"))
    if k == 4:
        return Thing("evaluation", ExcVal(MemoryError))
    if k == 5:
        return Thing("evaluation", None)
    return Thing("value", has_error=False)


EXCS = (ValueError, MemoryError, KeyError, StructError, QueueEmpty, StopIteration)


class Job(Model):
    """The function of a job."""
    type_name = "job function"

    def __init__(self, ctx, args, kwargs):
        self.args, self.kwargs, self.calls = args, kwargs, 0
        self.raises = None
        k = ctx.choose(2)
        if k:
            self.raises = ExcVal(EXCS[ctx.choose(len(EXCS))], ("job",))
            self.value = None
        else:
            self.value = results(ctx)

    def py_call(self, ctx, *a, **k):
        self.calls += 1
        ctx.prove("a job is called with its own arguments and the shared ones", len(a) == len(self.args) and all(x is y for x, y in zip(a, self.args))
                  and set(k) == set(self.kwargs) and all(k[n] is self.kwargs[n] for n in k))
        if self.raises is not None:
            raise PyRaise(self.raises)
        return self.value


def shared_job(ctx):
    a, b, s = Opaque("arg"), Opaque("kwarg"), Opaque("shared")
    shared = DictObj([("shared", s)]) if ctx.choose(2) else DictObj([])
    kw = {"own": b}
    if shared.pairs:
        kw["shared"] = s
    return Job(ctx, [a], kw), a, b, shared


@PROOFS("AsyncFuture.execute records the job's own outcome", covers=("result", "exception"))
def execute(ctx):
    it = ctx.interp
    job, a, b, shared = shared_job(ctx)
    f = it.call(it.get(f"{AE}.AsyncFuture"), [job, a], {"own": b})
    i = f.attrs["id"]
    try:
        it.call(it.getattr(f, "execute"), [shared], {})
    except PyRaise as e:
        return ctx.fail("an exception of the job does not escape", repr(e.exc))
    ctx.prove("called once", job.calls == 1)
    ctx.prove("identity stays", f.attrs["id"] is i)
    kwp = it.getattr(f, "kwargs")
    ctx.prove("own arguments stay", isinstance(kwp, DictObj) and len(kwp.pairs) == 1)
    if job.raises is not None:
        ctx.prove("its exception is recorded", f.attrs["exception"] is job.raises)
        ctx.prove("no result", f.attrs["result"] is None)
        ctx.cover("exception")
    else:
        ctx.prove("its result is recorded", f.attrs["result"] is job.value)
        ctx.prove("no exception", f.attrs["exception"] is None)
        ctx.cover("result")


# ------------------------------------------------------------------ worker loop
class Queue(Model):
    type_name = "queue"

    def __init__(self, name, get=None, put=None, empty=None):
        self.name, self.on_get, self.on_put, self.on_empty = name, get, put, empty
        self.puts = []
        self.closed = False

    def m_get(self, ctx, block=True, timeout=None):
        return self.on_get(ctx, block, timeout)

    def m_get_nowait(self, ctx):
        return self.m_get(ctx, False)

    def m_put_nowait(self, ctx, v):
        return self.m_put(ctx, v, False)

    def m_put(self, ctx, v, block=True, timeout=None):
        self.puts.append(v)
        ctx.log_mut(self, "items")
        if self.on_put:
            self.on_put(ctx, v)

    def m_empty(self, ctx):
        return ctx.fresh_bool("empty")

    def m_close(self, ctx):
        self.closed = True

    def m_join_thread(self, ctx):
        return None


@PROOFS("evaluator_daemon: every job taken is executed once and delivered once", covers=("worker loop: an iteration is possible", "too large", "end"))
def daemon(ctx):
    it = ctx.interp
    st = {"cur": None}
    cls = it.get(f"{AE}.AsyncFuture")
    ctx.externals["gc.collect"] = lambda c: None

    def take(c, block, timeout):
        if block and timeout is None:
            c.fail("a worker never waits without looking for commands")
        if c.choose(2):
            raise PyRaise(ExcVal(QueueEmpty))
        c.prove("the previous job was delivered before the next is taken", st["cur"] is None or st["delivered"] == 1)
        job, a, b, shared = st["new"](c)
        # what arrives is a copy of the submitted future
        f = Inst(cls, {"id": Uid(c), "fn": job, "args": (a,), "kwargs": DictObj([("own", b)]), "result": None, "exception": None, "traceback": None}, label="future")
        st.update(cur=f, job=job, delivered=0, id=f.attrs["id"], failed=False)
        return f

    def new(c):
        a, b, s = Opaque("arg"), Opaque("kwarg"), Opaque("shared")
        kw = {"own": b}
        if st["shared"].pairs:
            kw["shared"] = st["shared"].pairs[0][1]
        return Job(c, [a], kw), a, b, st["shared"]
    st["new"] = new
    st["shared"] = DictObj([("shared", Opaque("shared"))]) if ctx.choose(2) else DictObj([])

    def put(c, v):
        c.prove("what is delivered is the job that was taken", v is st["cur"] and st["cur"] is not None)
        if not st["failed"] and c.choose(2):      # too large to be transferred
            st["failed"] = True
            raise PyRaise(ExcVal((MemoryError, StructError)[c.choose(2)], ("put",)))
        st["delivered"] += 1
        job = st["job"]
        c.prove("delivered after it was executed once", job.calls == 1)
        c.prove("with its identity", v.attrs["id"] is st["id"])
        if st["failed"]:
            c.prove("an outcome that can not be transferred is delivered as a failure", v.attrs["result"] is None and v.attrs["exception"] is not None)
            c.cover("too large")
        elif job.raises is not None:
            c.prove("with its own exception", v.attrs["exception"] is job.raises and v.attrs["result"] is None)
        else:
            c.prove("with its own result", v.attrs["result"] is job.value and v.attrs["exception"] is None)

    def command(c, block, timeout):
        if c.choose(2):
            raise PyRaise(ExcVal(QueueEmpty))
        st["told"] = True
        return "stop"
    qi, qo, qc = Queue("input", take), Queue("output", None, put), Queue("command", command)

    def havoc(c, env, _):
        st["cur"], st["delivered"], st["told"] = None, 0, False

    def inv(c, env, _):
        if st["cur"] is None:
            return []
        return [("a job taken is delivered exactly once", z3.BoolVal(st["delivered"] == 1))]
    ctx.loop_specs.append(LoopSpec(f"{AE}.evaluator_daemon", lambda *a: True, havoc, inv, label="worker loop", while_=True))
    try:
        it.call(it.get(f"{AE}.evaluator_daemon"), [qi, qo, qc, st["shared"]], {})
    except PyRaise as e:
        return ctx.fail("the worker does not crash", repr(e.exc))
    ctx.prove("a worker ends only after its last job was delivered", st["cur"] is None or st["delivered"] == 1)
    ctx.prove("a worker ends only when told to", st.get("told") is True)
    ctx.cover("end")


# ------------------------------------------------------------------ main process
class Futures(Model):
    """Mapping from job identity to the submitted future."""
    type_name = "futures"

    def __init__(self, ctx, ids, n):
        self.ids, self.n, self.known = ids, n, []
        self.added, self.popped = [], []

    def py_len(self, ctx):
        return simp(self.n + len(self.added) - len(self.popped))

    def py_bool(self, ctx):
        return simp(to_z3(self.py_len(ctx)) > 0)

    def py_setitem(self, ctx, k, v):
        self.added.append((k, v))
        ctx.log_mut(self, "items")

    def m_pop(self, ctx, k, *d):
        return self._find(ctx, k, True, *d)

    def py_getitem(self, ctx, k):
        return self._find(ctx, k, False)

    def py_delitem(self, ctx, k):
        self._find(ctx, k, True)

    def py_contains(self, ctx, k):
        return any(k is o for o, _ in self.known)

    def _find(self, ctx, k, pop, *d):
        for o, f in self.known:
            if o is k and (k not in self.popped):
                if pop:
                    self.popped.append(k)
                    ctx.log_mut(self, "items")
                return f
        ctx.fail("a delivered job is looked up by its identity")
        raise PathAbort()


def evaluator(ctx, n, workers):
    it = ctx.interp
    cls = it.get(f"{AE}.AsyncEvaluator")
    fu = Futures(ctx, None, n)
    e = Inst(cls, {"futures": fu, "job_queue_size": simp(n - workers), "_memory_limit_mb": None, "_logfile": None, "_n_jobs": workers,
                   "_mem_behaved": z3.Int("behaved"), "_mem_violations": z3.Int("violations"), "_has_entered": True}, label="evaluator")
    return e, fu


@PROOFS("submit: the job becomes outstanding and waits in the input queue", covers=("post",))
def submit(ctx):
    it = ctx.interp
    n, w = z3.Ints("outstanding workers")
    ctx.assume(z3.And(n >= 0, w >= 1))
    e, fu = evaluator(ctx, n, w)
    q = Queue("input")
    e.attrs["_input"] = q
    fn, a, b = Opaque("fn"), Opaque("a"), Opaque("b")
    f = it.call(it.getattr(e, "submit"), [fn, a], {"k": b})
    ctx.prove("one job is put in the input queue", len(q.puts) == 1)
    ctx.prove("it is the returned one", q.puts[0] is f)
    ctx.prove("outstanding under its identity", len(fu.added) == 1 and fu.added[0][0] is f.attrs["id"] and fu.added[0][1] is f)
    kw = f.attrs["kwargs"]
    args = f.attrs["args"]
    items = it.content(args).items()
    ctx.prove("with its own function and arguments", f.attrs["fn"] is fn and len(items) == 1 and items[0] is a
              and len(kw.pairs) == 1 and kw.pairs[0][0] == "k" and kw.pairs[0][1] is b)
    ctx.prove("no outcome yet", f.attrs["result"] is None and f.attrs["exception"] is None)
    ctx.prove("one more waiting job", to_z3(e.attrs["job_queue_size"]) == n + 1 - w)
    ctx.prove("a new identity", isinstance(f.attrs["id"], Uid))
    ctx.cover("post")


@PROOFS("wait_next: one completed job, with its own outcome, as submitted", covers=("post", "refused", "polling: an iteration is possible"))
def wait(ctx):
    it = ctx.interp
    n, w = z3.Ints("outstanding workers")
    ctx.assume(z3.And(n >= 0, w >= 1))
    e, fu = evaluator(ctx, n, w)
    cls = it.get(f"{AE}.AsyncFuture")
    ctx.externals["time.sleep"] = lambda c, t: None
    mine = Inst(cls, {"id": Uid(ctx), "fn": Opaque("fn"), "args": (), "kwargs": DictObj([]), "result": None, "exception": None, "traceback": None}, label="submitted future")
    fu.known.append((mine.attrs["id"], mine))
    res, exc, tb = Opaque("result"), Opaque("exception"), Opaque("traceback")
    got = []

    def get(c, block=True, timeout=None):
        if c.choose(2):
            raise PyRaise(ExcVal(QueueEmpty))
        got.append(1)
        # identities in the output queue are outstanding (lemma below): one of them, arbitrary
        c.assume(n >= 1)
        return Inst(cls, {"id": mine.attrs["id"], "fn": Opaque("fn2"), "args": (), "kwargs": DictObj([]), "result": res, "exception": exc, "traceback": tb}, label="completed future")
    e.attrs["_output"] = Queue("output", get)

    def havoc(c, env, _):
        pass

    def inv(c, env, _):
        return [("nothing was taken while polling", z3.BoolVal(not got)), ("all jobs are outstanding", to_z3(fu.py_len(c)) == n),
                ("number of waiting jobs", to_z3(e.attrs["job_queue_size"]) == n - w)]
    ctx.loop_specs.append(LoopSpec(f"{AE}.AsyncEvaluator.wait_next", lambda *a: True, havoc, inv, label="polling", while_=True))
    try:
        f = it.call(it.getattr(e, "wait_next"), [], {})
    except PyRaise as x:
        ctx.prove("only refused when nothing is outstanding", z3.And(n == 0, z3.BoolVal(issubclass(x.exc.cls, RuntimeError))))
        ctx.cover("refused")
        return
    ctx.prove("refused when nothing is outstanding", n >= 1)
    ctx.prove("one completed job is taken", len(got) == 1)
    ctx.prove("the submitted object is returned", f is mine)
    ctx.prove("with its own outcome", f.attrs["result"] is res and f.attrs["exception"] is exc)
    ctx.prove("no longer outstanding, the others are", len(fu.popped) == 1 and fu.popped[0] is mine.attrs["id"] and not fu.added)
    ctx.prove("one waiting job less", to_z3(e.attrs["job_queue_size"]) == n - 1 - w)
    ctx.cover("post")


@PROOFS("lemma: outstanding = input + executing + output, each exactly once", covers=("submit", "take", "put", "deliver"))
def lemma(ctx):
    """Steps as given by the contracts above; counts per job identity."""
    fut, inp, exe, out = (z3.Function(x, I, I) for x in ("outstanding", "input", "executing", "output"))
    j = z3.Int("j")
    inv = lambda a, b, c, d: z3.ForAll([j], z3.And(a(j) == b(j) + c(j) + d(j), b(j) >= 0, c(j) >= 0, d(j) >= 0, a(j) <= 1))
    ctx.assume(inv(fut, inp, exe, out))
    x = ctx.fresh_int("job")
    plus = lambda f: (lambda q: f(q) + z3.If(q == x, 1, 0))
    minus = lambda f: (lambda q: f(q) - z3.If(q == x, 1, 0))
    k = ctx.choose(4)
    if k == 0:    # submit: a new identity
        ctx.assume(fut(x) == 0)
        ctx.prove("preserved by submit", inv(plus(fut), plus(inp), exe, out))
        ctx.cover("submit")
    elif k == 1:
        ctx.assume(inp(x) >= 1)
        ctx.prove("preserved when a worker takes a job", inv(fut, minus(inp), plus(exe), out))
        ctx.cover("take")
    elif k == 2:
        ctx.assume(exe(x) >= 1)
        ctx.prove("preserved when a worker delivers it", inv(fut, inp, minus(exe), plus(out)))
        ctx.cover("put")
    else:
        ctx.assume(out(x) >= 1)
        ctx.prove("a completed job is outstanding", fut(x) == 1)
        ctx.prove("preserved by wait_next", inv(minus(fut), inp, exe, minus(out)))
        ctx.prove("it is delivered only once", z3.And(inp(x) == 0, exe(x) == 0, out(x) == 1))
        ctx.cover("deliver")


# ------------------------------------------------------------------ opening and closing
class Procs:
    """Ghost: processes started and not yet terminated and waited for."""


@PROOFS("opening starts the workers once", covers=("post", "twice"))
def enter(ctx):
    it = ctx.interp
    w = z3.Int("workers")
    ctx.assume(w >= 1)
    cls = it.get(f"{AE}.AsyncEvaluator")
    ctx.externals["multiprocessing.Queue"] = lambda c: Queue("new")
    ctx.externals["os.getpid"] = lambda c: Opaque("pid")
    ctx.externals["psutil.Process"] = lambda c, pid=None: Opaque("process")
    e = it.call(cls, [], {"n_workers": w})
    ctx.prove("no job is waiting in a new evaluator", to_z3(e.attrs["job_queue_size"]) == -w)
    ctx.prove("nothing outstanding", len(e.attrs["futures"].pairs) == 0)
    started = []
    cnt = [z3.IntVal(0)]

    def start(c, bound):
        cnt[0] = simp(cnt[0] + 1)
        c.log_mut(e, "_processes")
        return Opaque("process")
    ctx.contracts[f"{AE}.AsyncEvaluator._start_worker_process"] = start
    st = {}

    def havoc(c, env, k):
        cnt[0] = to_z3(k)

    def inv(c, env, k):
        return [("workers started so far", to_z3(cnt[0]) == to_z3(k))]
    ctx.loop_specs.append(LoopSpec(f"{AE}.AsyncEvaluator.__enter__", lambda *a: True, havoc, inv, label="workers"))
    r = it.call(it.getattr(e, "__enter__"), [], {})
    ctx.prove("the evaluator itself is returned", r is e)
    ctx.prove("as many workers as configured", to_z3(cnt[0]) == w)
    ctx.cover("post")
    try:
        it.call(it.getattr(e, "__enter__"), [], {})
    except PyRaise as x:
        ctx.prove("can not be opened twice", issubclass(x.exc.cls, RuntimeError))
        ctx.cover("twice")
        return
    ctx.fail("can not be opened twice")


@PROOFS("a started worker runs the worker loop on the evaluator's queues", covers=("post",))
def start_worker(ctx):
    it = ctx.interp
    cls = it.get(f"{AE}.AsyncEvaluator")
    qi, qo, qc = Queue("input"), Queue("output"), Queue("command")
    procs = []

    class Mp(Model):
        type_name = "Process"

        def __init__(self, kw):
            self.kw, self.started = kw, 0

        def m_start(self, c):
            self.started += 1

        def py_getattr(self, c, name):
            if name == "pid":
                return Opaque("pid")
            return super().py_getattr(c, name)

    def mk(c, *a, **kw):
        p = Mp(kw)
        procs.append(p)
        return p
    ctx.externals["multiprocessing.Process"] = mk
    ps = Opaque("psutil process")
    ctx.externals["psutil.Process"] = lambda c, pid=None: ps
    n = z3.Int("n_processes")
    ctx.assume(n >= 0)
    lst = ListObj(FnC(n, lambda c, i: Opaque("p")))
    e = Inst(cls, {"_input": qi, "_output": qo, "_command": qc, "_processes": lst}, label="evaluator")
    it.call(it.getattr(e, "_start_worker_process"), [], {})
    ctx.prove("one process is started", len(procs) == 1 and procs[0].started == 1)
    kw = procs[0].kw
    ctx.prove("it runs the worker loop", isinstance(kw.get("target"), FuncVal) and kw["target"].qualname == f"{AE}.evaluator_daemon")
    args = it.content(kw.get("args")).items()
    ctx.prove("on the input, output and command queues", args[0] is qi and args[1] is qo and args[2] is qc)
    ctx.prove("it cannot outlive the main process", kw.get("daemon") is True)
    c = it.content(e.attrs["_processes"])
    ctx.prove("it is registered for closing", to_z3(c.length(ctx)) == n + 1)
    ctx.prove("it is registered for closing (itself)", c.at(ctx, n) is ps)
    ctx.cover("post")


@PROOFS("after closing no worker is left", covers=("end", "stopping: an iteration is possible"))
def leave(ctx):
    it = ctx.interp
    cls = it.get(f"{AE}.AsyncEvaluator")
    ctx.externals["time.sleep"] = lambda c, t: None
    S = Schema("Process")
    m, w = z3.Ints("n_processes workers")
    ctx.assume(z3.And(m >= 0, w >= 1))
    alive0 = z3.Function("alive", S.sort, B)
    st = {"alive": alive0}
    P = z3.Function("proc", I, S.sort)
    a, b = z3.Ints("a b")
    ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), P(a) != P(b))))

    class Proc(Model):
        type_name = "process"

        def __init__(self, expr):
            self.expr = expr
            self.signalled = False

        def m_terminate(self, c):
            st["signalled"] = self.expr
            if c.choose(2):
                die(c, self.expr)
                raise PyRaise(ExcVal(NoSuchProcess))

        def m_kill(self, c):
            self.m_terminate(c)

        def m_wait(self, c, timeout=None):
            c.prove("a worker is told to end before it is waited for", st.get("signalled") is self.expr)
            die(c, self.expr)
            if c.choose(2):
                raise PyRaise(ExcVal(NoSuchProcess))

        def py_eq(self, c, o):
            return self.expr == o.expr if isinstance(o, Proc) else False

    memo = {}

    def wrap(expr):
        return memo.setdefault(expr.get_id(), Proc(expr))

    def die(c, expr):
        old = st["alive"]
        st["alive"] = lambda q: z3.And(old(q), q != expr)
        c.log_mut(cls, "alive")
    # processes alive are exactly those registered
    x = z3.Const("x!p", S.sort)
    ctx.assume(z3.ForAll([x], z3.Implies(alive0(x), z3.Exists([a], z3.And(0 <= a, a < m, P(a) == x)))))
    lst = ListObj(FnC(m, lambda c, i: wrap(P(to_z3(i)))))
    qs = [Queue("input", lambda c, b, t: Opaque("x")), Queue("output", lambda c, b, t: Opaque("x")), Queue("command", lambda c, b, t: Opaque("x"))]
    e = Inst(cls, {"_processes": lst, "_input": qs[0], "_output": qs[1], "_command": qs[2], "_n_jobs": w, "_wait_time_before_forced_shutdown": z3.Int("grace"),
                   "job_queue_size": z3.Int("jqs"), "futures": DictObj([])}, label="evaluator")
    ctx.assume(z3.Int("grace") >= 0)
    cleared = []

    def clear(c, bound):
        cleared.append(bound["q"])
    ctx.contracts[f"{AE}.AsyncEvaluator.clear_queue"] = clear

    def quiet_inv(c, env, k):
        if st["alive"] is not alive0 or not isinstance(lst.content, FnC) or "signalled" in st:
            raise Unsupported("workers are stopped in a loop over them")
        return []
    quiet = LoopSpec(f"{AE}.AsyncEvaluator.__exit__", lambda *z: True, lambda c, env, k: None, quiet_inv, label="signalling")
    ctx.loop_specs.append(quiet)

    def havoc(c, env, _):
        n = c.fresh_int("left")
        f = c.fresh_fun("proc", I, S.sort)
        ix = c.fresh_fun("index", S.sort, I)
        al = c.fresh_fun("alive", S.sort, B)
        c.assume(n >= 0)
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), f(a) != f(b))))
        c.assume(z3.ForAll([x], z3.Implies(al(x), z3.And(0 <= ix(x), ix(x) < n, f(ix(x)) == x)), patterns=[al(x)]))
        lst.content = FnC(n, lambda cc, i: wrap(f(to_z3(i))))
        st["alive"] = lambda q: al(q)
        st["ix"], st["n"], st["f"], st["assumed"] = ix, n, f, False
        e.attrs["job_queue_size"] = c.fresh_int("jqs")

    def inv(c, env, _):
        ct = lst.content
        if "n" not in st:
            return []
        n2 = to_z3(ct.length(c))
        if not st["assumed"]:       # just after havoc
            st["assumed"] = True
            return []
        if isinstance(ct, FnC) and n2.eq(st["n"]):
            return [("one worker less per round: closing ends", False)]
        # one was removed: the first one; everybody still alive is still registered
        q = c.fresh_const("q", S.sort)
        ix = st["ix"](q)

        def reg():
            if not c.branch(z3.And(st["alive"](q), to_z3(st["n"]) >= 1)):
                return True
            v = ct.at(c, simp(ix - 1))
            return z3.And(ix >= 1, ix - 1 < n2, v.expr == q)
        return [("one worker less per round", n2 == st["n"] - 1), ("workers which are alive are still registered", c.merge(reg))]
    ctx.loop_specs.append(LoopSpec(f"{AE}.AsyncEvaluator.__exit__", lambda *z: True, havoc, inv, label="stopping", while_=True))
    r = it.call(it.getattr(e, "__exit__"), [None, None, None], {})
    z = ctx.fresh_const("z", S.sort)
    ctx.prove("no worker process is alive", z3.Not(st["alive"](z)))
    ctx.prove("errors of the block are passed on", simp(truth(ctx.truthy(r))) is False or ctx.truthy(r) is False)
    ctx.prove("queues are emptied", len(cleared) == 3 and all(any(q is c for c in cleared) for q in qs))
    ctx.cover("end")
