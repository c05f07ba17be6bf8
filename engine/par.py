"""Parallel regions: OpenMP (clang's __kmpc entry points) and vf_parallel.

The threads of a region run one after the other, each up to the next barrier.  Every access to memory that is not the thread's own is
logged; when all threads have arrived, two accesses of different threads to the same byte, one of them a write, are a data race (unless both
hold the lock of a critical section).  Without a race every schedule gives the result of this one."""
import threading

from rt import BASE, Event, Runtime, sgn

WORDS = {"4": 4, "4u": 4, "8": 8, "8u": 8}


class Abort(Exception):
    pass


class Par:
    def __init__(self, n):
        self.n = n
        self.cur = 0
        self.first = 0           # objects with a smaller id existed before the region
        self.reads = [dict() for _ in range(n)]
        self.writes = [dict() for _ in range(n)]
        self.owner = {}
        self.locked = False
        self.loops = {}
        self.threads = []
        self.abort = False
        self.exc = None


def log(par, table, p, size):
    if type(p) is not int:
        return
    o = p >> 32
    if o >= par.first and par.owner.get(o, par.cur) == par.cur:
        return
    off = (p & 0xffffffff) - BASE
    d = table[par.cur]
    for b in range(off, off + size):
        if not par.locked:
            d[(o, b)] = False
        else:
            d.setdefault((o, b), True)


def install(R, par):
    cls = Runtime

    def load(p, size):
        if type(p) is not int:
            p = R.cptr(p, size)
        log(par, par.reads, p, size)
        return cls.load(R, p, size)

    def store(p, v, size):
        if type(p) is not int:
            p = R.cptr(p, size)
        log(par, par.writes, p, size)
        return cls.store(R, p, v, size)

    def memcpy(d, s, n):
        n = R.cint(n)
        if n:
            d = R.cptr(d, n)
            s = R.cptr(s, n)
            log(par, par.reads, s, n)
            log(par, par.writes, d, n)
        return cls.memcpy(R, d, s, n)

    def memset(d, v, n):
        n = R.cint(n)
        if n:
            d = R.cptr(d, n)
            log(par, par.writes, d, n)
        return cls.memset(R, d, v, n)

    def new_obj(size, kind, zero=False):
        o = cls.new_obj(R, size, kind, zero)
        par.owner[o.id] = par.cur
        return o

    def alloca(size):
        p = cls.alloca(R, size)
        par.owner[p >> 32] = par.cur
        return p
    R.load, R.store, R.memcpy, R.memset, R.new_obj, R.alloca = load, store, memcpy, memset, new_obj, alloca
    par.fast = R.ns["load_i"]
    R.ns["load_i"] = lambda p, size: R.load_i(p, size)


def uninstall(R, par):
    for n in ("load", "store", "memcpy", "memset", "new_obj", "alloca"):
        R.__dict__.pop(n, None)
    R.ns["load_i"] = par.fast


def conflicts(R, par):
    seen = {}
    for t in range(par.n):
        for k, lk in par.writes[t].items():
            u = seen.get(k)
            if u is not None and u[0] != t and not (u[1] and lk):
                yield k, "two threads write"
            seen[k] = (t, lk)
    for t in range(par.n):
        for k, lk in par.reads[t].items():
            u = seen.get(k)
            if u is not None and u[0] != t and not (u[1] and lk):
                yield k, "one thread writes and another reads"
    for t in range(par.n):
        par.writes[t].clear()
        par.reads[t].clear()


def run(R, n, call):
    outer = getattr(R, "par", None)
    if outer is not None:      # nested regions run on one thread
        R.par_nested += 1
        try:
            call(0)
        finally:
            R.par_nested -= 1
        return
    par = Par(n)
    par.first = R.next_id
    R.par = par
    R.stats.par_regions += 1
    install(R, par)
    stack0 = R.stack
    go = [threading.Semaphore(0) for _ in range(n)]
    back = threading.Semaphore(0)
    state = ["new"] * n
    stacks = [[] for _ in range(n)]

    def body(i):
        go[i].acquire()
        try:
            if not par.abort:
                call(i)
        except Abort:
            pass
        except BaseException as e:  # noqa
            par.exc = e
        state[i] = "done"
        back.release()

    def barrier():
        i = par.cur
        state[i] = "barrier"
        stacks[i] = R.stack
        back.release()
        go[i].acquire()
        if par.abort:
            raise Abort()
    par.barrier = barrier
    threading.stack_size(256 << 20)
    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ths:
        t.start()
    order = list(range(n))
    if R.cfg.get("backwards"):
        order.reverse()

    def resume(i):
        par.cur = i
        R.stack = stacks[i]
        par.locked = False
        state[i] = "run"
        go[i].release()
        back.acquire()
        stacks[i] = R.stack
    try:
        while par.exc is None and any(s != "done" for s in state):
            for i in order:
                if state[i] != "done":
                    resume(i)
                    if par.exc is not None:
                        break
            if par.exc is None:
                for (o, b), what in conflicts(R, par):
                    ob = R.objs.get(o)
                    raise Event("race", "data race: %s byte %d of a %s object of %d bytes" % (
                        what, b, ob.kind if ob else "freed", ob.size if ob else 0))
    finally:
        par.abort = True
        for i in range(n):
            if state[i] != "done":
                resume(i)
        for t in ths:
            t.join()
        R.stack = stack0
        uninstall(R, par)
        R.par = None
    if par.exc is not None:
        raise par.exc


def width(R):
    par = getattr(R, "par", None)
    if par is None or getattr(R, "par_nested", 0):
        return 1, 0
    return par.n, par.cur


def install_builtins(P):
    B = P.builtins

    def fork(R, loc, argc, fn, *args):
        n = R.cfg.get("threads", 2) or 2

        def call(i):
            g = R.alloca(4)
            R.store(g, i, 4)
            R.icall(fn, [g, g] + list(args))
        run(R, n, call)
    B["__kmpc_fork_call"] = fork
    B["__kmpc_fork_call_if"] = lambda R, loc, argc, fn, cond, arg: fork(R, loc, argc, fn, arg)
    B["__kmpc_global_thread_num"] = lambda R, *a: width(R)[1]
    B["omp_get_thread_num"] = lambda R: width(R)[1]
    B["omp_get_num_threads"] = lambda R: width(R)[0]
    B["omp_get_max_threads"] = lambda R: R.cfg.get("threads", 2) or 2
    B["omp_get_num_procs"] = lambda R: 8
    B["omp_in_parallel"] = lambda R: int(getattr(R, "par", None) is not None)
    B["omp_set_num_threads"] = lambda R, n: None
    for n in ("__kmpc_push_num_threads", "__kmpc_for_static_fini", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel",
              "__kmpc_flush", "__kmpc_push_proc_bind", "__kmpc_begin", "__kmpc_end"):
        B[n] = lambda R, *a: None

    def barrier(R, *a):
        if width(R)[0] > 1:
            R.par.barrier()
    B["__kmpc_barrier"] = barrier
    B["vf_barrier"] = barrier

    def single(R, *a):
        return int(width(R)[1] == 0)
    B["__kmpc_single"] = B["__kmpc_master"] = B["__kmpc_masked"] = single
    for n in ("__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked"):
        B[n] = lambda R, *a: None

    def lock(R, *a):
        if getattr(R, "par", None) is not None:
            R.par.locked = True
        return 1

    def unlock(R, *a):
        if getattr(R, "par", None) is not None:
            R.par.locked = False
    for n in ("__kmpc_critical", "__kmpc_critical_with_hint", "__kmpc_reduce", "__kmpc_reduce_nowait", "__kmpc_ordered"):
        B[n] = lock
    for n in ("__kmpc_end_critical", "__kmpc_end_reduce_nowait", "__kmpc_end_ordered"):
        B[n] = unlock

    def end_reduce(R, *a):
        unlock(R)
        barrier(R)
    B["__kmpc_end_reduce"] = end_reduce

    def static_init(w, signed):
        bits = 8 * w

        def f(R, loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk):
            n, t = width(R)
            val = (lambda v: sgn(v, bits)) if signed else (lambda v: v)
            lo = val(R.cint(R.load_i(plower, w)))
            hi = val(R.cint(R.load_i(pupper, w)))
            incr = sgn(R.cint(incr), bits)
            chunk = sgn(R.cint(chunk), bits)
            sched = R.cint(sched)
            trip = (hi - lo) // incr + 1 if (hi >= lo if incr > 0 else hi <= lo) else 0
            mask = (1 << bits) - 1
            if sched in (33, 45):   # chunked
                span = max(1, chunk) * incr
                stride = span * n
                a = lo + span * t
                b = a + span - incr
                last = trip > 0 and t == ((trip - 1) // max(1, chunk)) % n
            else:
                small, extra = divmod(trip, n)
                a = lo + incr * (t * small + min(t, extra))
                b = a + small * incr - (0 if t < extra else incr)
                stride = max(trip, 1)
                last = trip > 0 and b == lo + incr * (trip - 1) and (small > 0 or t < extra)
                if trip == 0 or (small == 0 and t >= extra):
                    a, b = lo + incr * trip, lo + incr * trip - incr
            R.store(plower, a & mask, w)
            R.store(pupper, b & mask, w)
            R.store(pstride, stride & mask, w)
            R.store(plast, int(last), 4)
        return f

    def disp_init(w, signed):
        bits = 8 * w

        def f(R, loc, gtid, sched, lo, hi, st, chunk):
            n, t = width(R)
            val = (lambda v: sgn(R.cint(v), bits)) if signed else (lambda v: R.cint(v))
            lo, hi, st, chunk = val(lo), val(hi), sgn(R.cint(st), bits), max(1, sgn(R.cint(chunk), bits))
            par = getattr(R, "par", None) or R
            if not hasattr(par, "loops"):
                par.loops = {}
            trip = (hi - lo) // st + 1 if (hi >= lo if st > 0 else hi <= lo) else 0
            par.loops[t] = [lo, st, trip, chunk, t, n]
        return f

    def disp_next(w):
        mask = (1 << (8 * w)) - 1

        def f(R, loc, gtid, plast, plower, pupper, pstride):
            par = getattr(R, "par", None) or R
            s = par.loops[width(R)[1]]
            lo, st, trip, chunk, k, n = s
            if k * chunk >= trip:
                return 0
            e = min((k + 1) * chunk, trip) - 1
            R.store(plower, (lo + st * k * chunk) & mask, w)
            R.store(pupper, (lo + st * e) & mask, w)
            R.store(pstride, st & mask, w)
            R.store(plast, int(e == trip - 1), 4)
            s[4] = k + n
            return 1
        return f
    for k, w in WORDS.items():
        B["__kmpc_for_static_init_" + k] = static_init(w, not k.endswith("u"))
        B["__kmpc_dispatch_init_" + k] = disp_init(w, not k.endswith("u"))
        B["__kmpc_dispatch_next_" + k] = disp_next(w)
        B["__kmpc_dispatch_fini_" + k] = lambda R, *a: None
    B["__kmpc_dispatch_deinit"] = lambda R, *a: None

    def vf_parallel(R, n, fn, arg):
        n = sgn(R.cint(n), 32)
        run(R, n, lambda i: R.icall(fn, [arg, i]))
    B["vf_parallel"] = vf_parallel
    B["vf_thread"] = lambda R: width(R)[1]
