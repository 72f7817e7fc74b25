"""Run independent analyses in forked workers (results must be picklable)."""
import mmap, os, pickle, select, signal, sys, threading, time, traceback
from .interp import Interp


GRACE = 60              # seconds an analysis may still run after its first alarm (which the finished analysis normally confirms)
PGRACE = 200           # the same for a panic, which later iterations of a fixpoint may yet rule out
REFINE = 40             # an analysis that took less is repeated with more precision before its alarm is believed
LIMIT = 780            # seconds for all items together: an unfinished analysis decides nothing and is reported


def par(fn, items, workers=None, bad=None):
    """[fn(x) for x in items], one forked process per item; an exception becomes ('exc', text).

    bad(categories) tells whether an alarm refutes the property being checked: once a finished analysis has one, the
    others are not waited for; an analysis that meets one and cannot complete soon afterwards is reported with it."""
    items = list(items)
    n = min(workers or min(8, os.cpu_count() or 1), len(items))
    out = {}
    if os.environ.get('VP_SERIAL'):
        for i, x in enumerate(items):
            out[i] = guard(fn, x)
        return [out[i] for i in range(len(items))]
    todo = list(range(len(items)))[::-1]
    live = {}          # fd -> (pid, index, chunks)
    board = mmap.mmap(-1, 1024 * max(1, len(items)))
    alarm = {}
    end = time.time() + float(os.environ.get('VP_LIMIT', LIMIT))

    def note(i):
        t = board[i * 1024:i * 1024 + 1024].rstrip(b'\0')
        return t.decode('utf8', 'replace') if t else None

    def stop(fd, r, skip=False):
        pid, i, chunks = live.pop(fd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(fd)
        out[i] = ('skip' if skip else 'exc', r)
    found = None
    while todo or live:
        now = time.time()
        for fd, (pid, i, chunks) in list(live.items()):
            t = note(i)
            if t and t[0] == '!' and (i, 1) not in alarm:
                alarm[i, 1] = now + GRACE
            elif t and (i, 0) not in alarm:
                alarm[i, 0] = now + PGRACE
            if t and now > min(alarm.get((i, k), end) for k in (0, 1)):
                stop(fd, t[1:] + ' (analysis stopped)')
                found = found or now
        if now > end or found and now > found + 3:
            for fd in list(live):
                t = note(live[fd][1])
                stop(fd, t[1:] + ' (analysis stopped)' if t else 'the analysis of this item did not finish', found and not t)
            break
        while todo and len(live) < n and not found:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(w, fn, items[i], bad and early(board, i, bad))
            os.close(w)
            live[r] = (pid, i, [])
        if not live:
            break
        for r in select.select(list(live), [], [], 1 if found else 5)[0]:
            b = os.read(r, 1 << 16)
            if b:
                live[r][2].append(b)
                continue
            os.close(r)
            pid, i, chunks = live.pop(r)
            os.waitpid(pid, 0)
            try:
                out[i] = pickle.loads(b''.join(chunks))
            except Exception:
                pass
            if bad and i in out and not found and (out[i][0] == 'exc' or any(bad(o[0]) for o in out[i][0])):
                found = time.time()
    return [out.get(i, ('skip' if found else 'exc', 'the analysis of this item did not finish')) for i in range(len(items))]


def early(board, i, bad):
    from checks.protoenc import panic_text
    done = []

    def told(p):
        cats, text = panic_text(p)
        k = '?' if cats is None else '!'
        if k not in done and '!' not in done:
            if cats is None or bad(cats):
                done.append(k)
                t = (k + text).encode()[:1000]
                board[i * 1024:i * 1024 + 1024] = bytes(1024)
                if os.environ.get('VP_EARLYLOG'):
                    print('EARLY', text[:300], file=open(os.environ['VP_EARLYLOG'], 'a'))
                board[i * 1024:i * 1024 + len(t)] = t
    return told


def child(w, fn, item, told):
    """one item in its own process, so that results do not depend on the schedule"""
    st = [1]
    Interp.EARLY = told

    def work():
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(guard(fn, item)))
            st[0] = 0
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=work)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(st[0])


def guard(fn, x):
    t = time.time()
    r = guard1(fn, x)
    if r[0] and r[0] != 'skip' and time.time() - t < REFINE:
        # second look at an alarm: the same analysis with the first iteration of every loop kept apart
        told, Interp.EARLY, Interp.PEEL = Interp.EARLY, None, True
        try:
            q = guard1(fn, x)
        finally:
            Interp.EARLY, Interp.PEEL = told, False
        if not q[0]:
            return q
    return r


def guard1(fn, x):
    try:
        return fn(x)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return ('exc', '%s: %s' % (type(e).__name__, (str(e) or '')[:600]) + '\n' + traceback.format_exc()[-1500:])
