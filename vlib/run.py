"""Runs analyser tasks in parallel and collects their JSON records."""
import hashlib, json, os, resource, signal, subprocess, sys, threading, time, glob
from . import ir

LEFT = []
DEFERRED = []      # analyses without an answer: no verdict, unless another analysis shows a violation

class CheckError(Exception):
    pass

def engine_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(ir.VERIF, "engine", "*"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def analyser():
    """builds the analyser when there is none for the current engine sources; returns its path"""
    d = os.path.join(ir.BUILD, "engine-" + engine_hash())
    exe = os.path.join(d, "analyze")
    if not os.path.exists(exe):
        tmp = d + ".%d" % os.getpid()
        p = subprocess.run(["bash", os.path.join(ir.VERIF, "engine", "build.sh"), tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("the analyser does not build:\n" + p.stdout[-3000:])
        if not os.path.exists(exe):
            try:
                os.rename(tmp, d)
            except OSError:
                pass
        if not os.path.exists(exe):
            exe = os.path.join(tmp, "analyze")
    return exe

def irdir():
    d = os.path.join(ir.BUILD, "ir-" + ir.tree_hash())
    os.makedirs(d, exist_ok=True)
    return d

class Task:
    def __init__(self, args, weight=1.0, tag=None, memory=1.0):
        self.args, self.weight, self.tag, self.memory = [str(a) for a in args], weight, tag, memory
        self.recs, self.rc, self.err, self.wall = [], 97, "", 0.0

def limit(t):
    n = int(max(9.0, 4 * t.memory) * (1 << 30))
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (n, n))

def end(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass

START = time.time()

def run_tasks(tasks, jobs=None, deadline=830, strict=True, bail=None):
    """bail(record): this record alone is a violation; the tasks not yet begun are then left out, the others get 20 s more"""
    exe = analyser()
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
    todo = sorted(tasks, key=lambda t: -t.weight)
    lock = threading.Lock()
    t_end = START + deadline if os.environ.get("VERIF_TIER") != "thorough" else time.time() + 3600
    bailed = []
    budget = [24.0]
    live = set()
    def take():
        with lock:
            if bailed or time.time() > t_end:
                return None
            for i, t in enumerate(todo):
                if t.memory <= budget[0]:
                    budget[0] -= t.memory
                    return todo.pop(i)
            return todo and "wait"
    def work():
        while True:
            t = take()
            if not t:
                return
            if t == "wait":
                time.sleep(0.05)
                continue
            t0 = time.time()
            try:
                p = subprocess.Popen([exe] + t.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limit(t), start_new_session=True)
                with lock:
                    live.add(p)
                try:
                    po, pe = p.communicate(timeout=max(5, t_end - t0))
                except subprocess.TimeoutExpired:
                    end(p)
                    p.communicate()
                    raise
                finally:
                    with lock:
                        live.discard(p)
                t.rc, t.err = p.returncode, pe[-2000:]
                for line in po.splitlines():
                    try:
                        t.recs.append(json.loads(line))
                    except ValueError:
                        t.err += "\nunreadable record: " + line[:200]
                        t.rc = t.rc or 99
            except subprocess.TimeoutExpired:
                t.rc, t.err = 98, "time limit"
            t.wall = time.time() - t0
            if bail and not bailed and t.rc == 0 and any(bail(r) for r in t.recs):
                bailed.append(t)
                def stop():
                    with lock:
                        for q in live:
                            end(q)
                x = threading.Timer(20, stop)
                x.daemon = True
                x.start()
            with lock:
                budget[0] += t.memory
    th = [threading.Thread(target=work) for _ in range(jobs)]
    for x in th: x.start()
    for x in th: x.join()
    LEFT.extend(t for t in tasks if bailed and t.rc != 0)
    for t in tasks:
        if bailed and t.rc != 0:
            t.recs = []
            continue
        if t.rc and not strict:
            t.recs = [r for r in t.recs if r.get("kind") != "error"]
            continue
        if t.rc:
            DEFERRED.append("analyser task %s ended with %s: %s" % (" ".join(str(a) for a in t.args), t.rc, t.err))
        DEFERRED.extend("%s: %s" % (r.get("bc"), r.get("msg")) for r in t.recs if r.get("kind") == "error")
        t.recs = [r for r in t.recs if r.get("kind") != "error"]
    return tasks
