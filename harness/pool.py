"""Calls into the code under test, in worker processes that are killed when a
call hangs."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class Proc:
    def __init__(self, tmp, k, tasks, patience):
        self.tasks = tasks
        self.patience = patience
        self.tf = os.path.join(tmp, 't%d.json' % k)
        self.of = os.path.join(tmp, 'o%d.jsonl' % k)
        with open(self.tf, 'w') as f:
            json.dump(tasks, f)
        open(self.of, 'w').close()
        self.done = 0
        self.hangs = 0
        self.start()

    def start(self):
        self.p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'worker.py'), self.tf, str(self.done), self.of],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        self.size = os.path.getsize(self.of)
        self.t = time.time()

    def lines(self):
        with open(self.of, 'rb') as f:
            return f.read().count(b'\n')

    def give(self, what):
        """the current task gets this result; the rest is started again"""
        with open(self.of, 'rb') as f:
            data = f.read()
        good = data[:data.rfind(b'\n') + 1]
        with open(self.of, 'wb') as f:
            f.write(good + (json.dumps(what) + '\n').encode())
        self.done = self.lines()
        if self.done < len(self.tasks):
            self.hangs += 1
            if self.hangs > 2:
                with open(self.of, 'a') as f:
                    f.write('["skipped",""]\n' * (len(self.tasks) - self.done))
                self.done = len(self.tasks)
            else:
                self.start()

    def poll(self):
        """True when everything is answered"""
        if self.done >= len(self.tasks):
            return True
        size = os.path.getsize(self.of)
        if size != self.size:
            self.size = size
            self.t = time.time()
        rc = self.p.poll()
        if rc is not None:
            self.done = self.lines()
            if self.done < len(self.tasks):
                self.give(['died', 'worker ended with %r' % rc])
            return self.done >= len(self.tasks)
        if time.time() - self.t > self.patience:
            self.p.kill()
            self.p.wait()
            self.give(['hang', 'no result within %d s' % self.patience])
        return self.done >= len(self.tasks)

    def results(self):
        with open(self.of) as f:
            return [json.loads(x) for x in f]


def run(tasks, workers=8, patience=40, width=20):
    """results [[status, value], ...] in the order of tasks; the status is ok,
    error (an exception), hang, died or skipped (after three hangs)"""
    if not tasks:
        return []
    tmp = tempfile.mkdtemp(prefix='obs.')
    try:
        workers = max(1, min(workers, (len(tasks) + width - 1) // width))
        procs = [Proc(tmp, k, tasks[k::workers], patience) for k in range(workers)]
        while not all([p.poll() for p in procs]):
            time.sleep(0.02)
        out = [None] * len(tasks)
        for k, p in enumerate(procs):
            out[k::workers] = p.results()
        return out
    finally:
        for p in procs:
            if p.p.poll() is None:
                p.p.kill()
                p.p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
