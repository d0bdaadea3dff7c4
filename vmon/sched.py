"""
schedule fuzzing for threads: random pauses at lines of the code under test

Every thread started after install() is traced; at each line executed inside the package a
PRNG decides whether the thread pauses, so that other threads run in between.  The sequence
of switches between threads (which thread, in which function) is recorded: it identifies
the interleaving that was observed.
"""
import hashlib, os, random, sys, threading, time


class Scheduler:
    def __init__(self, seed, package, rate=0.02, files=None, points=0, steps=400, pause=0.02):
        """rate: probability of short pauses at any line; points: number of long pauses of each thread, at
        random ones among the first `steps` lines it executes"""
        self.rnd = random.Random(seed)
        self.points, self.steps, self.pause = points, steps, pause
        self.plan = {}
        self.package = package.rstrip('/') + '/'
        self.rate = rate
        self.files = files
        self.last = None
        self.switches = 0
        self.lines = 0
        self._hash = hashlib.blake2b(digest_size=8)

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.package) and (self.files is None or os.path.basename(fn) in self.files):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            me = threading.get_ident()
            if me != self.last:
                self.last = me
                self.switches += 1
                self._hash.update(('%s:%s;' % (threading.current_thread().name, frame.f_code.co_name)).encode())
            if self.points:
                plan = self.plan.get(me)
                if plan is None:
                    plan = self.plan[me] = [0, {int(self.rnd.random() ** 2 * self.steps) for _ in range(self.points)}]
                plan[0] += 1
                if plan[0] in plan[1]:
                    time.sleep(self.pause)
            x = self.rnd.random()
            if x < self.rate:
                time.sleep(0 if x < self.rate * .5 else 1e-5 if x < self.rate * .8 else 1e-3)
        return self._local

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        threading.settrace(self._global)
        return self

    def __exit__(self, *_):
        threading.settrace(None)
        sys.setswitchinterval(self.interval)

    @property
    def signature(self):
        return self._hash.hexdigest()
