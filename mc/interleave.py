"""Controlled scheduler for two activities: threads of one process or two processes.

Exactly one of the two runs at a time.  An activity announces switch points (`point`); the schedule says at which
points control passes to the other: a list of (activity, n): when activity `a`, which is running, reaches its n-th
point, the other one continues.  An activity that ends passes control on.  Everything is shared through an anonymous
memory map and pipes, so the same code drives threads and processes.

An activity that waits longer than PATIENCE although nobody runs it (the running one waits for a lock it holds)
continues by itself: real locks never make the scheduler hang.
"""
import mmap
import os
import select
import sys

PATIENCE = 4.0


class Sched:
    def __init__(self, schedule):
        self.schedule = [tuple(x) for x in schedule]
        self.mem = mmap.mmap(-1, 16)     # 0: next switch, 1/2: ended, 3: switches done, 4: impatient
        self.pipes = [os.pipe(), os.pipe()]
        self.n = [0, 0]

    def wait(self, me):
        r, _, _ = select.select([self.pipes[me][0]], [], [], PATIENCE)
        if r:
            os.read(self.pipes[me][0], 1)
        else:
            self.mem[4] = 1

    def start(self, me):
        first = self.schedule[0][0] if self.schedule else 0
        if me != first:
            self.wait(me)

    def point(self, me):
        self.n[me] += 1
        k = self.mem[0]
        if k < len(self.schedule) and self.schedule[k] == (me, self.n[me]):
            self.mem[0] = k + 1
            if not self.mem[1 + (1 - me)]:
                self.mem[3] += 1
                os.write(self.pipes[1 - me][1], b'x')
                self.wait(me)

    def end(self, me):
        self.mem[1 + me] = 1
        # a switch that was to happen in this activity will not happen any more
        os.write(self.pipes[1 - me][1], b'x')

    def done(self):
        return self.mem[0] >= len(self.schedule)

    def close(self):
        for p in self.pipes:
            for fd in p:
                os.close(fd)


def line_tracer(root, on_line, repeat=1, only=None, done=lambda: False):
    """trace function (sys.settrace): on_line(file, line) at the first `repeat` executions of every line of code below root"""
    count = {}

    def local(frame, event, arg):
        if event == 'line':
            k = (frame.f_code.co_filename, frame.f_lineno)
            n = count.get(k, 0)
            if n < repeat:
                count[k] = n + 1
                on_line(k)
                if done():
                    sys.settrace(None)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(root) and (only is None or any(x in f for x in only)):
            return local
        return None
    return glob


def call_tracer(root, caller, on_call):
    """trace function: on_call at every call of a function of the package made by the file `caller`"""
    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(root) and frame.f_back is not None and frame.f_back.f_code.co_filename.endswith(caller):
            on_call()
        return None
    return glob


_hook = [None]


def audit(fn):
    """fn(event, path) before every file operation of this process (None: off); the hook itself stays installed"""
    if _hook[0] is None:
        _hook[0] = [None]
        h = _hook[0]

        def hook(event, args):
            f = h[0]
            if f is not None and event in EVENTS:
                f(event, args)
        sys.addaudithook(hook)
    _hook[0][0] = fn


EVENTS = {'open', 'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.listdir', 'os.scandir', 'os.link', 'os.symlink', 'os.truncate', 'shutil.rmtree', 'shutil.copyfile', 'shutil.move'}
