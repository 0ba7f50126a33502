"""Controlled threads: the schedule is an input of the harness.

The main program and the workers are real threads, but only one of them runs
at a time.  At every line of /repo's code (and whenever a lock is taken) the
running thread may be preempted; whether it is, and in favour of whom, is a
free choice of the solver, with a bound on the number of preemptions.  A thread
that waits for a lock or has finished hands over for free."""
import sys
import threading as real
import types

from . import load


class Kill(BaseException):
    pass


class Lock(object):
    """threading.Lock / RLock under the control of the scheduler"""

    def __init__(self, sched, reentrant=False):
        self.sched = sched
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = self.sched
        me = s.current
        if s.killing:
            return True
        s.point()
        while self.owner is not None:
            if self.reentrant and self.owner is me:
                break
            if not blocking or timeout >= 0:
                return False
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        s = self.sched
        if s.killing:
            return
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Actor(object):
    def __init__(self, name, func):
        self.name = name
        self.func = func
        self.sem = real.Semaphore(0)
        self.done = False
        self.waits = None
        self.idle = False          # main: waits for the workers to finish
        self.thread = None

    def runnable(self):
        return not self.done and not self.idle and (self.waits is None or self.waits.owner is None)


class Sched(object):
    def __init__(self, ctx, preemptions):
        self.ctx = ctx
        self.left = preemptions
        self.main = Actor('main', None)
        self.current = self.main
        self.actors = [self.main]
        self.active = False
        self.killing = False
        self.exc = None
        self.n = 0
        self.clock = 0
        self.root = load.REPO
        self.switches = 0
        m = types.ModuleType('threading')
        m.__dict__.update(real.__dict__)
        m.Lock = lambda: Lock(self)
        m.RLock = lambda: Lock(self, True)
        self.module = m

    def tick(self):
        self.clock += 1
        return self.clock

    # ---- switching ------------------------------------------------------------
    def _go(self, to):
        me = self.current
        if to is me:
            return
        self.current = to
        self.switches += 1
        to.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.exc is not None and me is self.main and not self.killing:
            raise self.exc
        if self.killing:
            raise Kill()

    def point(self):
        """the running thread may be preempted here"""
        if not self.active or self.killing or self.left <= 0:
            if self.killing and self.current is not self.main:
                raise Kill()
            return
        me = self.current
        others = [a for a in self.actors if a is not me and a.runnable()]
        if not others:
            return
        self.n += 1
        pick = self.ctx.choice('sw%d' % self.n, [None] + [a.name for a in others])
        if pick is not None:
            self.left -= 1
            self.ctx.trace.append('preempted: %s -> %s' % (me.name, pick))
            self._go(next(a for a in others if a.name == pick))

    def free(self):
        """the running thread has nothing urgent: anybody may go on"""
        if not self.active or self.killing:
            return
        me = self.current
        names = [me.name] + [a.name for a in self.actors
                             if a is not me and a.runnable()]
        if len(names) > 1:
            self.n += 1
            pick = self.ctx.choice('sw%d' % self.n, names)
            self._go(next(a for a in self.actors if a.name == pick))

    def block(self, lock):
        me = self.current
        me.waits = lock
        others = [a for a in self.actors if a is not me and a.runnable()]
        if not others:
            me.waits = None
            self.ctx.fail('all threads wait for a lock', '%s waits' % me.name)
        self._forced(others)
        me.waits = None

    def _forced(self, others):
        self.n += 1
        pick = self.ctx.choice('sw%d' % self.n, [a.name for a in others])
        self._go(next(a for a in others if a.name == pick))

    # ---- running -----------------------------------------------------------------
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self._line

    def _worker(self, a):
        a.sem.acquire()
        try:
            if not self.killing:
                sys.settrace(self._trace)
                try:
                    a.func()
                finally:
                    sys.settrace(None)
        except Kill:
            pass
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        a.done = True
        if self.killing:
            return
        if self.exc is not None:
            self._go(self.main)
            return
        try:
            others = [x for x in self.actors if x.runnable()]
            if others:
                self._forced(others)
            elif all(x.done for x in self.actors[1:]):
                self._go(self.main)
            else:
                self.ctx.fail('all threads wait for a lock')
        except BaseException as e:
            self.exc = e
            self._go(self.main)

    def run(self, main, workers):
        """main(): the body of the main thread; workers: name -> body"""
        for name, func in workers:
            a = Actor(name, func)
            a.thread = real.Thread(target=self._worker, args=(a,), daemon=True,
                                   name=real.main_thread().name)
            self.actors.append(a)
        for a in self.actors[1:]:
            a.thread.start()
        self.active = True
        try:
            sys.settrace(self._trace)
            try:
                main()
            finally:
                sys.settrace(None)
            # the others finish
            if any(not a.done for a in self.actors[1:]):
                self.block_main()
            if self.exc is not None:
                raise self.exc
        finally:
            self.active = False
            self.killing = True
            for a in self.actors[1:]:
                if not a.done:
                    a.sem.release()
            for a in self.actors[1:]:
                a.thread.join(5)
            self.killing = False
            self.current = self.main

    def block_main(self):
        self.main.idle = True
        others = [a for a in self.actors[1:] if a.runnable()]
        if not others:
            self.ctx.fail('all threads wait for a lock')
        self._forced(others)
