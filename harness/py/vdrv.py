"""Support of the Python drivers: traces and a controlled thread schedule.

A schedule runs several operations, each in its own thread, of which exactly one
moves at a time.  Threads hand control back at every lock operation and at every
call of `point`, and from time to time between two lines of the code under test; which one goes on is drawn from the driver's random generator, so
a seed fixes the interleaving.  Locks created while `controlled_locks` is in force
take part; a thread that blocks on anything else is noticed after a while and left
aside until it moves again.
"""
import contextlib
import json
import random
import sys
import threading
import time

_real_lock = threading.Lock
_real_rlock = threading.RLock


class Trace:

  def __init__(self, path):
    self._file = open(path, 'w')
    self._lock = _real_lock()

  def add(self, e, **fields):
    event = {'e': e}
    event.update(fields)
    with self._lock:
      self._file.write(json.dumps(event, separators=(',', ':')) + '\n')

  def close(self):
    self._file.close()


class Names:
  """Short stable names for the random identifiers the code makes up."""

  def __init__(self):
    self._kinds = {}

  def __call__(self, kind, value):
    names = self._kinds.setdefault(kind, {})
    if value not in names:
      names[value] = '%s%d' % (kind, len(names) + 1)
    return names[value]

  def known(self, kind, value):
    return value in self._kinds.get(kind, {})


class _Task:

  def __init__(self, fn):
    self.fn = fn
    self.go = threading.Semaphore(0)
    self.done = False
    self.waiting_for = None   # a Lock held by someone else
    self.stuck = False        # blocked on something not under control
    self.error = None


_current = threading.local()
_active = None


class Schedule:
  """Runs operations one step at a time."""

  def __init__(self, rng, stay=0.5, lines=None):
    self._rng = rng
    self._stay = stay
    self._lines = rng.choice((0, 0, .1, .4)) if lines is None else lines
    self._back = threading.Semaphore(0)
    self.steps = 0

  def run(self, fns):
    global _active
    tasks = [_Task(fn) for fn in fns]
    threads = [
        threading.Thread(target=self._main, args=(t,), daemon=True)
        for t in tasks
    ]
    _active = self
    for t in threads:
      t.start()
    last = None
    try:
      idle = 0
      while not all(t.done for t in tasks):
        ready = [
            t for t in tasks if not t.done and not t.stuck and
            (t.waiting_for is None or not t.waiting_for.held)
        ]
        if not ready:
          # Everyone left is blocked: give threads outside our control a chance.
          if self._back.acquire(timeout=0.2):
            for t in tasks:
              t.stuck = False
            continue
          idle += 1
          if idle > 100:
            raise Deadlock()
          continue
        idle = 0
        if last in ready and self._rng.random() < self._stay:
          t = last
        else:
          t = self._rng.choice(ready)
        last = t
        self.steps += 1
        t.go.release()
        if not self._back.acquire(timeout=2):
          t.stuck = True
    finally:
      _active = None
    for t in tasks:
      if t.error is not None:
        raise t.error

  def _main(self, task):
    _current.task = task
    task.go.acquire()
    if self._lines:
      sys.settrace(self._trace)
    try:
      task.fn()
    except BaseException as e:  # pylint:disable=broad-except
      task.error = e
    finally:
      sys.settrace(None)
      task.done = True
      _current.task = None
      self._back.release()

  def _trace(self, frame, event, arg):
    del event, arg
    return self._line if '/fcp/demo/' in frame.f_code.co_filename else None

  def _line(self, frame, event, arg):
    if event == 'line' and self._rng.random() < self._lines:
      point()
    return self._line

  def step(self, task):
    self._back.release()
    task.go.acquire()


class Deadlock(Exception):
  pass


def point():
  """Lets another operation go on here."""
  task = getattr(_current, 'task', None)
  if task is not None and _active is not None:
    _active.step(task)


class Lock:
  """Replaces threading.Lock and threading.RLock in the code under test."""

  def __init__(self, reentrant=False):
    self._lock = _real_rlock() if reentrant else _real_lock()
    self._reentrant = reentrant
    self._owner = None
    self._depth = 0

  @property
  def held(self):
    return self._depth > 0

  def acquire(self, blocking=True, timeout=-1):
    task = getattr(_current, 'task', None)
    me = threading.get_ident()
    if task is None or _active is None:
      ok = self._lock.acquire(blocking, timeout)
      if ok:
        self._owner = me
        self._depth += 1
      return ok
    point()
    if self._depth and not (self._reentrant and self._owner == me):
      if not blocking or timeout >= 0:
        return False
      while self._depth:
        task.waiting_for = self
        point()
      task.waiting_for = None
    self._lock.acquire()
    self._owner = me
    self._depth += 1
    return True

  def release(self):
    self._depth -= 1
    if not self._depth:
      self._owner = None
    self._lock.release()
    point()

  def locked(self):
    return self.held

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *exc):
    self.release()


@contextlib.contextmanager
def controlled_locks():
  threading.Lock = Lock
  threading.RLock = lambda: Lock(reentrant=True)
  try:
    yield
  finally:
    threading.Lock = _real_lock
    threading.RLock = _real_rlock


def main(modes):
  """Runs modes[mode](trace, rng) `runs` times: driver trace seed runs mode."""
  path, seed, runs, mode = sys.argv[1:5]
  trace = Trace(path)
  for i in range(int(runs)):
    rng = random.Random('%s/%s/%d' % (seed, mode, i))
    modes[mode](trace, rng)
  trace.close()
  sys.stdout.flush()
  import os
  os._exit(0)
