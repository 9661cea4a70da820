"""What one simulated execution reports back."""
import collections
import hashlib

import numpy as np


class Violation(Exception):
  """The property does not hold in this execution."""

  def __init__(self, kind, what):
    Exception.__init__(self, what)
    self.kind = kind
    self.what = what


class Run(object):

  def __init__(self):
    self.stats = collections.Counter()
    self.sigs = set()
    self._hash = hashlib.sha256()
    self.events = 0
    self.trace = []
    self.keep_trace = False
    self.known = []
    self.decisions = None

  def log(self, *items):
    """Appends to the event log (hashed; used to prove determinism)."""
    self.events += 1
    for it in items:
      if isinstance(it, np.ndarray):
        self._hash.update(str((it.shape, it.dtype)).encode())
        # A failed factorisation leaves NaN and uninitialised memory behind.
        if it.dtype.kind != 'f' or np.all(np.isfinite(it)):
          self._hash.update(np.ascontiguousarray(it).tobytes())
      else:
        self._hash.update(repr(it).encode())
      self._hash.update(b'|')
    if self.keep_trace:
      self.trace.append(' '.join(
          'array%s' % (it.shape,) if isinstance(it, np.ndarray) else str(it)
          for it in items))

  def digest(self):
    return self._hash.hexdigest()[:24]

  def count(self, name, n=1):
    self.stats[name] += n

  def sig(self, *items):
    """One distinct non-trivial situation reached, by the check's measure."""
    self.sigs.add(hashlib.md5(repr(items).encode()).hexdigest()[:12])

  def finding(self, key):
    self.known.append(key)
