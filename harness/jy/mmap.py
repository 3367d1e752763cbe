# Jython has no mmap; bitstring only needs the name to exist.
ACCESS_READ = 1
class mmap(object):
  def __init__(self, *a, **k): raise NotImplementedError("mmap")
