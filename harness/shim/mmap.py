# Jython has no mmap module; bitstring imports it at load time and only uses it for files.
ACCESS_READ = 1


class mmap(object):
  def __init__(self, *a, **k):
    raise NotImplementedError("no mmap under Jython")
