"""Jobs of the preprocessor on models the harness provides."""
import logging
import os


def factory(c, models):
    """Stands in for the model class: gives out the prepared models in turn."""
    given = []

    def make(input_file=None, defer_output=False, **kw):
        m = models[len(given)]
        given.append((input_file, defer_output, kw))
        return m
    make.given = given
    return make


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


def listen(m):
    h = Records()
    m.logger = logging.Logger("harness")
    m.logger.addHandler(h)
    return h


def write(c, text, name="in.yml"):
    d = os.path.join(c.scratch(), "y%d" % len(os.listdir(c.scratch())))
    os.makedirs(d)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


class Queue:
    def __init__(self, *a):
        self.got, self.unread = [], []

    def put(self, x, *a):
        self.got.append(x)
        self.unread.append(x)

    def empty(self):
        return not self.unread

    def get(self, *a):
        return self.unread.pop(0)


class Stuck(Exception):
    pass


class Sema:
    def __init__(self, n=1):
        self.n, self.free, self.most = n, n, 0

    def acquire(self, *a, **k):
        if self.free <= 0:
            raise Stuck("no free slot although no job is running")
        self.free = self.free - 1
        return True

    def release(self):
        self.free = self.free + 1

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Inline:
    """Processes run where they are started, one after the other; queue and semaphore are recorded."""
    def __init__(self):
        self.queues, self.semas, self.died = [], [], []

    def __enter__(self):
        import multiprocessing as mp
        import time
        self.old = (mp.Process.start, mp.Process.join, mp.Queue, mp.Semaphore, time.sleep)

        def start(proc):
            try:
                proc.run()
            except Stuck:
                raise
            except Exception as e:       # ends that process alone
                if type(e).__name__ == "Unsupported":
                    raise
                self.died.append(e)

        def queue(*a):
            self.queues.append(Queue())
            return self.queues[-1]

        def sema(*a):
            self.semas.append(Sema(*a))
            return self.semas[-1]
        mp.Process.start, mp.Process.join = start, lambda proc, *a: None
        mp.Queue, mp.Semaphore = queue, sema
        time.sleep = lambda s: None
        return self

    def __exit__(self, *a):
        import multiprocessing as mp
        import time
        mp.Process.start, mp.Process.join, mp.Queue, mp.Semaphore, time.sleep = self.old
        return False


class Yaml:
    """Configuration files with symbolic values: written as tokens, which reading turns back into the values."""
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        if self.c.sym:
            import yaml
            from symx.core import from_text
            old = self.old = yaml.load
            yaml.load = lambda stream, *a, **k: from_text(old(stream, *a, **k))
        return self

    def __exit__(self, *a):
        if self.c.sym:
            import yaml
            yaml.load = self.old
        return False

    def dump(self, d, path):
        import yaml

        class Quote(yaml.SafeDumper):      # text is text, whatever it looks like
            pass
        Quote.add_representer(str, lambda s, x: s.represent_scalar("tag:yaml.org,2002:str", x, style='"'))
        with open(path, "w") as f:
            yaml.dump(self.plain(d), f, Dumper=Quote, sort_keys=False)
        return path

    def plain(self, x):
        if isinstance(x, dict):
            return {k: self.plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.plain(v) for v in x]
        if x is None or isinstance(x, (bool, int, float, str)):
            return x
        return str(x) if self.c.sym else (int(x) if hasattr(x, "dtype") and x.dtype.kind in "iu" else float(x))
