"""The log keeps what the verbosity asks for, in the model's own folder."""
import contextlib
import glob
import io
import logging
import os
import warnings

from props.iolib import *
from props.lib import small

META = dict(
    bounds="symbolic verbosity and message level (-1..6, whole numbers); one time step without routing with symbolic verbosity "
           "and symbolic output intervals; two models in different folders",
    outside="wording of the messages; the time stamps; routing",
    assumptions=[])


def cases(tier):
    return [dict(name=k, kw=dict(kind=k)) for k in ("message", "time", "step", "folders", "deprecated")]


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


@contextlib.contextmanager
def listen(m):
    h = Keep()
    m.logger.addHandler(h)
    try:
        yield h.got
    finally:
        m.logger.removeHandler(h)


def run(c, kind):
    warnings.simplefilter("ignore")
    {"message": message, "time": time, "step": step, "folders": folders, "deprecated": deprecated}[kind](c)


def message(c):
    m = c.model(cls=still, defer_output=True, **small(3, 3))
    v, k = c.int("verbose", -1, 6), c.int("level", -1, 6)
    m.verbose = v
    with listen(m) as got:
        m.log_info("one", verbosity=k)
    c.observe("n", [len(got)])
    c.check("a message is logged exactly when the verbosity reaches its level",
            c.Iff(c.ge(v, k, exact=True), [x[1] for x in got] == ["one"]))
    c.check("a message is logged at most once, as information", len(got) <= 1 and all(x[0] == logging.INFO for x in got))
    with listen(m) as got:
        m.log_info("two")
    c.check("a message without a level has level zero",
            c.Iff(c.ge(v, 0, exact=True), [x[1] for x in got] == ["two"]))
    c.check("the verbosity reads back", c.eq(m.verbose, v))


def time(c):
    m = c.model(cls=still, defer_output=True, **small(3, 3))
    v = c.int("verbose", 0, 6)
    m.verbose = v
    out = io.StringIO()
    with listen(m) as got, contextlib.redirect_stdout(out):
        m.log_model_time()
    c.check("the time is logged whatever the verbosity", len(got) == 1)
    c.check("the time is printed exactly when anything is to be said", c.Iff(c.gt(v, 0, exact=True), len(out.getvalue()) > 0))
    if out.getvalue():
        c.check("what is printed is what is logged", out.getvalue().strip() == got[0][1].strip())


def step(c):
    ms = [c.model(cls=still, defer_output=True, **small(3, 3, save_eta_grids=True, save_checkpoint=True)) for _ in range(3)]
    v = c.int("verbose", 0, 6)
    sdt, cdt, dt = c.int("save_dt", 0, 30), c.int("checkpoint_dt", 0, 30), c.int("dt", 1, 20)
    logs = []
    for m, w in zip(ms, (0, v, 6)):
        fresh_folder(c, m)
        m.verbose, m.save_dt, m.checkpoint_dt, m._dt = w, sdt, cdt, dt
        with listen(m) as got, contextlib.redirect_stdout(io.StringIO()):
            start_output(m)
            m.update()
            m.finalize()
        logs.append(got)
    lo, mid, hi = ([(k, "Time" if "Time" in t else t.replace(m.prefix, "")) for k, t in x] for m, x in zip(ms, logs))
    c.observe("n", [len(lo), len(mid), len(hi)])
    c.check("more verbosity never loses a message", sub(lo, mid) and sub(mid, hi))
    c.check("warnings and errors are logged whatever the verbosity",
            [x for x in lo if x[0] > logging.INFO] == [x for x in mid if x[0] > logging.INFO])
    c.check("checkpoints at another interval than records are warned about, others are not",
            c.Iff(c.ne(sdt, cdt, exact=True), any(x[0] == logging.WARNING for x in lo)))
    c.check("the time of every step is logged", [x[1] for x in mid].count("Time") == 1)


def sub(a, b):
    it = iter(b)
    return all(x in it for x in a)


def folders(c):
    v = c.int("verbose", 0, 6)
    d = c.scratch()
    ms = []
    for k in range(2):
        f = os.path.join(d, "f%d-%d" % (k, len(os.listdir(d))))
        ms.append((c.model(cls=still, defer_output=True, out_dir=f, **small(3, 3)), f))
    for k, (m, f) in enumerate(ms):
        m.verbose = v
        m.log_info("message of %d" % k)
    for k, (m, f) in enumerate(ms):
        logs = glob.glob(os.path.join(f, "pyDeltaRCM_*.log"))
        c.check("a model has one log, in its folder", len(logs) == 1)
        text = open(logs[0]).read() if logs else ""
        c.check("its messages go there and nowhere else",
                "message of %d" % k in text and "message of %d" % (1 - k) not in text)


def deprecated(c):
    name = c.choice("hook", ["hook_sed_route", "hook_run_one_timestep", "hook_route_sediment", "hook_something"])

    def cls(c):
        return type("Sub", (c.pkg.DeltaModel,), {name: lambda self: None})
    f = os.path.join(c.scratch(), "d%d" % len(os.listdir(c.scratch())))
    e = c.raises(lambda: cls(c)(out_dir=f, defer_output=True, **small(3, 3)))
    old = name in ("hook_sed_route", "hook_run_one_timestep")
    c.check("a hook that no longer exists is refused, any other taken", isinstance(e, AttributeError) if old else e is None)
    c.check("and nothing is written", not (old and os.path.exists(f)))
