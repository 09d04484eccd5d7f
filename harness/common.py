"""What every driver shares.

A driver turns each scenario (a JSON value) into the trace of what the real code
of /repo does in it.  The driver only uses and observes the public API, and logs
the events that the TLA+ specification talks about.  Every verdict is given by
TLC: errors and infinite loops in the code are logged as events as well."""
import json
import logging
import math
import os
import signal
import sys
import tempfile
import shutil
import traceback

REPO = "/repo"
os.environ.setdefault("TQDM_DISABLE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

INF = 100000000
NONE = -1
OFF = -999
SCALE = 4
BASE = 0


class Hang(BaseException):
    """The code under test takes too long"""


class Abort(Exception):
    """Stop this scenario (the reason has been logged)"""


def T(t):
    """A time, in quarters"""
    try:
        t = float(t)
    except Exception:
        return OFF
    if math.isnan(t):
        return OFF
    if t == math.inf:
        return INF
    x = (t - BASE) * SCALE
    if x != int(x) or abs(x) >= INF:
        return OFF
    return int(x)


def U(x):
    """From quarters to units of time"""
    return math.inf if x == INF else x / SCALE


def W(x):
    """An instant, from quarters"""
    return math.inf if x == INF else BASE + x / SCALE


def set_scale(scale=4, base=0):
    """The unit of time of a scenario and the instant it starts at.  They are powers
    of two, so that every time is exact, however small or far they are"""
    global SCALE, BASE
    SCALE = scale
    BASE = base


def _alarm(signum, frame):
    raise Hang()


def soil_module():
    import soil

    assert os.path.abspath(soil.__file__).startswith(REPO + os.sep), soil.__file__
    # Messages are produced, but not shown
    for name in (None, "soil"):
        lg = logging.getLogger(name)
        lg.handlers[:] = [logging.NullHandler()]
    logging.getLogger("soil").setLevel(logging.DEBUG)
    logging.disable(logging.CRITICAL)
    return soil


def verbosity(i):
    """What is logged must not matter: each scenario has its own level"""
    logging.disable([logging.NOTSET, logging.DEBUG, logging.CRITICAL, logging.CRITICAL][i % 4])


def errname(ex):
    return type(ex).__name__


def main(fn, limit=20, cfg=None):
    """fn(scenario, log) runs a scenario; events are given to log(kind, **fields)"""
    scen_file, out_file = sys.argv[1:3]
    scens = json.load(open(scen_file))
    scratch = tempfile.mkdtemp(prefix="soilverif_")
    cwd = os.getcwd()
    os.chdir(scratch)
    devnull = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    try:
        with open(out_file, "w") as out:
            for sc in scens:
                ev = []

                def log(k, **kw):
                    if len(ev) > 8000:
                        raise Hang()
                    ev.append(dict(k=k, **kw))

                so, se = sys.stdout, sys.stderr
                sys.stdout = sys.stderr = devnull
                signal.alarm(limit)
                verbosity(int(sc["id"]))
                try:
                    fn(sc, log)
                except Hang:
                    ev.append({"k": "hang", "m": traceback.format_exc()[-800:]})
                except Abort:
                    pass
                except BaseException as ex:
                    ev.append({"k": "exc", "m": errname(ex) + ": " + traceback.format_exc()[-1500:]})
                finally:
                    signal.alarm(0)
                    sys.stdout, sys.stderr = so, se
                c = dict(sc.get("cfg", {}))
                out.write(json.dumps({"id": sc["id"], "cfg": c, "ev": ev}) + "\n")
                out.flush()
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
