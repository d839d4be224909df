"""Running one case against the code under test, inside this process."""
import contextlib
import io
import json
import os
import signal
import traceback
import warnings

import numpy as np

from vp import boot


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Inconclusive(Exception):
    """A solver that is not under test says that it failed; the case decides nothing."""


class Hang(BaseException):
    pass


CASE_SECONDS = 60
_hash = {'seed': 0, 'n': 0}


def fail(msg):
    raise Violation(msg)


def _mix(a, b):
    h = (a * 0x9E3779B1 + b * 0x85EBCA77 + 0x165667B1) & 0xFFFFFFFF
    h ^= h >> 15
    h = (h * 0x2C1B3C6D) & 0xFFFFFFFF
    h ^= h >> 12
    return h


def prepare():
    """Import the code under test and pin the iteration order of sets of expressions, which
    otherwise follows memory addresses, to a per-case hash seed."""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import openmdao.api  # noqa: F401
    import omtools.api  # noqa: F401
    import omtools
    if not os.path.abspath(omtools.__file__).startswith(os.path.abspath(boot.REPO) + os.sep):
        raise HarnessError('omtools imported from %s' % omtools.__file__)
    from omtools.core.variable import Variable
    if Variable.__hash__ is object.__hash__:
        def _h(self):
            d = self.__dict__
            h = d.get('_vp_hash')
            if h is None:
                _hash['n'] += 1
                h = d['_vp_hash'] = _mix(_hash['seed'], _hash['n'])
            return h
        Variable.__hash__ = _h


def set_hash(seed):
    _hash['seed'] = seed
    _hash['n'] = 0


def _alarm(*a):
    raise Hang()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def run_case(mod, case, verbose=False):
    """None if the property held on this case, otherwise a message."""
    # every case is decided from its JSON form, so a replay file is the case
    case = json.loads(json.dumps(case))
    from vp import ops
    del ops.LOG[:]
    set_hash(case.get('hash', 0) if isinstance(case, dict) else 0)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with quiet():
                mod.check_case(case)
        return None
    except Violation as e:
        return str(e)
    except Inconclusive:
        return None
    except HarnessError:
        raise
    except Hang:
        return 'no answer after %d s' % CASE_SECONDS
    except RecursionError:
        return 'RecursionError\n' + traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def real(what):
    """Code under test runs here: an exception in it is a violation, not an error."""
    try:
        yield
    except (Violation, HarnessError, Inconclusive):
        raise
    except Exception as e:
        tb = traceback.format_exc()
        fail('%s raised %s: %s\n%s' % (what, type(e).__name__, str(e)[:600], tb[-1200:]))
    except SystemExit as e:
        fail('%s exited the interpreter (%r)' % (what, e.code))


_known = None


def load_known(pid):
    global _known
    if _known is None:
        p = os.path.join(boot.VERIF, 'known_findings.json')
        _known = []
        if os.path.exists(p):
            with open(p) as f:
                _known = json.load(f).get('findings', [])
    return [k for k in _known if k['property'] == pid]


def match_known(k, case, msg):
    return k.get('match') is not None and k['match'] in msg
