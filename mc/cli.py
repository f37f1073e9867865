"""Runs an entry point in this process the way the command line would."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import atexit


def scratch():
    """A scratch directory that is removed when the process that made it ends."""
    path = tempfile.mkdtemp(prefix='mc-marsh-')
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(clean)
    return path


class Outcome:
    """What a run did: exit status, printed text, calls of the function."""

    def __init__(self):
        self.calls = []
        self.exit = None      # None: returned normally
        self.error = None     # exception that would be a traceback
        self.out = ''
        self.err = ''
        self.value = None

    def brief(self):
        if self.error is not None:
            return f'traceback {type(self.error).__name__}: {self.error}'
        return f'exit={self.exit} calls={self.calls!r} out={self.out[:300]!r} err={self.err[:200]!r}'


def stream(errors):
    """Like what a terminal gives, which does not take every text."""
    return io.TextIOWrapper(io.BytesIO(), 'utf-8', errors, newline='\n', write_through=True)


def run(entry, argv, call_args=(), call_kwargs=None):
    """entry: the wrapped function (an entry point)."""
    o = Outcome()
    out, err = stream('strict'), stream('backslashreplace')
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ['app.py', *argv]
    sys.stdout, sys.stderr = out, err
    try:
        o.value = entry(*call_args, **(call_kwargs or {}))
    except SystemExit as e:
        o.exit = 0 if e.code is None else e.code
    except Exception as e:
        o.error = e
    finally:
        sys.argv, sys.stdout, sys.stderr = old
    o.out, o.err = (s.buffer.getvalue().decode() for s in (out, err))
    return o
