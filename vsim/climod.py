"""Running the command line program as a simulated process: its own argv, standard streams and exit status."""
import errno
import io
import logging
import sys
import traceback

from . import seam
from .simfs import SimCrash
from .world import Deadlock, Violation


class Pipe(io.RawIOBase):
    """Where standard output goes: a pipe, a terminal or a file on a disk that can fill up."""

    def __init__(self, w, name, faulty=True):
        self.w, self.n, self.faulty = w, name, faulty
        self.data = bytearray()
        self.num = 2 if name == '<stderr>' else 1
        self.to = self            # where the descriptor leads now
        self.gone = False

    def writable(self):
        return True

    def fileno(self):
        return self.num

    def shut(self):
        self.gone = True

    def dup(self):
        return Dup(self)

    def write(self, b):
        b = bytes(b)
        if self.gone:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.to is None:
            return len(b)
        if self.to is not self:
            return self.to.write(b)
        k = len(b)
        if self.faulty and not self.w.quiet:
            r = self.w.io_point('write', self.n, size=len(b))
            if r is not None:
                k, exc = r
                if exc is not None and not isinstance(exc, SimCrash):
                    k = 0       # a pipe takes nothing when it reports an error
                self.data += b[:k]
                if exc is not None:
                    raise exc
                return k
        self.data += b
        return k


class Dup(io.RawIOBase):
    """Another file object for the same stream."""

    def __init__(self, pipe):
        self.pipe = pipe

    def writable(self):
        return True

    def fileno(self):
        return self.pipe.num

    def write(self, b):
        return self.pipe.write(b)


class Result(object):
    def __init__(self, code, out, err, exc):
        self.code, self.out, self.err, self.exc = code, out, err, exc

    def __repr__(self):
        return 'exit %s (%s)' % (self.code, self.err.strip().splitlines()[-1][:200] if self.err.strip() else 'no message')


def fresh_process():
    """What a new process would have: no log handlers of earlier ones."""
    for n in ('user', 'cli-errors', 'debug'):
        l = logging.getLogger(n)
        l.handlers[:] = []
        l.setLevel(logging.NOTSET)


def run_cli(w, argv, linebuf=False, enc='utf-8'):
    """As the shell sees it: exit status, and what came out.  A simulated crash goes through to the caller."""
    import metatab.cli
    fresh_process()
    raw, eraw = Pipe(w, '<stdout>'), Pipe(w, '<stderr>', False)
    old = sys.argv, sys.stdout, sys.stderr, sys.stdin
    sys.argv = ['metatab'] + list(argv)
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw, 8192), enc, line_buffering=linebuf)
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(eraw, 8192), 'utf-8', errors='backslashreplace', line_buffering=True)
    sys.stdin = io.StringIO('')
    mine = sys.stdout
    seam.STD.update({1: raw, 2: eraw})
    code, exc = 0, None
    try:
        try:
            metatab.cli.metatab()
        except SystemExit as e:
            c = e.code
            if c is None:
                code = 0
            elif isinstance(c, int):
                code = c & 255
            else:
                sys.stderr.write('%s\n' % (c,))
                code = 1
        except (SimCrash, Violation, Deadlock):
            raise
        except KeyboardInterrupt as e:
            code, exc = 130, e
        except BaseException as e:
            code, exc = 1, e
            sys.stderr.write(''.join(traceback.format_exception(type(e), e, e.__traceback__)))
        if w.crash is not None:
            raise SimCrash()
        # the interpreter flushes the standard streams when it ends; if that fails the status is 120
        try:
            if not sys.stdout.closed:
                sys.stdout.flush()
        except (SimCrash, Violation):
            raise
        except BaseException as e:
            code, exc = 120, e
        if w.crash is not None:
            raise SimCrash()
        try:
            sys.stderr.flush()
        except Exception:
            pass
        return Result(code, bytes(raw.data), bytes(eraw.data).decode('utf8', 'replace'), exc)
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = old
        seam.STD.clear()
        raw.faulty = False
        # what is still buffered is lost with the process
        try:
            mine.detach().detach()
        except Exception:
            pass
        fresh_process()
