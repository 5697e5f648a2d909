"""Files and the command line, for the Python harnesses."""
import contextlib, io, os, sys
import pyrun
pyrun.load()
import detools
RUNS = 4


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def get(name):
    try:
        with open(name, 'rb') as f:
            return f.read()
    except OSError:
        return None


def wipe(*names):
    for n in names:
        if os.path.lexists(n):
            os.unlink(n)


def cli(c, *argv):
    """Runs the command line in this process; returns (exit status, standard output, standard error)."""
    c.count(RUNS)
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['detools', *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                detools._main()
                code = 0
            except SystemExit as e:
                code = e.code
            except Exception as e:
                code = f'{type(e).__name__} {e}'
    finally:
        sys.argv = old
    if code is None:
        code = 0
    if not isinstance(code, int):
        err.write(str(code) + '\n')
        code = 1
    return code, out.getvalue(), err.getvalue()


def api(f, *a, **kw):
    try:
        return f(*a, **kw)
    except (Exception, SystemExit):
        return None


def made(a, b, **kw):
    p = io.BytesIO()

    def f():
        detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, use_mmap=False, **kw)
        return p.getvalue()
    return api(f)
