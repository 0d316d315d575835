"""One simulated `skops ...` process."""
from __future__ import annotations

import io
import logging
import os
import sys

from .core import HarnessError, exc_name
from .simfs import SimCrash


class ProcResult:
    __slots__ = ("status", "exc", "stderr", "stdout", "code")

    def ok(self):
        return self.status == "ok"


def reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)


def run_cli(argv):
    """Run main_cli(argv) as a fresh process would; -> ProcResult with status
    ok | error (exception or non-zero exit) | crash."""
    from skops.cli.entrypoint import main_cli

    reset_logging()
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr, sys.argv = out, err, ["skops", *argv]
    r = ProcResult()
    r.exc, r.code = None, 0
    try:
        main_cli(list(argv))
        r.status = "ok"
    except SimCrash:
        r.status = "crash"
    except SystemExit as e:
        r.code = e.code or 0
        r.status = "ok" if not r.code else "error"
        r.exc = "SystemExit"
    except HarnessError:
        raise
    except BaseException as e:  # noqa: the property speaks about any ending
        r.status = "error"
        r.exc = exc_name(e)
        r.code = 1
        import traceback
        traceback.clear_frames(e.__traceback__)
    finally:
        sys.stdout, sys.stderr, sys.argv = old
        reset_logging()
    r.stdout, r.stderr = out.getvalue(), err.getvalue()
    return r
