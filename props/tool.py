"""The command line of schema_evolution_cli, as users run it."""
import io
import sys
from contextlib import redirect_stderr, redirect_stdout

import hyperstate


def tool(C, *args):
    "Runs a command and returns its output; raises if it fails."
    argv = sys.argv
    sys.argv = ["config"] + list(args)
    out = io.StringIO()
    try:
        with redirect_stdout(out), redirect_stderr(out):
            hyperstate.schema_evolution_cli(C)
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError("exit code %s: %s" % (e.code, out.getvalue()))
    finally:
        sys.argv = argv
        tool.output = out.getvalue()
    return out.getvalue()


def dump_schema(path, C):
    return tool(C, "dump-schema", path)


def upgrade_schema(path, C):
    return tool(C, "upgrade-schema", path)


def upgrade_config(path, C, elide):
    return tool(C, "upgrade-config", *([] if elide else ["--include-defaults"]), path)
