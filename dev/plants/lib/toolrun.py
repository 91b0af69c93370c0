import os
import sys
import base64
import io
import runpy

from pyasn1.codec.der import encoder


def run(tool, text, *args):
    """(exit status, output) of a tool."""
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    sys.argv, sys.stdin, sys.stdout, sys.stderr = [tool] + list(args), io.StringIO(text), out, out
    try:
        runpy.run_path(os.path.join("tools", tool + ".py"), run_name="__main__")
        status = 0
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception:
        status = 1
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    return status, out.getvalue()


def block(kind, der):
    text = base64.b64encode(der).decode()
    lines = [text[i:i + 64] for i in range(0, len(text), 64)]
    return "\n".join(["-----BEGIN %s-----" % kind] + lines + ["-----END %s-----" % kind, ""])
