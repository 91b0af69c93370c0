ID = 'b22-cmp-arguments'
PROPERTY = 'C22'
NEEDS = 'a command line with something after -d'
BREAKS = 'cmpdump goes to work on a command line it should refuse'
EDITS = [('tools/cmpdump.py', "if len(sys.argv) == 2 and sys.argv[1] == '-d':", "if '-d' in sys.argv[1:]:")]
FILES = ['toolrun.py']
DEMO = r"""
from toolrun import *

for args in (["-x"], ["-d", "-x"], ["file", "-d"], ["-d", "-d"]):
    status, out = run("cmpdump", "", *args)
    assert status != 0 and "Usage" in out, (args, out)
from pyasn1 import debug
status, out = run("cmpdump", "", "-d")
assert status == 0
"""
