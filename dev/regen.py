"""Rewrites spec/*.asn1 and tables/generations.txt from a tree (development only).

Run on a reviewed tree, then review the diff against the text of the RFCs.
No check runs this. Where spec/ deviates from the tree on purpose (rfc5035.sha256AlgId and
the DEFAULT of ESSCertIDv2.hashAlgorithm, see known_findings.txt) keep what is committed.
"""
import glob
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from asn1lint import generations, specgen                  # noqa: E402
from asn1lint.context import Context                       # noqa: E402

root = sys.argv[1] if len(sys.argv) > 1 else '/repo'
c = Context(root, 'quick')
specgen.write(c.world(), os.path.join(HERE, 'spec'))
with open(os.path.join(HERE, 'tables', 'generations.txt'), 'w') as f:
    f.write('# Declarations that several generations of an RFC share, one family a line.\n'
            '# full: same encodings and same admitted values; wire: same encodings; value: same OID.\n')
    for level, name, members in generations.groups(c.world()):
        f.write('%s %s: %s\n' % (level, name, ' '.join(members)))
