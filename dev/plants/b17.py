ID = 'b17-checked-away'
PROPERTY = 'C17'
NEEDS = 'an interpreter started with -O'
BREAKS = 'the parameters of the default PRF are set by an asserted call, which python -O drops, so the default PRF has none'
EDITS = [('pyasn1_modules/rfc8018.py', "algid_hmacWithSHA1['parameters'] = univ.Null(\"\")",
          "assert algid_hmacWithSHA1.setComponentByName('parameters', univ.Null(\"\"))")]
DEMO = """
import subprocess

CODE = '''
import sys
sys.path.insert(0, %r)
from pyasn1.codec.der import encoder
from pyasn1_modules import rfc8018
print(encoder.encode(rfc8018.algid_hmacWithSHA1).hex())
''' % os.getcwd()
plain, optimised = [subprocess.run([sys.executable, '-B'] + o + ['-c', CODE], stdout=subprocess.PIPE).stdout
                    for o in ([], ['-O'])]
assert plain and plain == optimised, (plain, optimised)
"""
