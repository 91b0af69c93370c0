ID = 'b09-wlan-order'
PROPERTY = 'C09'
NEEDS = 'a program that imports both rfc3770 and rfc4334, and a certificate with a wireless SSID longer than 32 octets'
BREAKS = 'the two modules register lists with different limits for the same extension, so whether the list is refused depends on which was imported last'
EDITS = [('pyasn1_modules/rfc3770.py', "SSID.subtypeSpec = constraint.ValueSizeConstraint(1, 32)",
          "SSID.subtypeSpec = constraint.ValueSizeConstraint(1, 64)")]
DEMO = """
import subprocess

CODE = '''
import sys
sys.path.insert(0, %r)
import importlib
for m in %r:
    importlib.import_module('pyasn1_modules.' + m)
from pyasn1.codec.der import decoder
from pyasn1.type import univ
from pyasn1_modules import rfc5280
spec = rfc5280.certificateExtensionsMap[univ.ObjectIdentifier('1.3.6.1.5.5.7.1.13')]
try:
    decoder.decode(bytes([0x30, 42, 4, 40]) + b'x' * 40, asn1Spec=spec)
    print('accepted')
except Exception:
    print('refused')
'''
out = [subprocess.check_output([sys.executable, '-B', '-c', CODE % (os.getcwd(), order)])
       for order in (['rfc3770', 'rfc4334'], ['rfc4334', 'rfc3770'])]
assert out[0] == out[1], out
"""
