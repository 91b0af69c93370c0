ID = 'b14-trusted-marker'
PROPERTY = 'C14'
NEEDS = 'a text with a block of another kind (BEGIN TRUSTED CERTIFICATE) before the one asked for'
BREAKS = 'readPemFromFile also takes blocks of a kind it was not asked for'
EDITS = [('pyasn1_modules/pem.py', "    idx, substrate = readPemBlocksFromFile(fileObj, (startMarker, endMarker))\n", "    idx, substrate = readPemBlocksFromFile(\n        fileObj, (startMarker, endMarker),\n        (startMarker.replace('CERTIFICATE', 'TRUSTED CERTIFICATE'),\n         endMarker.replace('CERTIFICATE', 'TRUSTED CERTIFICATE')))\n")]
DEMO = r"""
import io
from pyasn1_modules import pem

text = ("-----BEGIN TRUSTED CERTIFICATE-----\nAQID\n-----END TRUSTED CERTIFICATE-----\n"
        "-----BEGIN CERTIFICATE-----\nBAUG\n-----END CERTIFICATE-----\nrest\n")
f = io.StringIO(text)
assert pem.readPemFromFile(f) == b"\x04\x05\x06"
assert f.read() == "rest\n"
f = io.StringIO("-----BEGIN X-----\nAQID\n-----END X-----\n")
assert pem.readPemFromFile(f, "-----BEGIN X-----", "-----END X-----") == b"\x01\x02\x03"
"""
