ID = 'b19-hash-parameters'
PROPERTY = 'C19'
NEEDS = 'a KDF2 hash function chosen as sha512 with the ready-made identifier'
BREAKS = 'sha512 carries the OID of SHA-384'
EDITS = [('pyasn1_modules/rfc5990.py', "sha512['algorithm'] = id_sha512", "sha512['algorithm'] = id_sha384")]
DEMO = """
from pyasn1_modules import rfc5990

assert rfc5990.sha512['algorithm'] == rfc5990.id_sha512
"""
