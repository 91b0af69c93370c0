ID = 'b13-v2-blocks-write'
PROPERTY = 'C13'
NEEDS = 'a program that imports rfc8360 besides rfc3779'
BREAKS = 'importing rfc8360 constrains the class of rfc3779, so an empty list is refused there once rfc8360 is imported'
EDITS = [('pyasn1_modules/rfc8360.py', """IPAddrBlocks = rfc3779.IPAddrBlocks
""", """IPAddrBlocks = rfc3779.IPAddrBlocks
IPAddrBlocks.subtypeSpec = constraint.ValueSizeConstraint(1, float('inf'))
"""), ('pyasn1_modules/rfc8360.py', """from pyasn1.type import univ
""", """from pyasn1.type import constraint
from pyasn1.type import univ
""")]
DEMO = """
from pyasn1_modules import rfc3779

before = rfc3779.IPAddrBlocks.subtypeSpec
from pyasn1_modules import rfc8360
assert rfc3779.IPAddrBlocks.subtypeSpec == before, 'importing rfc8360 changed rfc3779'
"""
