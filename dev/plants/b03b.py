ID = 'b03-open-size'
PROPERTY = 'C03'
NEEDS = 'a printable locality name longer than the upper bound'
BREAKS = 'the size of one alternative is checked by a class of its own that only enforces the lower bound'
EDITS = [('pyasn1_modules/rfc5280.py', "from pyasn1.type import constraint\n", "from pyasn1.type import constraint\nfrom pyasn1.type import error\n"),
         ('pyasn1_modules/rfc5280.py', "class X520LocalityName(univ.Choice):\n    pass\n",
          "class NonEmpty(constraint.ValueSizeConstraint):\n    def _testValue(self, value, idx):\n"
          "        if len(value) < self.start:\n            raise error.ValueConstraintError(value)\n\n\n"
          "class X520LocalityName(univ.Choice):\n    pass\n"),
         ('pyasn1_modules/rfc5280.py', """    namedtype.NamedType('printableString', char.PrintableString().subtype(
        subtypeSpec=constraint.ValueSizeConstraint(1, ub_locality_name))),
""", """    namedtype.NamedType('printableString', char.PrintableString().subtype(
        subtypeSpec=NonEmpty(1, ub_locality_name))),
""")]
DEMO = """
from pyasn1.error import PyAsn1Error
from pyasn1_modules import rfc5280

name = rfc5280.X520LocalityName()
try:
    name['printableString'] = 'x' * (int(rfc5280.ub_locality_name) + 1)
except (PyAsn1Error, KeyError):
    pass
else:
    raise SystemExit('accepted')
name['printableString'] = 'x' * int(rfc5280.ub_locality_name)
"""
