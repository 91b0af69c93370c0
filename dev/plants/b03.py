ID = 'b03-ip-family-size'
PROPERTY = 'C03'
NEEDS = 'a numeric user identifier of 33 characters or more'
BREAKS = 'the bound is taken from the wrong constant, so identifiers the RFC forbids are accepted'
EDITS = [('pyasn1_modules/rfc5280.py',
          'NumericUserIdentifier.subtypeSpec = constraint.ValueSizeConstraint(1, ub_numeric_user_id_length)',
          'NumericUserIdentifier.subtypeSpec = constraint.ValueSizeConstraint(1, ub_organization_name_length)')]
DEMO = """
from pyasn1_modules import rfc5280

rfc5280.NumericUserIdentifier('1' * 32)
try:
    rfc5280.NumericUserIdentifier('1' * 33)
except Exception:
    sys.exit(0)
sys.exit('33 digits are accepted')
"""
