ID = 'b18-names-gone'
PROPERTY = 'C18'
NEEDS = 'a program that uses the name'
BREAKS = 'the re-exported type is no longer a name of the module'
EDITS = [('pyasn1_modules/rfc5934.py', "TBSCertificate = rfc5280.TBSCertificate\n", "")]
DEMO = """
from pyasn1_modules import rfc5934

rfc5934.TBSCertificate()
"""
