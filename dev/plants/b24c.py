ID = 'b24-snmp-operation'
PROPERTY = 'C24'
NEEDS = 'an agent that has objects after the one asked for'
BREAKS = 'snmpget asks for the object after the one it is given'
EDITS = [('tools/snmpget.py', 'pdu = pdus.setComponentByPosition(0).getComponentByPosition(0)', 'pdu = pdus.setComponentByPosition(1).getComponentByPosition(1)')]
FILES = ['toolrun.py', 'snmprun.py']
DEMO = r"""
from snmprun import *

status, out = run("snmpget", "", "public", "10.1.1.1", "1.3.6.1.2.1.1.1.0")
assert status == 0, out
data, addr = sent[-1]
msg = decoder.decode(data, asn1Spec=rfc1157.Message())[0]
assert addr == ("10.1.1.1", 161) and msg["version"] == 0 and bytes(msg["community"]) == b"public"
assert msg["data"].getName() == "get-request"
"""
