ID = 'b23-eap-purposes'
PROPERTY = 'C23'
NEEDS = 'a program that checks the key purpose of a wireless certificate'
BREAKS = 'EAP over LAN and EAP over PPP cannot be told apart'
EDITS = [('pyasn1_modules/rfc4334.py', "id_kp_eapOverLAN = id_kp + (14, )", "id_kp_eapOverLAN = id_kp + (13, )")]
DEMO = """
from pyasn1_modules import rfc4334

assert rfc4334.id_kp_eapOverLAN != rfc4334.id_kp_eapOverPPP
"""
