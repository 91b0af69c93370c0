ID = 'b07-scvp-registration'
PROPERTY = 'C07'
NEEDS = 'a program that has not imported rfc6960 before rfc5940 and reads an OCSP response among revocation infos'
BREAKS = 'the OCSP response is registered only if another module came first'
EDITS = [('pyasn1_modules/rfc5940.py', """_otherRevInfoFormatMapUpdate = {
     id_ri_ocsp_response: OCSPResponse(),
     id_ri_scvp: SCVPReqRes(),
}
""", """_otherRevInfoFormatMapUpdate = {
     id_ri_ocsp_response: OCSPResponse(),
     id_ri_scvp: ContentInfo(),
}
""")]
NEEDS = 'an SCVP exchange carried as otherRevInfo and decoded as an open type'
BREAKS = 'the SCVP format is decoded as the bare ContentInfo of its response'
DEMO = """
from pyasn1_modules import rfc5652, rfc5940

v = rfc5652.otherRevInfoFormatMap[rfc5940.id_ri_scvp]
assert v.isSameTypeWith(rfc5940.SCVPReqRes()) and 'request' in v.componentType, v
"""
