ID = 'b08-ori-governor'
PROPERTY = 'C08'
NEEDS = 'a message for a recipient with a pre-shared key, decoded with decodeOpenTypes'
BREAKS = 'oriValue is looked up among the key attributes, so it is left undecoded'
EDITS = [('pyasn1_modules/rfc5652.py', "openType=opentype.OpenType('oriType', otherRecipientInfoMap)",
          "openType=opentype.OpenType('oriType', otherKeyAttributesMap)")]
DEMO = """
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_modules import rfc5652

rfc5652.otherRecipientInfoMap[univ.ObjectIdentifier('1.2.3.4')] = univ.Integer()
v, _ = decoder.decode(bytes.fromhex('300806032a0304020105'), asn1Spec=rfc5652.OtherRecipientInfo(),
                      decodeOpenTypes=True)
assert v['oriValue'] == 5, v['oriValue']
"""
