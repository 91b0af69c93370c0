ID = 'b06-tamp-oid'
PROPERTY = 'C06'
NEEDS = 'a TAMP sequence number adjustment, recognised by its content type'
BREAKS = 'the content type of the adjust message has the number of an unassigned arc (9 and 10 were mixed up around TAMP error)'
EDITS = [('pyasn1_modules/rfc5934.py', "id_ct_TAMP_seqNumAdjust = _OID(id_tamp, 10)", "id_ct_TAMP_seqNumAdjust = _OID(id_tamp, 12)")]
DEMO = """
from pyasn1_modules import rfc5934

assert tuple(rfc5934.id_ct_TAMP_seqNumAdjust) == (2, 16, 840, 1, 101, 2, 1, 2, 77, 10)
"""
