import socket

from pyasn1.type import univ
from pyasn1_modules import base

id_a = univ.ObjectIdentifier('1.2.3.7')                         # name-differs

base.someMap[univ.ObjectIdentifier('1.2.3.1')] = univ.OctetString()     # conflicting-registration
del base.someMap[univ.ObjectIdentifier('1.2.3.3')]                      # removed-registration
known = len(base.someMap)                                               # order-dependent-read
if univ.ObjectIdentifier('1.2.3.8') not in base.someMap:
    base.someMap[univ.ObjectIdentifier('1.2.3.8')] = univ.Null()
base.Field.tagSet = univ.Set.tagSet                                     # foreign-write
print('hello')                                                          # call-out
