from pyasn1_modules import four
from pyasn1_modules.four import later                                   # import-cycle
raise ValueError('no')                                                  # import-fails
