from pyasn1_modules import three
from pyasn1_modules.three import nothing
later = 1
