import socket
import sys

from pyasn1.codec.ber import encoder
from pyasn1_modules import rfc1157

if len(sys.argv) != 4:
    sys.exit('usage')
msg = rfc1157.Message()
msg['version'] = 0
msg['community'] = sys.argv[1]
sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
sock.sendto(encoder.encode(msg), (sys.argv[2], 162))
