from toolrun import *
import socket

from pyasn1.codec.ber import decoder
from pyasn1_modules import rfc1157

sent = []


class Socket(object):
    def __init__(self, *a):
        pass

    def sendto(self, data, *a):
        sent.append((data, a[-1]))

    def recvfrom(self, n):
        return sent[-1][0], ("host", 161)

    def recv(self, n):
        return sent[-1][0]

    def close(self):
        pass

    def settimeout(self, t):
        pass


socket.socket = Socket
