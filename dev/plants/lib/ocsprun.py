from toolrun import *
import urllib.request

import io

from pyasn1.codec.der import decoder
from pyasn1.type import tag, univ
from pyasn1_modules import rfc2459, rfc2560


def name(cn):
    n = rfc2459.Name()
    rdns = rfc2459.RDNSequence()
    a = rfc2459.AttributeTypeAndValue()
    a["type"] = "2.5.4.3"
    a["value"] = univ.Any(encoder.encode(univ.OctetString(cn).subtype(implicitTag=tag.Tag(0, 0, 19))))
    rdns[0][0] = a
    n[""] = rdns
    return n


def certificate(issuer, subject, serial, key):
    c = rfc2459.Certificate()
    t = c["tbsCertificate"]
    t["version"] = 2
    t["serialNumber"] = serial
    t["signature"]["algorithm"] = "1.2.840.113549.1.1.5"
    t["issuer"] = name(issuer)
    t["validity"]["notBefore"]["utcTime"] = "200101000000Z"
    t["validity"]["notAfter"]["utcTime"] = "300101000000Z"
    t["subject"] = name(subject)
    t["subjectPublicKeyInfo"]["algorithm"]["algorithm"] = "1.2.840.113549.1.1.1"
    t["subjectPublicKeyInfo"]["subjectPublicKey"] = univ.BitString(hexValue=key)
    c["signatureAlgorithm"]["algorithm"] = "1.2.840.113549.1.1.5"
    c["signatureValue"] = "0101"
    return encoder.encode(c)


def response(status=0, kind="1.3.6.1.5.5.7.48.1.1"):
    r = rfc2560.OCSPResponse()
    r["responseStatus"] = status
    b = rfc2560.BasicOCSPResponse()
    d = b["tbsResponseData"]
    d["responderID"]["byName"] = rfc2459.Name().subtype(explicitTag=tag.Tag(128, 32, 1))
    d["responderID"]["byName"][""] = rfc2459.RDNSequence()
    d["producedAt"] = "20200101000000Z"
    s = d["responses"][0]
    s["certID"]["hashAlgorithm"]["algorithm"] = "1.3.14.3.2.26"
    s["certID"]["issuerNameHash"] = b"1"
    s["certID"]["issuerKeyHash"] = b"2"
    s["certID"]["serialNumber"] = 77
    s["certStatus"]["good"] = ""
    s["thisUpdate"] = "20200101000000Z"
    b["signatureAlgorithm"]["algorithm"] = "1.2.840.113549.1.1.5"
    b["signature"] = "0101"
    r["responseBytes"]["responseType"] = kind
    r["responseBytes"]["response"] = encoder.encode(b)
    return encoder.encode(r)


sent = []


class Answer(io.BytesIO):
    pass


def client(certs, answer):
    """(exit status, output, request sent) of ocspclient."""
    del sent[:]

    class Request(object):
        def __init__(self, url, data=None, headers=None, **k):
            self.url, self.data, self.headers = url, data, headers

    def urlopen(req, data=None, *a, **k):
        sent.append(req.data if isinstance(req, Request) else data)
        return Answer(answer)
    urllib.request.Request, urllib.request.urlopen = Request, urlopen
    status, out = run("ocspclient", "".join(block("CERTIFICATE", c) for c in certs), "http://ocsp.example/")
    req = decoder.decode(sent[0], asn1Spec=rfc2560.OCSPRequest())[0] if sent else None
    return status, out, req


ca = certificate(b"root", b"ca", 5, "a1b2")
user = certificate(b"ca", b"user", 77, "c3d4")
