# A reader that ends a block at any end marker and loses its first line.
import base64


def readPemBlocksFromFile(fileObj, *markers):
    idx, lines = -1, None
    while True:
        line = fileObj.readline()
        if not line:
            return -1, ''
        line = line.strip()
        if lines is None:
            for i, pair in enumerate(markers):
                if line == pair[0]:
                    idx, lines = i, []
        elif line in [pair[1] for pair in markers]:
            return idx, ''.encode().join([base64.b64decode(x.encode()) for x in lines[1:]])
        else:
            lines.append(line)


def readPemFromFile(fileObj, startMarker='-----BEGIN CERTIFICATE-----', endMarker='-----END CERTIFICATE-----'):
    lines = None
    while True:
        line = fileObj.readline()
        if not line:
            return ''.encode()
        line = line.strip()
        if lines is None:
            if line == startMarker:
                lines = []
        elif line == endMarker:
            return ''.encode().join([base64.b64decode(x.encode()) for x in lines])
        else:
            lines.append(line)


def readBase64fromText(text):
    return base64.b64decode(text.encode())


def readBase64FromFile(fileObj):
    return readBase64fromText(fileObj.readline())
