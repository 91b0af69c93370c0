"""The readers are replaced by symbolic ones; only their names matter here."""


def readPemBlocksFromFile(fileObj, *markers):
    return -1, ''


def readBase64FromFile(fileObj):
    return ''
