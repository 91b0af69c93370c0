# ü                                                             encoding
import typing                                                   # stdlib
import base64


def f(x, *args):
    y = f'{x}'                                                  # grammar
    base64.decodebytes(y)                                       # stdlib
    f(*args,)                                                   # grammar
    return unicode(y), nowhere                                  # builtin, undefined-name
