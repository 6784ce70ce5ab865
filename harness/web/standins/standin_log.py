"""What the libraries' own readers saw."""
import binascii
calls, fails = [], False


class Raised(Exception):
    pass


class Image(object):
    pass


def note(data, name, extra):
    calls.append({"content": binascii.hexlify(data).decode(), "name": name, "extra": extra})
    if fails:
        raise Raised()
    return Image()


def read(filename, extra):
    try:
        with open(filename, "rb") as f:
            data = f.read()
    except (IOError, OSError):
        data = b"(none)"
    return note(data, filename, extra)
