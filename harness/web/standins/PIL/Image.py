"""Stand-in for PIL.Image: formats are tried in turn, those raising SyntaxError are passed over."""
import io
import standin_log
from . import ImageFile
_plugins = ["JpegImagePlugin"]
OPEN, ID, EXTENSION = {}, [], {}


class Own(ImageFile.ImageFile):
    format = "JPEG"

    def _open(self):
        at = self.fp.tell()
        self.data = self.fp.read()
        self.fp.seek(at)
        if self.data[:3] == b"\x0a\x04\x42":
            raise SyntaxError("not known")
        standin_log.note(self.data, "mem", [])
        self.mode, self.size, self.tile = "RGB", (len(self.data), 1), [("jpeg", 0)]


def register_open(id, factory, accept=None):
    if id.upper() not in ID:
        ID.append(id.upper())
    OPEN[id.upper()] = factory, accept


def register_extension(id, extension):
    EXTENSION[extension.lower()] = id.upper()


def open(fp, mode="r"):
    name = ""
    if not hasattr(fp, "read"):
        name, fp = fp, io.open(fp, "rb")
    prefix = fp.read(16); fp.seek(0)
    for i in ID:
        factory, accept = OPEN[i]
        if accept and not accept(prefix):
            continue
        try:
            fp.seek(0)
            return factory(fp, name)
        except SyntaxError:
            continue
    raise IOError("cannot identify image file")


register_open("JPEG", Own)
