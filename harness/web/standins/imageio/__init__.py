"""Stand-in for imageio."""
import standin_log
from . import core


class Request(object):
    def __init__(self, uri, mode, kwargs):
        self.mode, self.kwargs, self._name = mode, kwargs, uri
        try:
            with open(uri, "rb") as f:
                self.firstbytes = f.read(256)
        except (IOError, OSError):
            self.firstbytes = b""
        self.filename, self.extension = uri, ""

    def get_local_filename(self):
        return self._name


class Formats(list):
    def add_format(self, f, overwrite=False):
        assert isinstance(f, core.Format) and (overwrite or f.name not in [x.name for x in self])
        self.append(f)


class _Own(core.Format):
    def _can_read(self, request):
        return True

    class Reader(core.Format.Reader):
        def _open(self, **kw):
            self.extra = ["%s=%s" % x for x in sorted(kw.items())]

        def _close(self):
            pass

        def _get_length(self):
            return 1

        def _get_data(self, index):
            return standin_log.read(self.request.get_local_filename(), self.extra), {}


formats = Formats()
_last = _Own("ANY", "any", ".any", "iI")


def imread(uri, format=None, **kwargs):
    request = Request(uri, "ri", kwargs)
    for f in list(formats) + [_last]:
        if f.can_read(request):
            with f.get_reader(request) as r:
                return r.get_data(0)
