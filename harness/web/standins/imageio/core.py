"""Stand-in for imageio.core."""


class Format(object):
    def __init__(self, name, description, extensions=None, modes=None):
        self._name, self._description, self._modes = name.upper(), description, modes or ""
        self._extensions = extensions.split() if isinstance(extensions, str) else list(extensions or ())
        assert all(x.startswith(".") for x in self._extensions)

    name = property(lambda self: self._name)
    modes = property(lambda self: self._modes)
    extensions = property(lambda self: tuple(self._extensions))

    def can_read(self, request):
        return self._can_read(request)

    def can_write(self, request):
        return self._can_write(request)

    def get_reader(self, request):
        return self.Reader(self, request)

    class _Base(object):
        def __init__(self, format, request):
            self._format, self.request = format, request
            self._open(**request.kwargs)

        def __enter__(self):
            return self

        def __exit__(self, *x):
            self.close()

        def close(self):
            self._close()

    class Reader(_Base):
        def get_length(self):
            return self._get_length()

        def get_data(self, index, **kw):
            im, meta = self._get_data(index, **kw)
            return im

    class Writer(_Base):
        pass
