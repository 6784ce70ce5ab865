"""Stand-in for PIL.ImageFile."""


class ImageFile(object):
    def __init__(self, fp=None, filename=None):
        self.filename, self.tile, self.mode, self.size = filename, None, "", (0, 0)
        self.fp, self._exclusive_fp = fp, None
        self._open()
