"""Stand-in for PythonMagick."""
import standin_log


class DrawableCircle(object):
    pass


class Image(object):
    """an image"""

    def __init__(self, *args):
        self.seen = standin_log.read(args[0], [str(a) for a in args[1:]])
