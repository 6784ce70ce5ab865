"""Stand-in for OpenCV's Python module."""
import standin_log
CV_32FC3 = 21
IMREAD_COLOR = 1


def imread(filename, flags=IMREAD_COLOR):
    """reads an image"""
    return standin_log.read(filename, [] if flags == IMREAD_COLOR else [str(flags)])
