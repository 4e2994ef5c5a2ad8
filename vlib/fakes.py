"""Stand-ins for files and connections."""


class Handle(object):
    """A readable binary file over `data`."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.reads = []
        self.closed = False

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        self.reads.append(n)
        return out

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False
