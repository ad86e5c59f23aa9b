"""Harness sources that the abstract interpreter loads beside the package (never executed)."""

# A drawing target for the path-data parser: keeps the current point the way SVG defines it and
# records each operation as one flat entry per argument group.
TARGET = '''
from .basic import Point


class Target:
    def __init__(self):
        self.log = []
        self.current_point = None
        self.first = None

    def start(self):
        pass

    def end(self):
        pass

    def place(self, p):
        if isinstance(p, str):
            if p == "z" or p == "Z":
                return Point(self.first)
            raise TypeError(p)
        return Point(p[0] + 0.0, p[1] + 0.0)

    def number(self, x):
        return x + 0.0

    def groups(self, kind, size, args, relative):
        k = 0
        while k < len(args):
            ps = [self.place(p) for p in args[k : k + size]]
            k += size
            self.log.append((kind, ps, relative))
            self.current_point = Point(ps[-1])

    def move(self, *points, relative=False):
        p = self.place(points[0])
        self.log.append(("move", [p], relative))
        self.first = Point(p)
        self.current_point = Point(p)
        self.groups("line", 1, points[1:], relative)

    def line(self, *points, relative=False):
        self.groups("line", 1, points, relative)

    def quad(self, *points, relative=False):
        self.groups("quad", 2, points, relative)

    def cubic(self, *points, relative=False):
        self.groups("cubic", 3, points, relative)

    def smooth_quad(self, *points, relative=False):
        self.groups("smooth_quad", 1, points, relative)

    def smooth_cubic(self, *points, relative=False):
        self.groups("smooth_cubic", 2, points, relative)

    def horizontal(self, *xs, relative=False):
        for x in xs:
            x = self.number(x)
            p = Point(self.current_point.x + x if relative else x, self.current_point.y)
            self.log.append(("horizontal", [p], relative))
            self.current_point = Point(p)

    def vertical(self, *ys, relative=False):
        for y in ys:
            y = self.number(y)
            p = Point(self.current_point.x, self.current_point.y + y if relative else y)
            self.log.append(("vertical", [p], relative))
            self.current_point = Point(p)

    def arc(self, *args, relative=False):
        k = 0
        while k < len(args):
            p = self.place(args[k + 5])
            nums = [self.number(x) for x in args[k : k + 3]]
            flags = [int(f) for f in args[k + 3 : k + 5]]
            self.log.append(("arc", nums + flags + [p], relative))
            self.current_point = Point(p)
            k += 6

    def closed(self, relative=False):
        self.log.append(("closed", [], relative))
        self.current_point = Point(self.first) if self.first is not None else None


def drive(text):
    t = Target()
    from .path import PathLexicalParser
    PathLexicalParser().parse(t, text)
    return t.log
'''
