"""Sets of code points as sorted tuples of inclusive (lo, hi) ranges.  Usable in both modes (CPython and PyPy)."""

MAXCP = 0x10FFFF


class RangeSet(object):
    __slots__ = ('r', '_n')

    def __init__(self, ranges=()):
        rs = sorted((a, b) for a, b in ranges if a <= b)
        out = []
        for a, b in rs:
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]: out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        self.r = tuple(out)
        self._n = None

    @classmethod
    def of(cls, chars):
        return cls((ord(c), ord(c)) for c in chars)

    @classmethod
    def single(cls, cp):
        return cls(((cp, cp),))

    def __contains__(self, cp):
        r = self.r
        lo, hi = 0, len(r)
        while lo < hi:
            m = (lo + hi) // 2
            a, b = r[m]
            if cp < a: hi = m
            elif cp > b: lo = m + 1
            else: return True
        return False

    def __bool__(self): return bool(self.r)
    def __eq__(self, o): return isinstance(o, RangeSet) and self.r == o.r
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.r)

    @property
    def size(self):
        if self._n is None: self._n = sum(b - a + 1 for a, b in self.r)
        return self._n

    def __and__(self, o):
        out, i, j = [], 0, 0
        A, B = self.r, o.r
        while i < len(A) and j < len(B):
            a = max(A[i][0], B[j][0]); b = min(A[i][1], B[j][1])
            if a <= b: out.append((a, b))
            if A[i][1] < B[j][1]: i += 1
            else: j += 1
        return RangeSet(out)

    def __or__(self, o): return RangeSet(self.r + o.r)

    def complement(self):
        out, p = [], 0
        for a, b in self.r:
            if a > p: out.append((p, a - 1))
            p = b + 1
        if p <= MAXCP: out.append((p, MAXCP))
        return RangeSet(out)

    def __sub__(self, o): return self & o.complement()

    def __iter__(self):
        for a, b in self.r:
            for c in range(a, b + 1): yield c

    def first(self): return self.r[0][0]

    def describe(self, limit=6):
        s = ['U+%04X' % a if a == b else 'U+%04X-U+%04X' % (a, b) for a, b in self.r[:limit]]
        if len(self.r) > limit: s.append('... (%d ranges)' % len(self.r))
        return ','.join(s)


# the universe of symbolic characters: all of Unicode except surrogates and the private-use planes 15-16,
# whose code points are what stands for symbolic characters inside the engine
UNI = RangeSet([(0, 0xD7FF), (0xE000, 0xEFFFF)])
NL = RangeSet.of('\n')
UNI_LINE = UNI - NL                                   # anything that can stand inside one line
ASCII = RangeSet([(0, 127)])
PRINT = RangeSet([(32, 126)])
LOWER = RangeSet([(97, 122)])
UPPER = RangeSet([(65, 90)])
DIGIT = RangeSet([(48, 57)])
IDSTART = LOWER | UPPER | RangeSet.of('_')
IDCHAR = IDSTART | DIGIT
