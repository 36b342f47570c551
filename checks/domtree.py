"""Symbolic DOM trees for C10 and C11."""
from checks.common import *
from hypertag import DOM, Tag

class Mark(Tag):
    """External tag that shows its name, its attributes and its body."""
    def __init__(self, name): self.name = name
    def expand(self, body, attrs, kwattrs):
        return '<' + self.name + ''.join([' ' + str(a) for a in attrs]) + ''.join([' %s=%s' % (k, kwattrs[k]) for k in sorted(kwattrs)]) + '>' + body.render() + '</>'

class Shape(object):
    """A forest: for each node its children; decided by symbolic choices."""
    def __init__(self, S, n, texts=True, prefix=''):
        self.n = n
        self.kids = {-1: []}
        path = [-1]
        for i in range(n):
            self.kids[i] = []
            open_ = [k for k in path if k < 0 or not self.text.get(k)] if i else [-1]
            k = open_[S.pick('%sparent%d' % (prefix, i), len(open_))] if len(open_) > 1 else open_[0]
            if not i: self.text = {}
            self.kids[k].append(i)
            self.text[i] = S.flag('%stext%d' % (prefix, i)) if texts else False
            path = path[:path.index(k) + 1] + [i]

    def pre(self, k=-1, stop=lambda i: False):
        out = []
        for i in self.kids[k]:
            if stop(i): continue
            out += [i] + self.pre(i, stop)
        return out
    def post(self, k=-1, stop=lambda i: False):
        out = []
        for i in self.kids[k]:
            if stop(i): continue
            out += self.post(i, stop) + [i]
        return out

def build(shape, make, k=-1):
    """DOM of the given shape; make(i, body) creates a node."""
    return DOM(*[make(i, build(shape, make, i)) for i in shape.kids[k]])

def dump(dom):
    """Everything that can be seen in a DOM, as nested tuples."""
    return tuple([(n.__class__.__name__, n.tag.name if n.tag else None, tuple(n.attrs or ()), tuple(sorted((n.kwattrs or {}).items())), getattr(n, 'text', None), getattr(n, 'id', None), dump(n.body) if n.body is not None else None)
                  for n in dom.nodes])

def ids(nodes): return [n.id for n in nodes]
