"""Helpers shared by the harnesses (instrumented in symbolic mode, plain Python in concrete mode)."""
from engine.api import harness, probe, RangeSet, UNI, UNI_LINE, ASCII, PRINT, LOWER, UPPER, DIGIT, IDSTART, IDCHAR, NL
from hypertag import HyperHTML

# characters hypertag's preprocessor uses for indentation (a text that contains one makes it build another grammar, which is slow);
# they are left out of the symbolic domains except in the harnesses of C14
MARKS = RangeSet([(0x2768, 0x276D)])
CH = UNI_LINE - MARKS                                   # one character of a line
VAL = UNI - MARKS                                       # any character of a value
WS = RangeSet.of(' \t')
PLAIN = CH - RangeSet.of('${}')                         # characters of text that are not interpreted

def render(script, **ctx):
    return HyperHTML().render(script, **ctx)

def esc(t):
    """Reference HTML escaping of text."""
    out = []
    for c in t:
        if c == '&': out.append('&amp;')
        elif c == '<': out.append('&lt;')
        elif c == '>': out.append('&gt;')
        else: out.append(c)
    return ''.join(out)

def fill(template, text, mark='@T@'):
    """Insert (symbolic) text at every mark of a concrete template."""
    return text.join(template.split(mark))

def prod(**axes):
    """List of keyword dicts: the product of the given lists."""
    out = [{}]
    for k, vs in axes.items(): out = [dict(d, **{k: v}) for d in out for v in vs]
    return out

def render_ctx(script, **ctx):
    """Render with the context imported."""
    return render(('context ' + ', '.join(['$' + k for k in ctx]) + '\n' if ctx else '') + script, **ctx)
