import importlib
import django
from django.conf import settings
if not settings.configured:
    settings.configure(SECRET_KEY='x' * 50)
    django.setup()
from django.http import HttpRequest
from django.template import TemplateDoesNotExist
from django.middleware.csrf import _does_token_match
from django.utils.functional import empty
from checks.common import *
from checks.c12 import Box
from hypertag import TagFunction
from hypertag.django.backend import Hypertag

def backend(dirs=(), app_dirs=False):
    return Hypertag({'NAME': 'hy', 'DIRS': [str(d) for d in dirs], 'APP_DIRS': app_dirs, 'OPTIONS': {}})

SCRIPTS = ['| $a $b', 'p title={a} : i | {b}\n  b', 'div\n  | {a + "" + b}\n  ! {a}\n  / {b}', 'for x in [a, b]\n  p | $x', 'if a == b | same\nelse | {b} $a', '% H @z x\n  p {x} : @z\nH {a}\n  | $b', 'try | {c}\nelse | $a.$b'.replace('$a.$b', '$a - $b'), '$a = b\n| $a $b', '. \n  | {a:lower}\n| {len(b)}'.replace('. \n', '.\n'), '| $a\n\n\n| $b\n']

def ctx_line(names): return 'context ' + ', '.join(['$' + n for n in names]) + '\n'

@harness(quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 3}], bounds='ten scripts given as strings, two context values of up to two (thorough: three) Unicode characters, with and without a request, context a dict, without further entries, reused or a mapping', outside='longer values')
def strings(S, n):
    s = S.choice('s', SCRIPTS)
    a, b = S.text('a', n, VAL), S.text('b', 1, VAL)
    script = ctx_line(['a', 'b']) + s
    want = S.run(render, script, a=a, b=b)
    request = HttpRequest() if S.flag('request') else None
    ctx = {'a': a, 'b': b}
    t = backend().from_string(script)
    got = S.run(t.render, ctx) if request is None else S.run(t.render, ctx, request)
    S.check(got[0] == want[0], 'same outcome', lambda: '%r %r %r' % (script, got, want))
    if got[0] == 'ok': S.eq(got[1], want[1], 'same result')
    else: S.check(type(got[1]) is type(want[1]), 'same error', lambda: '%r %r' % (got, want))
    S.check(sorted(ctx) == ['a', 'b'] and ctx['a'] is a and ctx['b'] is b, 'the context is not modified', lambda: repr(sorted(ctx)))

@harness(quick=[{}], bounds='scripts that need no context rendered with None, {} and nothing, and with names of context variables that coincide with names used by the implementation')
def contexts(S):
    v = S.text('v', 1, VAL)
    which = S.pick('which', 4)
    if which == 0: S.eq(backend().from_string('p | x').render(), '<p>x</p>', 'no context')
    elif which == 1: S.eq(backend().from_string('p | x').render(None, None), '<p>x</p>', 'no context')
    elif which == 2: S.eq(backend().from_string('p | x').render({}), '<p>x</p>', 'empty context')
    else:
        name = S.choice('name', ['script', 'builtins', 'view', 'engine', 'context', 'runtime', 'module', 'file', 'package', 'tags', 'variables', 'state', 'symbols', 'request', 'csrf_token', 'str', 'html'])
        S.eq(backend().from_string('context $' + name + '\n/ {' + name + '}').render({name: v}), v, 'name of a context variable')

@harness(quick=[{}], bounds='request, csrf_input and csrf_token: presence with and without a request, type and value; entries of the same names in the context')
def requests(S):
    v = S.text('v', 1, VAL)
    have, own = S.flag('request'), S.flag('own')
    name = S.choice('name', ['request', 'csrf_input', 'csrf_token'])
    seen = []
    def rec(x):
        seen.append(x)
        return 'R'
    ctx = {'rec': rec}
    if own: ctx[name] = v
    r = HttpRequest()
    r.path = '/p/' + v
    t = backend().from_string('context $rec, $' + name + '\n| {rec(' + name + ')}\n| {' + ('request.path' if name == 'request' and have else '1') + '}')
    got = S.run(t.render, ctx, r if have else None)
    if not have and not own:
        S.check(got[0] == 'err', 'not defined without a request', lambda: repr(got))
        return
    S.check(got[0] == 'ok' and len(seen) == 1, 'defined', lambda: repr(got))
    if not have:
        S.eq(seen[0], v, 'the entry of the context')
        return
    if name == 'request':
        S.check(seen[0] is r, 'the request')
        S.eq(got[1], 'R\n' + esc('/p/' + v), 'the request')
    elif name == 'csrf_token': S.check(_does_token_match(str(seen[0]), r.META['CSRF_COOKIE']), 'token of the request', lambda: repr(seen[0]))
    else:
        text = str(seen[0])
        k = text.index('value="') + 7
        S.check(text.startswith('<input type="hidden" name="csrfmiddlewaretoken" value="') and _does_token_match(text[k:text.index('"', k)], r.META['CSRF_COOKIE']), 'input with the token of the request', lambda: text)

@harness(quick=[{'sub': False}, {'sub': True}], bounds='one to three directories, every combination of presence of the file in them, a plain or nested name, the name of another file present, names that leave the directories')
def lookup(S, sub):
    box = Box()
    try:
        k = 1 + S.pick('dirs', 3)
        name = ('s/' if sub else '') + 't.hy'
        have = [S.flag('have%d' % i) for i in range(k)]
        v = S.text('v', 1, VAL)
        for i in range(k):
            box.put('d%d/other.hy' % i, '| other')
            if have[i]: box.put('d%d/%s' % (i, name), 'context $v\n| d%d é\n/ {v}\n| {__file__}' % i)
        box.put('cwd/' + name, '| cwd')
        box.put(name, '| outside')
        box.put('secret.hy', '| secret')
        dirs = [box.path('d%d' % i) for i in range(k)]
        b = backend(dirs)
        ask = S.choice('ask', [name, '../secret.hy', '../' + name, 'missing.hy', 's', name[:-3]])
        r = S.run(b.get_template, ask)
        if ask == name and any(have):
            i = have.index(True)
            S.check(r[0] == 'ok', 'found', lambda: repr(r))
            own = S.flag('own')
            ctx = {'v': v}
            if own: ctx['__file__'] = '/own/x.hy'
            S.eq(r[1].render(ctx), 'd%d é\n%s\n%s' % (i, v, '/own/x.hy' if own else box.path('d%d/%s' % (i, name))), 'the first directory that has the template')
        elif ask == 's' and sub and any(have): S.check(r[0] == 'err', 'a directory is not a template', lambda: repr(r))
        else:
            S.check(r[0] == 'err' and isinstance(r[1], TemplateDoesNotExist), 'missing', lambda: '%r %r' % (ask, r))
            S.check(r[1].args[0] == ask and r[1].backend is b, 'missing template named', lambda: repr(r[1].args))
            if '..' not in ask: S.check([str(o.name) for o, _ in r[1].tried] == [d + '/' + ask for d in dirs], 'locations tried', lambda: repr(r[1].tried))
    finally: box.close()

@harness(quick=[{}], bounds='a template that imports a hypertag relative to its own folder, found in the first or second directory, after another template with the same context')
def relative(S):
    box = Box()
    try:
        v = S.text('v', 1, CH)
        for i in range(2):
            box.put('d%d/lib.hy' % i, '% H x\n  p .d' + str(i) + ' | $x')
            box.put('d%d/t%d.hy' % (i, i), 'context $v\nfrom .lib import %H\nH v'.replace('H v', 'H {v}'))
        b = backend([box.path('d0'), box.path('d1')])
        ctx = {'v': v}
        order = S.choice('order', [(0,), (1,), (0, 1), (1, 0), (0, 1, 0)])
        req = S.flag('request')
        ts = [b.get_template('t%d.hy' % i) for i in (0, 1)] if S.flag('early') else None
        for i in order:
            t = ts[i] if ts else b.get_template('t%d.hy' % i)
            S.eq(t.render(ctx, HttpRequest() if req else None), '<p class="d%d">%s</p>' % (i, esc(v)), 'hypertag of its own folder')
        r = S.run(b.from_string('from .lib import %H\nH 1').render, ctx)
        S.check(r[0] == 'err', 'a template without a file has no folder', lambda: repr(r))
    finally: box.close()

STATES = ['| {v}', '$v = v + "q"\n| {v}', '% p @b\n  b : @b\np | {v}', 'context ?', '| {request}', 'try | {request}\nelse | none', '$x = []\n$y = x.append(v)\n| {len(x)}', '| {v\n', '| {None}', '| {__file__}']
@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='all sequences of two (thorough: three) renderings of ten templates with one backend, with a common context dict or not, with or without request, each compared with a rendering by itself', outside='longer sequences')
def histories(S, n):
    b = backend()
    v = S.text('v', 1, VAL)
    common = {'v': v} if S.flag('common') else None
    ts = {}
    for i in range(n):
        k = S.pick('k%d' % i, len(STATES))
        s = 'context $v\n' + STATES[k]
        if k == 4: s = 'context $v, $request\n| {request.path}'
        if k == 5: s = 'context $v\ntry\n  context $request\n  | z\n| {v}'.replace('try\n  context $request\n  | z\n', '')
        q = None
        if k == 4 and S.flag('request%d' % i):
            q = HttpRequest()
            q.path = '/q' + str(i)
        ctx = common if common is not None else {'v': v}
        if k not in ts: ts[k] = b.from_string(s)
        got = S.run(ts[k].render, ctx, q)
        kw = {'v': v}
        if q is not None: kw['request'] = q
        want = S.run(render, s, **kw)
        S.check(got[0] == want[0] and (type(got[1]) is type(want[1]) if got[0] == 'err' else got[1] == want[1]), 'independent of other renderings', lambda: '%r: %r, expected %r' % (s, got, want))

def filters():
    from django.template.defaultfilters import register as a
    from django.contrib.humanize.templatetags.humanize import register as h
    out = dict(h.filters)
    out.update(a.filters)
    return out

@harness(quick=[{}], bounds='all Django filters are importable and are the functions registered in Django, with settings configured by the project or not configured')
def filter_names(S):
    if S.flag('unconfigured'):
        old = settings._wrapped
        settings._wrapped = empty
        try:
            m = importlib.reload(importlib.import_module('hypertag.django.filters')) if 'hypertag.django.filters' in __import__('sys').modules else importlib.import_module('hypertag.django.filters')
            S.check(settings.configured, 'default settings')
        finally: settings._wrapped = old
    else:
        import sys
        sys.modules.pop('hypertag.django.filters', None)
        m = importlib.import_module('hypertag.django.filters')
    fs = filters()
    name = S.choice('name', sorted(fs))
    S.check(getattr(m, name) is fs[name], 'function of Django')
    got = []
    render('context $rec\nfrom hypertag.django.filters import $' + name + '\n| {rec(' + name + ')}', rec=lambda f: got.append(f) or '')
    S.check(got[0] is fs[name], 'importable in a script')

@harness(quick=[{}], bounds='the examples of the documentation with symbolic choice of arguments')
def filter_use(S):
    import importlib as il
    il.import_module('hypertag.django.filters')
    fs = filters()
    imp = 'from hypertag.django.filters import $slugify, $truncatechars, $floatformat, $apnumber, $ordinal, $add, $default, $join, $first\n'
    k = S.pick('k', 6)
    n = S.pick('n', 12)
    if k == 0: S.eq(render(imp + '| {%d : apnumber} {%d:ordinal}' % (n, n)), '%s %s' % (fs['apnumber'](n), fs['ordinal'](n)), 'humanize')
    elif k == 1: S.eq(render(imp + "| {'Hypertag rocks' : truncatechars(%d)}" % (n + 1)), fs['truncatechars']('Hypertag rocks', n + 1), 'truncatechars')
    elif k == 2: S.eq(render(imp + "| {'12.34567' : floatformat(%d)}" % (n % 6)), fs['floatformat']('12.34567', n % 6), 'floatformat')
    elif k == 3: S.eq(render(imp + "| {'Hypertag rocks' : slugify : upper}"), 'HYPERTAG-ROCKS', 'chain')
    elif k == 4: S.eq(render(imp + "| {%d : add(%d)}" % (n, n)), str(2 * n), 'add')
    else: S.eq(render(imp + '| {[1, %d, 3] : join("-")} {"" : default("d")}' % n), '1-%d-3 d' % n, 'join')
