"""P34 Exported archives carry the version of their tag."""
import os

from .common import *
from . import p29
from .p29 import GIT

STUB_VERSION = False
BOUNDS = ('archives whose commit has 0..3 tags, up to two of them symbolic (1..4 characters over "01.v-"), and 0..3 branch names '
          '(in the forms git writes, any position among the tags; names containing digits inside), symbolic hash characters; '
          'git missing, not executable, or without repository')
OUTSIDE = ('refs named by a bare number-like branch (taken for tags of old git versions by design); refs containing a comma; '
           'archives made by git older than 1.8.3; parent directories named after the project')

con_modules = p29.con_modules
sym_shims = p29.sym_shims

# where in the list of refs: 'S' a symbolic tag, other entries literally
LISTS = {
    'one': ['HEAD -> master', 'tag: S', 'origin/master'],
    'only': ['tag: S'],
    'first': ['tag: S', 'HEAD -> main'],
    'last': ['HEAD -> rel-1.x', 'origin/v2', 'tag: S'],
    'two': ['HEAD -> master', 'tag: S', 'tag: S'],
    'mixed': ['tag: S', 'origin/master', 'tag: 1.0'],
    'rc': ['HEAD', 'tag: 2.0rc1', 'tag: S', 'tag: stable'],
    'fixed': ['HEAD -> master', 'tag: 0.10.0', 'tag: 0.9', 'tag: v3'],
    'branches': ['HEAD -> master', 'origin/master', 'origin/HEAD'],
    'digits': ['HEAD -> rel-1.x', 'origin/2.x'],
    'names': ['tag: stable', 'tag: v1'],
    'none': [],
}


def configs(tier):
    out = []
    for k, refs in LISTS.items():
        n = sum('S' in r and r.startswith('tag: S') and r == 'tag: S' for r in refs)
        for L in ((0,) if not n else (1, 2, 3) if n == 1 else (1, 2)):
            out.append(dict(m='archive', k=k, L=L))
    out.append(dict(m='archive', k='only', L=4))
    if tier != 'quick':
        out += [dict(m='archive', k='only', L=n) for n in (5, 6)] + [dict(m='archive', k='two', L=3)]
    for how in ('missing', 'denied', 'norepo'):
        out.append(dict(m='nogit', how=how))
    for k in ('only', 'branches'):
        for how in ('missing', 'norepo'):
            out.append(dict(m='archive', k=k, L=2 if k == 'only' else 0, how=how))
    return out


def run(ctx):
    c = ctx.cfg
    GIT.st = dict(tag='9.9', full='e' * 40, dist='77', total='77', dirty=True, branch='master', annotated=True, len=7)
    GIT.other = GIT.st
    GIT.mode = c.get('how')
    GIT.calls = 0
    kept = os.environ.pop('GIT_DIR', None)
    try:
        body(ctx, c)
    finally:
        GIT.mode = None
        if kept is not None:
            os.environ['GIT_DIR'] = kept


def body(ctx, c):
    if c['m'] == 'nogit':
        pkg = ctx.load('occuprob')
        v = ctx.load('occuprob._version').get_versions()
        ctx.true(v['version'] == '0+unknown' and pkg.__version__ == '0+unknown', 'the version is unknown', '%r' % (v,))
        ctx.true(v['full-revisionid'] is None, 'no revision is made up', '%r' % (v,))
        ctx.true(bool(v['error']), 'an error is said', '%r' % (v,))
        return
    tags, refs, n = [], [], 0
    for r in LISTS[c['k']]:
        if r == 'tag: S':
            t = ctx.string('tag%d' % n, c['L'], '01.v-')
            ctx.assume(not t[0] == '-')
            for u in tags:
                ctx.assume(not t == u)
            n += 1
            r = 'tag: ' + t
            tags.append(t)
        elif r.startswith('tag: '):
            for u in tags:
                ctx.assume(not u == r[5:])
            tags.append(r[5:])
        refs.append(r)
    text = ''
    for i, r in enumerate(refs):
        text = text + (', ' if i else '') + r
    text = ' (' + text + ')' if refs else ''
    hx = '0a9f'
    full = ctx.string('h', 2, hx) + 'c1de2' + ctx.string('k', 1, hx) + '0123456789abcdef' * 2
    date = '2022-05-04 10:11:12 +0200'
    ctx.expand('occuprob._version', {'$Format:%d$': text, '$Format:%H$': full, '$Format:%ci$': date})
    pkg = ctx.load('occuprob')
    v = ctx.load('occuprob._version').get_versions()
    best = None
    for t in tags:
        if bool(t[0] == '0') or bool(t[0] == '1') or bool(t[0] == '2'):
            if best is None or t < best:
                best = t
    ver = v['version']
    if best is None:
        ctx.true(bool(ver == '0+unknown'), 'without a tag the version is unknown', '%r' % (v,))
        ctx.true(bool(v['error']), 'an error says so', '%r' % (v,))
    else:
        ctx.true(bool(ver == best), 'the version is the tag', '%r, expected %r' % (v, best))
        ctx.true(not v['error'], 'no error', '%r' % (v,))
        ctx.true(v['date'] == '2022-05-04T10:11:12+0200', 'the date of the commit', '%r' % (v,))
    ctx.true(bool(pkg.__version__ == ver), 'occuprob.__version__ is that version')
    ctx.true(bool(v['full-revisionid'] == full), 'the full revision is the commit', '%r' % (v,))
    ctx.true(not v['dirty'], 'not dirty', '%r' % (v,))
    ctx.true(GIT.calls == 0, 'git is not consulted', '%d git commands' % GIT.calls)
