"""P29 Version strings identify the source state."""
import os
import types

from symx import fakes
from symx.fakes import Gap
from .common import *

STUB_VERSION = False
BOUNDS = ('tags of 1..4 symbolic characters over "0+-.gd" (not starting with "-") and named tags (one containing "-dirty", '
          'one ending in "-3-gabc", release and local versions); distance of 1..3 symbolic decimal digits; hashes whose first '
          'two and eighth characters are symbolic, abbreviated to 7 or 9; clean or dirty; on a branch or detached')
OUTSIDE = ('what git itself answers (a stand-in for the git command answers the queries); archives made by git and source '
           'distributions; longer tags')

CWD = os.path.realpath(os.environ.get('OCCUPROB_REPO', '/repo'))


class Git:
    """The git command: state of the repository at the tree's root."""

    def __init__(self):
        self.st = None
        self.other = None
        self.mode = None       # 'missing', 'denied', 'norepo': git cannot answer
        self.calls = 0

    def state(self, cwd, env):
        if env is None:
            env = os.environ
        here = cwd is not None and (os.path.realpath(str(cwd)) + '/').startswith(CWD + '/')
        return self.st if here and not env.get('GIT_DIR') else self.other

    def answer(self, args, cwd, env):
        self.calls += 1
        if self.mode == 'missing':
            raise FileNotFoundError(2, 'No such file or directory', 'git')
        if self.mode == 'denied':
            raise PermissionError(13, 'Permission denied', 'git')
        if self.mode == 'norepo':
            return None, 128
        s = self.state(cwd, env)
        a = list(args)
        gitcmd = a.pop(0)
        if os.path.basename(gitcmd) != 'git':
            raise FileNotFoundError(2, 'No such file')
        while a and a[0] in ('-C', '-c', '--no-pager'):
            if a[0] == '-C':
                s = self.state(a[1], env)
            a = a[1 if a[0] == '--no-pager' else 2:]
        c, a = a[0], a[1:]
        if c == 'rev-parse':
            if a == ['--git-dir']:
                return '.git', 0
            if a == ['--show-toplevel']:
                return CWD, 0
            if a == ['--is-inside-work-tree']:
                return 'true', 0
            if a in (['HEAD'], ['--verify', 'HEAD']):
                return s['full'], 0
            if a == ['--short', 'HEAD']:
                return s['full'][:7], 0
            if a in (['--abbrev-ref', 'HEAD'], ['--symbolic-full-name', '--abbrev-ref', 'HEAD']):
                return s['branch'] if s['branch'] else 'HEAD', 0
        elif c == 'describe':
            return self.describe(s, a)
        elif c == 'branch' and a == ['--contains']:
            return ('* %s' % s['branch'] if s['branch'] else '* (HEAD detached at %s)\n  main' % ('f' * 7)), 0
        elif c == 'branch' and a == ['--show-current']:
            return s['branch'] or '', 0
        elif c == 'rev-list' and sorted(a) == ['--count', 'HEAD']:
            return s['total'], 0
        elif c in ('show', 'log') and [x for x in a if x not in ('-s', '-1', 'HEAD', '-n1')] in (
                ['--format=%ci'], ['--pretty=format:%ci'], ['--pretty=%ci']):
            return '2022-05-04 10:11:12 +0200', 0
        elif c == 'diff' and set(a) <= {'--quiet', 'HEAD', '--exit-code', '--'}:
            return '', 1 if s['dirty'] else 0
        elif c in ('diff-index', 'diff') and '--quiet' in a:
            return '', 1 if s['dirty'] else 0
        elif c == 'status' and a and set(a) <= {'--porcelain', '-uno', '--untracked-files=no', '-s'} and len(a) > 1:
            return ' M occuprob/io.py' if s['dirty'] else '', 0
        raise Gap('git ' + ' '.join([c] + [str(x) for x in a]))

    def describe(self, s, a):
        kw = set()
        ab = None
        ref = None
        k = 0
        while k < len(a):
            x = a[k]
            if x in ('--tags', '--dirty', '--always', '--long', '--first-parent'):
                kw.add(x)
            elif x.startswith('--abbrev='):
                ab = int(x[9:])
            elif x == '--abbrev':
                ab = None
            elif x == 'HEAD':
                ref = x
            elif x == '--exact-match':
                kw.add(x)
            else:
                raise Gap('git describe ' + str(x))
            k += 1
        if ref and '--dirty' in kw:
            return None, 128
        tag = s['tag']
        if tag is not None and not s['annotated'] and '--tags' not in kw:
            tag = None
        if tag is not None and '--exact-match' in kw and not s['dist'] == '0':
            tag = None
        ln = s['len']
        if ab is not None and ab != 0:
            ln = max(ab, s['len'] if s['len'] > 7 else ab, 4)
        if tag is None:
            if '--always' not in kw:
                return None, 128
            out = s['full'][:ln]
        elif ab == 0:
            out = tag
        elif '--long' in kw or not s['dist'] == '0':
            out = tag + '-' + s['dist'] + '-g' + s['full'][:ln]
        else:
            out = tag
        if '--dirty' in kw and s['dirty']:
            out = out + '-dirty'
        return out, 0


GIT = Git()


class Out:
    """bytes written by the command"""

    def __init__(self, t):
        self.t = t

    def strip(self): return Out(self.t.strip())
    def rstrip(self): return Out(self.t.rstrip())
    def decode(self, *a, **k): return self.t
    def __bool__(self): return bool(len(self.t))

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Gap('bytes.' + n)


class Proc(fakes.Standin):
    def __init__(self, args, cwd=None, env=None, stdout=None, stderr=None, text=None, universal_newlines=None,
                 encoding=None, capture_output=False, check=False, **k):
        t, rc = GIT.answer(args, cwd, env)
        self.args = args
        self.returncode = rc
        t = '' if t is None else t + '\n'
        asis = text or universal_newlines or encoding
        self._t = t if asis else Out(t)
        self._e = '' if asis else Out('')
        self.stdout, self.stderr = self._t, self._e

    def communicate(self, *a, **k): return self._t, self._e
    def wait(self, *a, **k): return self.returncode
    def poll(self): return self.returncode
    def __enter__(self): return self
    def __exit__(self, *a): return False


def module():
    m = types.ModuleType('subprocess')
    m.PIPE, m.STDOUT, m.DEVNULL = -1, -2, -3

    class CalledProcessError(Exception):
        pass

    class Popen(Proc):
        def __init__(self, *a, **k):
            Proc.__init__(self, *a, **k)
            del self.stdout, self.stderr

    def run(args, **k):
        p = Proc(args, **k)
        if k.get('check') and p.returncode:
            raise CalledProcessError(p.returncode)
        return p

    def check_output(args, **k):
        return run(args, check=True, **k).stdout
    m.CalledProcessError, m.SubprocessError = CalledProcessError, Exception
    m.Popen, m.run, m.check_output, m.CompletedProcess = Popen, run, check_output, Proc

    def g(a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Gap('subprocess.' + a)
    m.__getattr__ = g
    return m


def con_modules():
    return {'subprocess': module()}


sym_shims = con_modules

TAGS = ('1.2.3', '0.1.0-dirty', 'v1-3-gabc', '2.0+local', '1+a+b', '1.0-rc.1')


def configs(tier):
    out = []
    L = 4 if tier == 'quick' else 6
    for n in range(1, L + 1):
        for nd in (1, 2):
            out.append(dict(n=n, nd=nd))
    for t in TAGS:
        out.append(dict(t=t, nd=1))
    out.append(dict(t='1.2.3', nd=3))
    for nd in (1, 2, 3):
        out.append(dict(t=None, nd=nd))
    out.append(dict(t='1.2.3', nd=1, cli=1))
    return out


def run(ctx):
    c = ctx.cfg
    small = 'n' in c and c['n'] > 2
    if 'n' in c:
        tag = ctx.string('tag', c['n'], '0+-.gd')
        ctx.assume(not tag[0] == '-')
    else:
        tag = c['t']
    nd = c['nd']
    if c.get('cli'):
        dist = ctx.choose('dist', ('0', '12'))
    elif nd == 1:
        dist = ctx.string('dist', 1, '0123456789' if c['t' if 't' in c else 'n'] is not None else '123456789')
    else:
        dist = ctx.string('dist', 1, '123456789') + ctx.string('dist2', nd - 1, '0123456789')
    hx = '0a9f'
    full = 'c0ffee1' + 'b' * 33 if c.get('cli') else ctx.string('h', 2, hx) + 'c1de2' + ctx.string('k', 1, hx) + '0123456789abcdef' * 2
    dirty = ctx.choose('dirty', (False, True))
    br = ctx.choose('branch', ('master',) if small else ('master', None, 'a-dirty'))
    ann = True if small or tag is None else ctx.choose('annotated', (True, False))
    ln = ctx.choose('len', (7,) if small else (7, 9))
    st = dict(tag=tag, dist=dist, total=dist, full=full, dirty=dirty, branch=br, annotated=ann, len=ln)
    GIT.st = st
    GIT.other = dict(st, tag='9.9', full='e' * 40, dist='77', total='77', dirty=not dirty)
    kept = os.environ.get('GIT_DIR')
    try:
        if c.get('cli'):
            os.environ['GIT_DIR'] = '/nowhere/.git'
        pkg = ctx.load('occuprob')
        V = ctx.load('occuprob._version')
        v = V.get_versions()
        if c.get('cli'):
            cli = ctx.load('occuprob.cli')
            ctx.set_argv(['occuprob', '--version'])
            try:
                cli.main()
            except SystemExit:
                pass
    finally:
        os.environ.pop('GIT_DIR', None)
        if kept is not None:
            os.environ['GIT_DIR'] = kept
    text = v['version']

    def want(short):
        if tag is None:
            return '0+untagged.' + dist + '.g' + short + ('.dirty' if dirty else '')
        if dist == '0' and not dirty:
            return tag
        plus = False
        for x in tag:
            if x == '+':
                plus = True
        return tag + ('.' if plus else '+') + dist + '.g' + short + ('.dirty' if dirty else '')
    ok = text == want(full[:ln]) or (tag is None and text == want(full[:7]))
    ctx.true(bool(ok), 'the version identifies the source state', '%r for %s' % (text, st))
    ctx.true(bool(pkg.__version__ == text), 'occuprob.__version__ is that version')
    ctx.true(bool(v['full-revisionid'] == full), 'the full revision is the commit')
    ctx.true(v['dirty'] == dirty, 'the dirty flag tells about uncommitted changes')
    ctx.true(not v['error'], 'no error')
    if c.get('cli'):
        ctx.true(text in ctx.printed().split(), '--version prints it')
