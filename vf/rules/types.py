"""X02, X03: what the type system is made to refuse, and what it must accept.  Nothing is run: the compilers decide."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .. import front, witness as W
from ..front import Broken, REPO, CLANG

COMPILERS = [c for c in (CLANG, 'g++') if shutil.which(c)]
DIALECTS = (11, 14, 17, 20)


class Lab:
    """compiles texts against the public headers alone, laid out as an installation lays them out"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-', dir=front.workdir())
        self.cfg = front.Config(self.dir)
        self.inc = os.path.join(self.dir, 'inc')
        os.makedirs(self.inc)
        src = os.path.join(REPO, 'src')
        t = open(os.path.join(src, 'CMakeLists.txt')).read()
        m = re.search(r'_publicHeaders\s+([^)]*)\)', t)
        self.headers = [h for h in (m.group(1).split() if m else os.listdir(src)) if h.endswith('.hpp') and os.path.exists(os.path.join(src, h))]
        if len(self.headers) < 2:
            raise Broken('no public headers found')
        for h in self.headers:
            os.makedirs(os.path.dirname(os.path.join(self.inc, h)), exist_ok=True)
            shutil.copy(os.path.join(src, h), os.path.join(self.inc, h))
        for root, _, fs in os.walk(os.path.join(self.cfg.b, 'include')):
            for f in fs:
                shutil.copy(os.path.join(root, f), self.inc)
        self.flags = [a for a in self.cfg.flags if not a.startswith(('-std', '-I', '-fvisibility'))] + ['-I', self.inc, '-w']
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.dir, ignore_errors=True)

    def cc(self, cc, text, std=17, extra=('-fsyntax-only',)):
        """(accepted, output)"""
        p = subprocess.run([cc] + self.flags + ['-std=c++%d' % std] + list(extra) + ['-x', 'c++', '-'], input=text, text=True, cwd=self.dir,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode < 0 or 'internal compiler error' in p.stderr or 'PLEASE submit a bug report' in p.stderr:
            raise Broken('%s failed: %s' % (cc, p.stderr[-500:]))
        return p.returncode == 0, p.stdout if p.returncode == 0 else p.stderr

    def where(self, err):
        """the construct of the library a diagnostic is about"""
        w = []
        for m in re.finditer(r'inc/(\S+?\.hpp):(\d+)', err):
            x = 'src/%s:%s' % m.groups()
            if x not in w:
                w.append(x)
        return w[:4]

    def all(self, f, jobs):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(f, jobs))


def first_error(err):
    l = next((l for l in err.splitlines() if 'error' in l), err[:300]).strip()
    return re.sub(r'^\S*?:\d+:\d+: ', '', l)[:300]


GROUPS = {'copy': 'no program that copies, moves or assigns a library resource compiles',
          'unrelated': 'no program that creates a pooled object of an unrelated type, or converts its pointer to one, compiles',
          'destroyable': 'no program that pools objects which cannot be safely destroyed or made compiles',
          'message': 'no program that enqueues what is not a message compiles',
          'scalar': 'no program that puts non-scalar or constant elements in a ring buffer, or loses const or type on the way through it, compiles',
          'raw': 'no program that takes or returns raw memory past its owner, or destroys through a base, compiles'}


def x02(chk, tier):
    chk.explanation = ('Compile-fail witnesses: client programs that misuse the library, each beside a twin that differs only in the misuse, are given to the '
                       'compilers (front ends only) with the current headers. The misuse must be refused where its twin is accepted.')
    for g, t in GROUPS.items():
        chk.rule(g, t, 1)
    with Lab() as L:
        def job(j):
            (g, n, good, bad), cc = j
            bok, bout = L.cc(cc, W.text(bad))
            if not bok:
                # refused: but for the misuse?  The twin tells.
                gok, gout = L.cc(cc, W.text(good))
                return j, gok, False, gout if not gok else bout
            return j, True, True, bout
        skipped = []
        for ((g, n, good, bad), cc), gok, bok, out in L.all(job, [(w, cc) for w in W.NEG for cc in COMPILERS]):
            if not gok:
                skipped.append('%s (%s): its legal twin does not compile either: %s' % (n, cc, first_error(out)))
                continue
            chk.verdict(not bok, g, entry=n, where=['client program: ' + bad.lstrip('@')[:400]], path=[], detail='this program compiles: %s' % n)
        chk.notes += ['not decided: ' + s for s in skipped]
        chk.scans['programs that must not compile'] = len(W.NEG)
        chk.scans['compilers'] = COMPILERS


DEF = re.compile(r'^define (?!.*\b(?:internal|private|available_externally)\b)([^@]*)@"?([^"( ]+)"?\(', re.M)
GLB = re.compile(r'^@"?([^" =]+)"? = (?!.*\b(?:internal|private|external|available_externally)\b)([^"\n]*?)(?:global|constant|alias)\b', re.M)
DECL = re.compile(r'^declare [^@]*@"?([^"( ]+)"?\(', re.M)
EXT = re.compile(r'^@"?([^" =]+)"? = (?:[^\n"]*?)\b(?:external|available_externally)\b', re.M)
OURS = re.compile(r'^_Z(?:T[VIST]|Th\w+?_|GV)?N?K?8ReiserRT|^_ZNK?8ReiserRT')


def symbols(ir):
    """(defined: name -> linkage text, undefined names)"""
    d = {n: q for q, n in DEF.findall(ir)}
    d.update({n: q for n, q in GLB.findall(ir)})
    return d, set(DECL.findall(ir)) | set(EXT.findall(ir))


def x03(chk, tier):
    chk.explanation = ('Compile-pass witnesses: client programs that use the library as documented, and each public header alone, are given to the compilers in every '
                       'dialect with the installed headers only; sizes, linkage and declared exceptions are read off the compiled program.')
    chk.rule('alone', 'each public header compiles on its own, included twice, beside nothing but the public headers', 15)
    chk.rule('uses', 'programs that use the library as documented compile', 20)
    chk.rule('linked', 'what such programs call is exported by the library', 20)
    chk.rule('together', 'including the headers defines nothing a second including unit would define again', 1)
    chk.rule('nothrow', 'destroying, moving and releasing are declared not to throw', 10)
    chk.rule('layout', 'a type has one size in every dialect, compiler and build type', 10)
    with Lab() as L:
        # each header alone
        jobs = [(h, cc, d) for h in L.headers for cc in COMPILERS for d in DIALECTS]
        for (h, cc, d), (ok, out) in zip(jobs, L.all(lambda j: L.cc(j[1], '#include "%s"\n#include "%s"\n' % (j[0], j[0]), j[2]), jobs)):
            chk.verdict(ok, 'alone', entry=h, where=L.where(out) if not ok else [], path=[], detail='' if ok else 'in C++%d: %s' % (d, first_error(out)))
        # the library's exported symbols
        def unit(u):
            f, fl, d = u
            return front.run([CLANG] + fl + ['-O0', '-w', '-S', '-emit-llvm', f, '-o', '-'], cwd=d)
        exported = set()
        for ir in L.all(unit, L.cfg.units):
            exported |= {n for n, q in symbols(ir)[0].items() if 'hidden' not in q}
        emit = ('-O0', '-S', '-emit-llvm', '-o', '-')
        jobs = [(n, t, cc, d) for n, s, t in W.POS for cc in COMPILERS for d in DIALECTS if d >= s]
        for (n, t, cc, d), (ok, out) in zip(jobs, L.all(lambda j: L.cc(j[2], j[1], j[3], emit if j[2] == CLANG else ('-fsyntax-only',)), jobs)):
            chk.verdict(ok, 'uses', entry=n, where=L.where(out) if not ok else [], path=[], detail='' if ok else 'in C++%d: %s' % (d, first_error(out)))
            if ok and cc == CLANG:
                lost = sorted(s for s in symbols(out)[1] if OURS.match(s) and s not in exported)
                chk.verdict(not lost, 'linked', entry=n, where=[demangle(s) for s in lost[:3]], path=[], detail='' if not lost else 'in C++%d: the library does not export %s' % (d, demangle(lost[0])))
        # nothing defined twice
        for d in DIALECTS:
            ok, out = L.cc(CLANG, ''.join('#include "%s"\n' % h for h in reversed(L.headers)), d, emit)
            if not ok:
                chk.fail('alone', entry='all headers', where=L.where(out), path=[], detail='in C++%d, in reverse order: %s' % (d, first_error(out)))
                continue
            dup = sorted(n for n, q in symbols(out)[0].items() if 'linkonce' not in q and 'weak' not in q and not n.startswith('_GLOBAL_'))
            chk.verdict(not dup, 'together', entry='all headers', where=[demangle(n) for n in dup[:3]], path=[],
                        detail='' if not dup else 'every including unit defines %s' % demangle(dup[0]))
        # declared not to throw
        one = {d: L.cc(CLANG, W.PRE + ''.join('static_assert( %s, "" );\n' % c for _, c in W.NOTHROW), d)[0] for d in DIALECTS}
        for d in DIALECTS:
            if one[d]:
                chk.ok('nothrow', len(W.NOTHROW))
                continue
            res = L.all(lambda j: L.cc(CLANG, W.PRE + 'static_assert( %s, "VF-FALSE" );\n' % j[1], d), W.NOTHROW)
            for (n, c), (ok, out) in zip(W.NOTHROW, res):
                bad = not ok and 'VF-FALSE' in out and out.count('error:') == 1
                if ok or bad:
                    chk.verdict(ok, 'nothrow', entry=n, where=[c], path=[], detail='' if ok else 'may throw: %s' % n)
                else:
                    chk.notes.append('nothrow: %s is not decided: %s' % (n, first_error(out)))
        # sizes
        txt = W.PRE + 'extern "C" { extern const unsigned long long vf_layout[]; const unsigned long long vf_layout[] = {\n' + ',\n'.join(
            'sizeof( %s ), alignof( %s )' % (t, t) for t in W.LAYOUT) + ' }; }\n'
        seen = {}
        jobs = [(cc, d, nd) for cc in COMPILERS for d in DIALECTS for nd in ((), ('-DNDEBUG',), ('-D_GLIBCXX_ASSERTIONS', '-DDEBUG', '-D_DEBUG'))]
        for (cc, d, nd), (ok, out) in zip(jobs, L.all(lambda j: L.cc(j[0], txt, j[1], ('-O0', '-S', '-o', '-') + j[2]), jobs)):
            if not ok:
                chk.notes.append('layout not decided for C++%d with %s %s: %s' % (d, cc, nd, first_error(out)))
                continue
            v = re.search(r'^vf_layout:\n((?:\s+\.(?:quad|long|zero)\s+.*\n)+)', out, re.M)
            vals = re.findall(r'\.quad\s+(\d+)', v.group(1)) if v else []
            if len(vals) != 2 * len(W.LAYOUT):
                chk.notes.append('layout not decided for C++%d with %s' % (d, cc))
                continue
            for i, t in enumerate(W.LAYOUT):
                x = (vals[2 * i], vals[2 * i + 1])
                ref = seen.setdefault(t, (x, (cc, d, nd)))
                chk.verdict(ref[0] == x, 'layout', entry=t, where=[t], path=[], detail='%s bytes aligned %s with %s C++%d %s, but %s aligned %s with %s C++%d %s' % (
                    x + (cc, d, ' '.join(nd)) + ref[0] + (ref[1][0], ref[1][1], ' '.join(ref[1][2]))))
        # members
        seen = {}
        jobs = [(d, nd) for d in DIALECTS for nd in ((), ('-DNDEBUG',), ('-D_GLIBCXX_ASSERTIONS', '-DDEBUG', '-D_DEBUG'))]
        for (d, nd), (ok, out) in zip(jobs, L.all(lambda j: L.cc(CLANG, txt, j[0], ('-fsyntax-only', '-Xclang', '-fdump-record-layouts') + j[1]), jobs)):
            if not ok:
                continue
            for rec in out.split('*** Dumping AST Record Layout')[1:]:
                ls = [l for l in rec.splitlines() if '|' in l]
                name = ls[0].split('|')[1].strip() if ls else ''
                if not re.match(r'(class|struct|union) ReiserRT::', name):
                    continue
                # direct bases and members: place, type, name
                x = tuple(re.sub(r'\s+', ' ', l).strip() for l in ls[1:] if re.match(r' ?[\s\d:-]*\|   \S', l))
                ref = seen.setdefault(name, (x, (d, nd)))
                diff = [l for l in x if l not in ref[0]] or [l for l in ref[0] if l not in x]
                chk.verdict(ref[0] == x, 'layout', entry=name, where=diff[:3], path=[], detail='in C++%d %s %s is laid out differently than in C++%d %s' % (
                    d, ' '.join(nd), name, ref[1][0], ' '.join(ref[1][1])))
        chk.scans['public headers'] = L.headers
        chk.scans['documented uses'] = [n for n, _, _ in W.POS]
        chk.scans['exported symbols of the library'] = len([s for s in exported if OURS.match(s)])
        chk.scans['compilers'] = COMPILERS
        chk.scans['dialects'] = ['C++%d' % d for d in DIALECTS]


_dem = {}


def demangle(n):
    if n not in _dem:
        p = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) if shutil.which('c++filt') else None
        _dem[n] = p.stdout.strip() if p and p.returncode == 0 else n
    return _dem[n]


CHECKS = {'X02': x02, 'X03': x03}
