"""Front end: /repo's current source -> resolved program (JSON), with the real build's flags."""
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
CLANG = 'clang++-18'


class Broken(Exception):
    """the analysis cannot give an answer (error exit, neither pass nor violation)"""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Broken('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def which(*names):
    for n in names:
        if shutil.which(n):
            return n
    raise Broken('none of %s found' % (names,))


def workdir():
    d = os.path.join(VERIF, '.work')
    os.makedirs(d, exist_ok=True)
    return d


def tool():
    """the dumper, built when missing or stale"""
    src = os.path.join(HERE, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(workdir(), 'irdump-' + h)
    if not os.path.exists(out):
        cfg = which('llvm-config-18', 'llvm-config')
        fl = run([cfg, '--cxxflags']).split()
        ld = run([cfg, '--ldflags']).split()
        tmp = out + '.%d' % os.getpid()
        run([which(CLANG, 'clang++'), '-O1', '-w'] + fl + ['-fno-rtti', src, '-o', tmp] + ld + ['-lLLVM-18'])
        os.rename(tmp, out)
    return out


def source_files():
    fs = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs[:] = sorted(d for d in dirs if d != 'CMakeFiles')
        for f in sorted(files):
            fs.append(os.path.join(root, f))
    fs.append(os.path.join(REPO, 'CMakeLists.txt'))
    return fs


def digest(extra):
    h = hashlib.sha256()
    for f in source_files() + sorted(extra):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


class Config:
    """compile configuration taken from the project's own build description"""

    def __init__(self, scratch):
        self.b = os.path.join(scratch, 'b')
        run(['cmake', '-S', REPO, '-B', self.b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
             '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_C_COMPILER=/usr/bin/gcc'])
        db = json.load(open(os.path.join(self.b, 'compile_commands.json')))
        self.units = []
        seen = set()
        srcdir = os.path.realpath(os.path.join(REPO, 'src')) + os.sep
        for e in db:
            f = os.path.realpath(os.path.join(e['directory'], e['file']))
            if not f.startswith(srcdir) or f in seen:
                continue
            seen.add(f)
            args = shlex.split(e['command']) if 'command' in e else e['arguments']
            keep = []
            it = iter(args[1:])
            for a in it:
                if a in ('-o', '-c', '-MF', '-MT', '-MQ'):
                    if a != '-c':
                        next(it)
                    continue
                if a in ('-MD', '-MMD') or os.path.realpath(os.path.join(e['directory'], a)) == f:
                    continue
                if a.startswith('-W') or a.startswith('-O') or a.startswith('-g') or a == '-DNDEBUG':
                    continue
                if a in ('-I', '-isystem', '-include', '-D'):
                    keep += [a, next(it)]
                    continue
                keep.append(a)
            self.units.append((f, keep, e['directory']))
        if not self.units:
            raise Broken('no library translation unit in the compilation database')
        self.flags = [a for a in self.units[0][1] if not a.startswith('-DReiserRT_Core_EXPORTS')]
        self.dir = self.units[0][2]


def program():
    """path of the JSON of the current program"""
    drivers = sorted(glob.glob(os.path.join(HERE, 'drivers', '*.cpp')))
    dig = digest(drivers + glob.glob(os.path.join(HERE, 'drivers', '*.hpp')) +
                 [os.path.join(HERE, 'tool', 'irdump.cpp'), os.path.join(HERE, 'front.py')])
    out = os.path.join(workdir(), 'prog-%s.json' % dig)
    meta = out + '.meta'
    if os.path.exists(out) and os.path.exists(meta):
        return out, json.load(open(meta))
    t = tool()
    scratch = tempfile.mkdtemp(prefix='vf-', dir=workdir())
    try:
        cfg = Config(scratch)
        common = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-inline', '-w', '-Wno-c++11-narrowing', '-emit-llvm', '-c']
        jobs = []
        for i, (f, fl, d) in enumerate(cfg.units):
            o = os.path.join(scratch, 'u%d.bc' % i)
            jobs.append((o, [CLANG] + fl + common + [f, '-o', o], d))
        for i, f in enumerate(drivers):
            o = os.path.join(scratch, 'd%d.bc' % i)
            jobs.append((o, [CLANG] + cfg.flags + common + ['-fno-access-control', '-I', os.path.join(HERE, 'drivers'), f, '-o', o], cfg.dir))
        with ThreadPoolExecutor(8) as ex:
            failed = {}

            def build(j):
                if j[1][-3] not in drivers:
                    run(j[1], cwd=j[2])
                    return True
                # a use of the library that does not compile: X03 reports those that are public; rules that need the functions give no answer
                p = subprocess.run(j[1], cwd=j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    failed[os.path.basename(j[1][-3])] = next((l for l in p.stdout.splitlines() if 'error:' in l), p.stdout[:400])
                return not p.returncode
            jobs = [j for j, k in zip(jobs, list(ex.map(build, jobs))) if k]
        bc = os.path.join(scratch, 'all.bc')
        run([which('llvm-link-18', 'llvm-link')] + [j[0] for j in jobs] + ['-o', bc])
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'w') as fo:
            p = subprocess.run([t, bc], stdout=fo, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise Broken('irdump failed: ' + p.stderr[-2000:])
        m = {'units': [os.path.relpath(u[0], REPO) for u in cfg.units], 'drivers': [os.path.basename(d) for d in drivers],
             'flags': cfg.flags, 'failed': failed}
        with open(meta + '.%d' % os.getpid(), 'w') as fo:
            json.dump(m, fo)
        os.rename(tmp, out)
        os.rename(meta + '.%d' % os.getpid(), meta)
        old = sorted(glob.glob(os.path.join(workdir(), 'prog-*.json')), key=os.path.getmtime)[:-6]
        for o in old:
            for x in (o, o + '.meta'):
                try:
                    os.unlink(x)
                except OSError:
                    pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out, m
