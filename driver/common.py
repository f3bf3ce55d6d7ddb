"""Shared machinery of the checks: tools, building, TLC."""
import hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
SPEC = os.path.join(VERIF, 'spec')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
COMMUNITY = '/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 8

class Broken(Exception):
    """the check itself failed: no answer"""

def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(env or {})), cwd=cwd, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -9, 'timeout after %ss' % timeout

def pmap(f, xs, n=CORES):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def java_classes():
    """Java implementations of the operators of spec/Flt.tla"""
    src = [os.path.join(VERIF, 'java', f) for f in sorted(os.listdir(os.path.join(VERIF, 'java'))) if f.endswith('.java')]
    d = os.path.join(BUILD, 'java-' + file_hash(src))
    if not os.path.exists(os.path.join(d, '.done')):
        os.makedirs(d, exist_ok=True)
        rc, out = sh(['javac', '-cp', TLAJAR, '-d', d] + src)
        if rc: raise Broken('javac: ' + out[-2000:])
        open(os.path.join(d, '.done'), 'w').close()
    return d

def tlc(module, cfg, env, meta, workers=CORES, timeout=800, heap='6g', args=(), props=()):
    """run TLC; returns (rc, output, states generated, distinct states)"""
    cp = ':'.join([java_classes(), TLAJAR, COMMUNITY])
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m'] + list(props) + ['-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', meta, '-config', cfg] + list(args) + [module]
    rc, out = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist

def tlc_ok(out):
    return 'Model checking completed. No error has been found.' in out

def tsan_works(work):
    """can this sandbox run a program under the thread sanitizer?  (if not, results are still compared)"""
    p = os.path.join(work, 'probe')
    open(p + '.cpp', 'w').write('#include <thread>\nint main() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x - 1; }\n')
    return sh(['g++', '-fsanitize=thread', '-pthread', p + '.cpp', '-o', p])[0] == 0 and sh([p], timeout=60)[0] == 0

class Builder:
    """compiles against /repo's working tree, with a precompiled header"""
    def __init__(self, work, header, rtsrc=None, opt='-O0', san=False, extra=(), threads=False):
        self.work, self.header, self.rtsrc = work, header, rtsrc
        self.inc = ['-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3']
        self.flags = ['-std=c++17', opt, '-w'] + list(extra)
        if san: self.flags += ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
        if threads: self.flags += ['-g1', '-DRT_THREADS', '-DRT_SAN', '-pthread'] + (['-fsanitize=thread'] if tsan_works(work) else [])
        self.link = [] if san or threads or not rtsrc else ['-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc']
        self.san = san
        if san: self.flags += ['-DRT_SAN']
        self.pch = os.path.join(work, 'pch')

    def prepare(self):
        os.makedirs(self.pch, exist_ok=True)
        hdr = os.path.join(self.pch, 'pre.hpp')
        open(hdr, 'w').write('#include "%s"\n' % os.path.join(VERIF, 'cpp', self.header))
        jobs = [['g++'] + self.flags + self.inc + ['-x', 'c++-header', hdr, '-o', hdr + '.gch']]
        if self.rtsrc:
            self.rto = os.path.join(self.work, 'rt.o')
            fl = [f if f != '-O0' else '-O1' for f in self.flags]
            jobs.append(['g++'] + fl + self.inc + ['-I' + os.path.join(VERIF, 'cpp'), '-c', os.path.join(VERIF, 'cpp', self.rtsrc), '-o', self.rto])
        for rc, out in pmap(lambda c: sh(c, timeout=400), jobs):
            if rc: raise Broken('cannot build the runtime against %s: %s' % (REPO, out[-3000:]))

    def compile(self, cpp, exe, timeout=400):
        cmd = ['g++'] + self.flags + ['-I' + self.pch] + self.inc + ['-I' + os.path.join(VERIF, 'cpp'), cpp]
        if self.rtsrc: cmd.append(self.rto)
        return sh(cmd + self.link + ['-o', exe], timeout=timeout)

def commit_replay(pid, tag, files, text):
    """keep everything needed to reproduce a violation under out/ (not committed)"""
    d = os.path.join(OUT, pid, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for name, content in files.items():
        open(os.path.join(d, name), 'w').write(content)
    open(os.path.join(d, 'README'), 'w').write(text)
    return d
