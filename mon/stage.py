"""Staging: copy the working tree of /repo/traceon to a scratch folder and compile its native backend there.

Nothing is written in /repo. Every staged copy lives in a scratch folder that the caller removes."""
import os
import shutil
import subprocess
import sysconfig
import tempfile

REPO = os.environ.get('TRACEON_REPO', '/repo')
CLANG = shutil.which('clang') or '/usr/bin/clang'

# The flags of setup.py (it appends these to the interpreter's own CFLAGS, among them -DNDEBUG).
PROD = ['-O3', '-mavx', '-ffast-math', '-DNDEBUG', '-Wno-unknown-pragmas', '-Wno-unused-variable']
VARIANTS = {
    'prod': PROD,
    # memory + undefined behaviour, uninitialised variables hold NaN patterns
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-mavx', '-DNDEBUG', '-fsanitize=address,undefined,float-cast-overflow',
             '-fno-sanitize-recover=undefined,float-cast-overflow', '-ftrivial-auto-var-init=pattern', '-shared-libsan', '-Wno-everything'],
    'tsan': ['-O1', '-g', '-mavx', '-fsanitize=thread', '-shared-libsan', '-Wno-everything'],
}


class BuildError(Exception):
    pass


def runtime(name):
    """Path of a clang sanitizer runtime (shared), to be preloaded in front of the interpreter."""
    for n in (f'libclang_rt.{name}-x86_64.so', f'libclang_rt.{name}.so'):
        p = subprocess.run([CLANG, f'-print-file-name={n}'], capture_output=True, text=True).stdout.strip()
        if os.path.isabs(p) and os.path.exists(p):
            return p
    return None


def copy_package(dst):
    src = os.path.join(REPO, 'traceon')
    shutil.copytree(src, os.path.join(dst, 'traceon'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.so.*', '*.pyd'))
    return os.path.join(dst, 'traceon')


def compile_backend(pkg, variant):
    out = os.path.join(pkg, 'backend', 'traceon_backend.so')
    cmd = [CLANG, *VARIANTS[variant], '-fPIC', '-shared', '-I' + sysconfig.get_paths()['include'],
           os.path.join(pkg, 'backend', 'traceon-backend.c'), '-o', out, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-4000:])
    return out


def stage(variant='prod', base=None):
    """-> scratch folder F such that PYTHONPATH=F imports the staged traceon built as `variant`."""
    base = base or tempfile.mkdtemp(prefix='traceon-mon-')
    d = os.path.join(base, variant)
    os.makedirs(d)
    pkg = copy_package(d)
    compile_backend(pkg, variant)
    return d


def scan_rebuild_flags():
    return {k: ' '.join(v) for k, v in VARIANTS.items()}
