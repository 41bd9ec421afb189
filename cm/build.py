"""Build the programs from /repo's current working tree into a scratch directory."""
import os, shutil, subprocess, tempfile, sys

REPO = os.environ.get('CM_REPO', '/repo')
BINS = ['crashmail', 'crashstats', 'crashlist', 'crashgetnode', 'crashmaint', 'crashwrite', 'crashexport', 'crashlistout']


class BuildError(Exception):
    pass


def build(dest, cflags='-w -O1 -g'):
    """copy src+Makefile, build, return directory with the binaries and shim.so"""
    os.makedirs(dest, exist_ok=True)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dest, 'src'),
                    ignore=shutil.ignore_patterns('*.o', '*.a'))
    shutil.copy(os.path.join(REPO, 'Makefile'), dest)
    os.makedirs(os.path.join(dest, 'bin'), exist_ok=True)
    env = dict(os.environ)
    for k in ('MAKEFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CC'):
        env.pop(k, None)
    p = subprocess.run(['make', '-j8', 'linux', 'CFLAGS=' + cflags], cwd=dest, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    b = os.path.join(dest, 'bin')
    if not all(os.access(os.path.join(b, x), os.X_OK) for x in BINS):
        # parallel makefile trouble: once more, serially
        p = subprocess.run(['make', 'linux', 'CFLAGS=' + cflags], cwd=dest, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not all(os.access(os.path.join(b, x), os.X_OK) for x in BINS):
        sys.stderr.write(p.stdout.decode('latin-1')[-4000:])
        raise BuildError('build failed')
    shim = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', os.path.join(b, 'shim.so'), shim, '-ldl'], check=True)
    shutil.rmtree(os.path.join(dest, 'src'))
    subprocess.run(['chmod', '-R', 'a+rX', dest])
    return b
