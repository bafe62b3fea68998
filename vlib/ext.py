"""Compiles cpp/k2x.cc against /repo and the libraries in /opt/k2-build."""
import fcntl, importlib.util, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TORCH = '/opt/venv/lib/python3.12/site-packages/torch'
LIB = '/opt/k2-build/lib'
OUT = os.path.join(HERE, 'out', 'ext')


def build(name='k2x'):
    """(ok, output, path)"""
    os.makedirs(OUT, exist_ok=True)
    src, obj, so = f'{HERE}/cpp/{name}.cc', f'{OUT}/{name}.o', f'{OUT}/{name}.so'
    env = {**os.environ, 'PATH': '/usr/local/bin:/usr/bin:/bin', 'CCACHE_DIR': '/opt/k2-ccache', 'CCACHE_MAXSIZE': '5G', 'LC_ALL': 'C.UTF-8'}
    flags = (f'-DK2_TORCH_VERSION_MAJOR=2 -DK2_TORCH_VERSION_MINOR=4 -DK2_USE_PYTORCH -DCUB_WRAPPED_NAMESPACE=k2 -DTHRUST_NS_QUALIFIER=thrust -DTORCH_API_INCLUDE_EXTENSION_H '
             f'-DTORCH_EXTENSION_NAME={name} -I{TORCH}/include/torch/csrc/api/include -I{TORCH}/include -I/repo -I/opt/k2-build -I/opt/k2-build/include -I/usr/include/python3.12 '
             '-D_GLIBCXX_USE_CXX11_ABI=0 -w -O1 -DNDEBUG -std=c++17 -fPIC').split()
    with open(f'{OUT}/.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cc = ['/usr/bin/ccache', '/usr/bin/g++'] if os.path.exists('/usr/bin/ccache') else ['/usr/bin/g++']
        p = subprocess.run(cc + flags + ['-c', src, '-o', obj], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            p = subprocess.run(['/usr/bin/g++', '-shared', obj, '-o', so + '.tmp', f'-L{LIB}', '-lk2_torch_api', '-lk2_torch', '-lk2context', '-lk2fsa', '-lk2_log', f'-L{TORCH}/lib',
                                '-ltorch_python', '-ltorch', '-ltorch_cpu', '-lc10', f'-Wl,-rpath,{LIB}', f'-Wl,-rpath,{TORCH}/lib'],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 0:
                os.replace(so + '.tmp', so)
    return p.returncode == 0, p.stdout, so


def load(name='k2x'):
    so = f'{OUT}/{name}.so'
    spec = importlib.util.spec_from_file_location(name, so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


if __name__ == '__main__':
    ok, out, so = build()
    sys.stdout.write(out.decode(errors='replace')[-6000:])
    print(ok, so)
