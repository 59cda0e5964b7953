import os, subprocess, sys, tempfile, concurrent.futures as cf
here, repo = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout.decode()
env = dict(x.split('=', 1) for x in out.split('\0') if '=' in x)
env['PETSC_OPTIONS'] = '-malloc_debug 0'
P = env['PETSC_DIR']
with tempfile.TemporaryDirectory() as w:
    fortran = os.path.exists(os.path.join(here, 'demo.F90'))
    src = [os.path.join(here, f) for f in os.listdir(here) if f.endswith('.c')] if fortran else [os.path.join(here, 'demo.c')]
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        if 'tests' not in d: src += [os.path.join(d, f) for f in fs if f.endswith('.c')]
    inc = ['-I' + x for x in (repo + '/include', repo + '/src', P + '/include', '/usr/include/hdf5/openmpi')]
    def cc(j):
        o = '%s/%d.o' % (w, j)
        subprocess.check_call(['mpicc', '-g', '-O0', '-w', *inc, '-c', src[j], '-o', o], env=env); return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, range(len(src))))
    if fortran:
        for j, f in enumerate([repo + '/src/f90-mod/tdycoremod.F90', os.path.join(here, 'demo.F90')]):
            o = '%s/f%d.o' % (w, j)
            subprocess.check_call(['mpif90', '-g', '-O0', '-w', '-ffree-line-length-none', '-J' + w, *inc, '-I' + repo, '-c', f, '-o', o], env=env); objs.append(o)
    subprocess.check_call(['mpif90' if fortran else 'mpicc', '-o', w + '/demo', *objs, '-Wl,--unresolved-symbols=ignore-all', '-L' + P + '/lib', '-Wl,-rpath,' + P + '/lib', '-lpetsc',
                           '-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lhdf5_hl', '-lhdf5', '-lparmetis', '-lmetis', '-llapack', '-lblas', '-lm', '-lz'], env=env)
    run = os.path.join(w, 'run'); os.mkdir(run)
    np = os.environ.get('DEMO_NP', open(os.path.join(here, 'np')).read().strip() if os.path.exists(os.path.join(here, 'np')) else '1')
    p = subprocess.run((['mpiexec', '-n', np] if np != '1' else []) + [w + '/demo'], cwd=run, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
    print(p.stdout.decode(errors='replace')[-1500:])
sys.exit(0 if p.returncode == 0 else 1)
