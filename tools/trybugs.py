"""trybugs.py SPEC.py [ID…] : SPEC defines BUGS = [(id, 'C01 C02', [(file, old, new), …]), …]. Each is applied to a
scratch copy of /repo and the named checks are run on it; prints which of them report it. No demonstration and no
tests: a quick way to look for gaps before writing a planted bug down (see mkseed.py, seedcopy.sh)."""
import os, re, shutil, subprocess, sys, sysconfig, glob
ns = {}
exec(open(sys.argv[1]).read(), ns)
for bid, checks, subs in ns['BUGS']:
    if sys.argv[2:] and bid not in sys.argv[2:]:
        continue
    w = f'/tmp/trybug_{os.getpid()}'
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    try:
        for f, old, new in subs:
            s = open(f'{w}/{f}', newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(bid, 'BAD PATTERN', f, s.count(old), repr(old), flush=True)
                break
            open(f'{w}/{f}', 'w', newline='').write(s.replace(old, new))
        else:
            if any(f.startswith('c/') for f, *_ in subs):
                import subprocess as sp
                inc = sp.run(['/opt/venv/bin/python', '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"],"-I"+numpy.get_include())'], capture_output=True, text=True).stdout.split()
                sp.run(f'gcc -O2 -fwrapv -fPIC -w -fopenmp -shared -I{" ".join(inc)} c/*.c -o euphonic/_euphonic*.so', shell=True, cwd=w, check=True)
            for c in checks.split():
                r = subprocess.run(['timeout', '900', './check', c], cwd='/verif', capture_output=True, text=True,
                                   env=dict(os.environ, EUPHONIC_MC_REPO=w, VERIF_SEED='1'))
                m = re.search(r'^  \[.*', r.stdout, re.M)
                print(bid, c, 'caught' if r.returncode == 1 else f'MISSED rc={r.returncode}', m.group()[:150] if m else '', flush=True)
    finally:
        shutil.rmtree(w)
