"""setup_cmd: the toolchain is there and the number layer agrees with its reference."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
TL = '/opt/veriftools/tla'
w = tempfile.mkdtemp(prefix='verif-setup-')
try:
    subprocess.run(['javac', '-cp', TL + '/tla2tools.jar', '-d', w, os.path.join(SPEC, 'java', 'Rat.java')], check=True)
    cp = '%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s' % (TL, TL, w)
    p = subprocess.run(['java', '-XX:+UseSerialGC', '-Xss64m', '-cp', cp, 'tlc2.TLC', '-metadir', w + '/md',
                        '-noGenerateSpecTE', '-config', 'MC_Rat.cfg', 'MC_Rat.tla'], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode()
    if 'No error has been found' not in out:
        print(out[-3000:])
        sys.exit(1)
    subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import symfit'], check=True,
                   env=dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'), stderr=subprocess.DEVNULL)
    print('setup ok')
finally:
    shutil.rmtree(w, ignore_errors=True)
