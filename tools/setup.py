"""setup_cmd: the tools are there and the search builds offline"""
import subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (['verus', '--version'], ['cargo', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
env = dict(os.environ, RUSTFLAGS='--cfg mysql_cdc_verif -Awarnings', CARGO_TARGET_DIR=os.path.join(HERE, 'search', 'target'))
sys.exit(subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=os.path.join(HERE, 'search'), env=env).returncode)
