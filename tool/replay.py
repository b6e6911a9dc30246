#!/usr/bin/env python3-vt
"""replay.py PROP [seed]: builds and runs the replay driver of a property on the current tree (development aid)."""
import sys, os, tempfile, shutil, subprocess, importlib, time
sys.argv0 = sys.argv[0]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
mod = importlib.import_module(sys.argv[1])
tmp = tempfile.mkdtemp(prefix='vrep_')
try:
    t = time.time()
    if not hasattr(mod, 'REPLAY'):
        mod.REPLAY = sys.argv[1] + '.cpp'
    exe = check.build_replay(mod, tmp)
    t1 = time.time()
    for seed in (sys.argv[2:] or ['1']):
        p = subprocess.run([exe, '/dev/null', seed], cwd=tmp, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1'))
        print('seed', seed, 'exit', p.returncode)
    print('build %.1fs run %.1fs' % (t1 - t, time.time() - t1))
except check.Infra as e:
    print(e)
finally:
    shutil.rmtree(tmp)
