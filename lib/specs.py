"""All properties and harnesses."""
import os, subprocess, shutil, driver
from specs_common import HARNESS, PROPS, ORDER
import props_core, props_media

def pregen(builddir):
    """compiles the .fl box descriptions of the tree under test"""
    out = os.path.join(builddir, 'gen', 'mg', 'media', 'mp4'); done = os.path.join(builddir, 'gen', '.done')
    if os.path.exists(done): return
    tmp = os.path.join(builddir, 'gen.%d' % os.getpid()); os.makedirs(os.path.join(tmp, 'mg/media/mp4'), exist_ok=True)
    src = os.path.join(driver.REPO, 'src/mg/media/mp4'); fl = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.fl'))
    p = subprocess.run(['python3', os.path.join(driver.VERIF, 'flavor/flavor.py'), os.path.join(tmp, 'mg/media/mp4')] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise driver.HarnessError('flavor.py failed\n' + p.stdout.decode('utf-8', 'replace')[-3000:])
    open(os.path.join(tmp, '.done'), 'w').close()
    try: os.rename(tmp, os.path.join(builddir, 'gen'))
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
