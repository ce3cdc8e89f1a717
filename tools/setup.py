"""Nothing is kept between runs; make sure the tools answer."""
import subprocess
import sys
for c in (['verus', '--version'], ['cargo', '--version'], ['python3', '--version']):
    if subprocess.call(c, stdout=subprocess.DEVNULL):
        sys.exit('missing: ' + c[0])
print('ready')
