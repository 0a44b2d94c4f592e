# developer shell: source /verif/lib/env.sh; vpy file.py runs a script as the checks run
vpy() { ( d=$(mktemp -d /tmp/vpy-XXXX); cp -a ${VERIF_REPO:-/repo}/data $d/; gcc -O2 -shared -fPIC -o $d/clock.so /verif/lib/clock.c -ldl; f=$(realpath $1); shift; cd $d; PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONPATH=${VERIF_REPO:-/repo}:/verif LD_PRELOAD=$d/clock.so VP_CLOCK_OFFSET=$((1772020800-$(date +%s))) PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -P $f "$@"; r=$?; rm -rf "$d"; exit $r ) }
