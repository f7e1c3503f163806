#!/bin/bash
# try.sh ID...: in a private copy mounted over /repo (own namespaces): demo without and with the patch, tests with TEST=1,
# checks CHECK="C01 C02" against the patched copy.  Prints one line per seed.
one() {
  id=$1; d=/verif/seeded/$id; w=/tmp/w/$id; rm -rf "/tmp/w/$id"; mkdir -p /tmp/w; cp -a /repo $w
  unshare -Urmpn -f --mount-proc bash -c '
    mount --bind '$w' /repo; ip link set lo up 2>/dev/null; cd /repo; git checkout -q -- .
    bash /opt/vp/build.sh >/tmp/w/'$id'.b0 2>&1; timeout 300 bash '$d'/demo.sh >/tmp/w/'$id'.o0 2>&1; a=$?
    git apply '$d'/patch.diff || echo "does not apply"; bash /opt/vp/build.sh >/tmp/w/'$id'.b1 2>&1 || tail -5 /tmp/w/'$id'.b1
    timeout 300 bash '$d'/demo.sh >/tmp/w/'$id'.o1 2>&1; b=$?; t=
    [ -n "$TEST" ] && t=$(bash /opt/vp/test.sh /tmp/w/'$id'.json 2>&1 | tail -1)
    r=
    for c in $CHECK; do cd /verif; DV_EVID=/tmp/w/'$id'.evid python3-vt check.py $c quick >/tmp/w/'$id'.$c.log 2>&1; r="$r $c=$?$(grep -q no-failing /tmp/w/'$id'.$c.log && echo nfi)"; done
    echo "'$id' unchanged=$a patched=$b tests: $t checks:$r | $(head -c 200 /tmp/w/'$id'.o1 | head -1)"'
  rm -rf "/tmp/w/$id"
}
if [ $# -eq 1 ]; then one $1; else export -f one; printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'; fi
