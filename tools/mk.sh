#!/bin/bash
# mk.sh ID: take the diff currently in /repo's working tree as the seeded bug ID (demo.py and meta.json already there), undo it
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cp /verif/tools/gd.py $d/ 
printf '#!/bin/bash\ncd "$(dirname "$0")" && exec python3 demo.py 2>&1\n' > $d/demo.sh; chmod +x $d/demo.sh
