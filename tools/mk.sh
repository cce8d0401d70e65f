# mk.sh ID PROP NEEDS WHAT : store /repo's current diff as a planted bug and undo it
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
[ -s $d/patch.diff ] || echo "EMPTY PATCH $1"
[ -f $d/demo.sh ] || cp /verif/tools/demo_cpp.sh $d/demo.sh
git -C /repo checkout -q -- .
