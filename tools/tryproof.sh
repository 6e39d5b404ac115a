# tryproof.sh <patch> <property> <units..>: the proof of a property with a patch applied, undone afterwards
P=$(realpath $1); shift
git -C /repo apply "$P" || exit 2
python3 /verif/proof/prove.py "$@" > /tmp/tryproof.json; git -C /repo checkout -- .
python3 -c "
import json;r=json.load(open('/tmp/tryproof.json'));print(r['discharged'],'/',r['obligations']);[print('FAILED',f['function'],f['obligation'],f['where'][:100]) for f in r['failed']];[print('UNDECIDED',u) for u in r['undecided']]"
