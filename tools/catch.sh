# usage: catch.sh id...   (applies to a scratch copy of /repo, runs the property's check there)
one() {
id=$1; D=/tmp/catch-$id-$$; rm -rf "$D"; mkdir -p $D
git clone -q /repo $D/repo; mkdir -p $D/repo/release; cp /repo/release/head.go $D/repo/release/ 2>/dev/null
mkdir $D/v; cp -r /verif/contracts /verif/drivers /verif/govc /verif/check.sh /verif/env.sh /verif/tools /verif/known-findings.txt /verif/properties.jsonl /verif/MANIFEST.json $D/v/
p=${P:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C $D/repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; rm -rf "$D"; return; }
out=$(cd $D/v && GOVC_REPO=$D/repo timeout 900 bash check.sh $p quick 2>&1); rc=$?
echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | head -2) $([ -n "$V" ] && echo "$out" | cut -c1-300 | head -$V)"
rm -rf "$D"
}
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
