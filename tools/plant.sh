#!/bin/bash
# plant.sh ID PROPERTY 'needs' 'breaks' FILE 'python expression on s' < demo.cpp : create and confirm a seeded bug in a scratch copy
set -e
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4 FILE=$5 EXPR=$6
W=/tmp/plant-w; D=/verif/seeded/$ID
[ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
mkdir -p $D; cat > $D/demo.cpp
cat > $D/demo.sh <<'X'
#!/bin/bash
# run in /repo after the build
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1 -DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1 -DNDEBUG -Iinclude "$H/demo.cpp" _build/libfastgltf.a -lsimdjson -o "$T/demo" || exit 99
cd "$T" && "$T/demo"
X
chmod +x $D/demo.sh
python3 - "$W/$FILE" "$EXPR" <<'P'
import sys
s=open(sys.argv[1]).read(); o=s
def R(a,b,n=1):
    global s
    assert s.count(a)>=1, "no match: "+a
    if n==1: assert s.count(a)==1, "%d matches: %s"%(s.count(a),a)
    s=s.replace(a,b) if n==0 else s.replace(a,b,1)
def RN(a,b,k):
    global s
    parts=s.split(a); assert len(parts)>k+1
    s=a.join(parts[:k+1])+b+a.join(parts[k+1:])
exec(sys.argv[2])
assert s!=o
open(sys.argv[1],"w").write(s)
P
git -C $W diff > $D/patch.diff
python3 - <<P
import json
json.dump(dict(property="$PROP",needs="""$NEEDS""",what_it_breaks="""$BREAKS"""),open("$D/meta.json","w"),indent=1)
P
set +e; cd /repo && bash $D/demo.sh >/tmp/plant.base 2>&1; A=$?
# swap via a build in the copy (paths inside build dir refer to /repo, so build the objects by hand)
cd $W && mkdir -p /tmp/plant-o && for f in src/*.cpp; do g++ -std=c++17 -O2 -g -DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1 -DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1 -DNDEBUG -Iinclude -Isrc -c $f -o /tmp/plant-o/$(basename $f).o & done; wait
ar rcs $W/_build/libfastgltf.a.new /tmp/plant-o/*.o && mv $W/_build/libfastgltf.a.new $W/_build/libfastgltf.a
bash $D/demo.sh >/tmp/plant.mut 2>&1; B=$?
echo "$ID base=$A mutated=$B"; tail -3 /tmp/plant.mut
[ $A = 0 ] && [ $B != 0 ] && [ $B != 99 ]
