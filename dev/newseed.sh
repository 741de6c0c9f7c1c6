#!/bin/bash
# dev/newseed.sh <id> <property> <needs> <breaks>: files patch from /tmp/m/<id>.diff, demo from /tmp/m/<id>.cc
S=/verif/seeded/$1; mkdir -p $S
cp /tmp/m/$1.diff $S/patch.diff; [ -f /tmp/m/$1.cc ] && cp /tmp/m/$1.cc $S/demo.cc
python3 -c 'import json,sys; json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},open(sys.argv[4],"w"),indent=1)' "$2" "$3" "$4" $S/meta.json
cat > $S/demo.sh <<'D'
#!/bin/bash
# compiles demo.cc against /repo's headers and library and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
g++ -std=gnu++17 -O1 -fopenmp -fno-access-control -I"$R/include" -I"$R/_build/include" -I/usr/include/eigen3 "$H/demo.cc" -o demo \
  -L"$R/_build/src" -lcmaes -Wl,-rpath,"$R/_build/src" || exit 2
timeout 200 ./demo
D
