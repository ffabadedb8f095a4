#!/bin/bash
# mkseed.sh ID PKGDIR : makes seeded/ID from the edits in /tmp/sw (a scratch copy of /repo) and /tmp/demo/ID_test.go; run from anywhere.
set -e
id=$1 pkg=$2; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sw diff > $d/patch.diff
git -C /tmp/sw checkout -q -- .
cp /tmp/demo/${id}_test.go $d/zz_demo_test.go
cat > $d/demo.sh <<D
#!/bin/bash
# Runs the demonstration test inside $pkg (through an overlay) from the current directory.
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
export HOME=\${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
go=\$(command -v go1.24 || command -v go)
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/zz_demo_test.go"}}' "\$PWD" "\$here" > "\$t/o.json"
"\$go" test -overlay "\$t/o.json" -vet=off -count=1 -timeout 240s -run 'TestZZDemo' ./$pkg
D
echo made $id; wc -l $d/patch.diff
