#!/bin/bash
# usage: mkdemo.sh ID < demo.c : creates the demo of a planted bug
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.c
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
gcc -w -Iinclude -Iinclude/libfirm -Ibuild/gen/include/libfirm -Ibuild/gen/include $DEMO_CFLAGS "$here/demo.c" build/debug/libfirm.a -lm -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
X
