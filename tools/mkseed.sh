#!/bin/bash
# mkseed.sh ID: take the diff of the scratch worktree /tmp/seed/ID against /repo's HEAD, verify it and its demonstration.
# The demonstration test is /verif/seeded/ID/demo_test.go ("// dir: <pkg>" on its first line).
set -e
id=$1
d=/verif/seeded/$id
w=/tmp/seed/$id
mkdir -p "$d"
[ -d "$w" ] && (cd "$w" && git diff HEAD > "$d/patch.diff")
cat > "$d/demo.sh" <<'X'
#!/bin/bash
# runs demo_test.go inside its package through an overlay; everything it writes stays in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
pkg=$(head -1 "$here/demo_test.go" | sed 's,^// dir: *,,')
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$pkg" "$here" > "$tmp/o.json"
export DEMO_SCRATCH="$tmp/scratch" TMPDIR="$tmp/tmp"; mkdir -p "$DEMO_SCRATCH" "$TMPDIR"
timeout 200 go test -overlay "$tmp/o.json" -vet=off -count=1 -run '^TestDemo' "./$pkg"
X
chmod +x "$d/demo.sh"
