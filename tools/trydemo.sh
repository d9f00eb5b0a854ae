#!/bin/bash
# tools/trydemo.sh CLONE ID...: runs the demos on a scratch clone of /repo, without and with the patch
c=$1; shift
git -C "$c" fetch -q /repo HEAD 2>/dev/null; git -C "$c" checkout -qf FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id
  x=$(mktemp -d); cp -r "$d" "$x/d"; rm -f "$x/d/patch.diff" "$x/d/meta.json"
  (cd "$c" && bash "$x/d/demo.sh" > "$x/o1" 2>&1); a=$?
  git -C "$c" apply "$d/patch.diff" || echo "patch of $id does not apply"
  (cd "$c" && bash "$x/d/demo.sh" > "$x/o2" 2>&1); b=$?
  git -C "$c" checkout -qf -- .
  if [ $a = 0 ] && [ $b != 0 ]; then echo "ok   $id: $(tail -1 "$x/o2")"; else echo "BAD  $id clean=$a patched=$b"; tail -5 "$x/o1" "$x/o2"; fi
  rm -rf "$x"
done
