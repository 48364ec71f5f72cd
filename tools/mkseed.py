"""mkseed.py ID PROPERTY FILE OLD NEW MAIN.RS NEEDS BREAKS: plants a bug under seeded/ID (development aid; no check reads it)."""
import sys, os, subprocess, json, shutil
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
lofty = { path = "$repo/lofty" }
ogg_pager = { path = "$repo/ogg_pager" }
[profile.dev]
debug = 0
EOF
cd "$d" && CARGO_TARGET_DIR="$d/t" RUSTFLAGS='--cap-lints allow@CFG@' cargo run -q --offline
'''


REPO = os.environ.get('SEED_REPO', '/tmp/wt')


def plant(sid, prop, edits, main, needs, breaks, hooks=()):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout
    for f, old, new in edits:
        p = REPO + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    cfg = ''.join(f' --cfg lofty_verif="{h}"' for h in hooks)
    open(d + '/demo.sh', 'w').write(DEMO.replace('@CFG@', cfg))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(main)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('planted', sid)
