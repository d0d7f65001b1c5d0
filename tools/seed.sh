#!/bin/bash
# seed.sh ID [check]: confirms seeded/ID in the scratch copy /tmp/wt: applies, builds, passes the stable tests,
# demo fails with it and passes without it.
id=$1; d=/verif/seeded/$id; wt=/tmp/wt
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
[ -d $wt ] || cp -a /repo $wt
git -C $wt fetch -q /repo HEAD && git -C $wt reset -q --hard FETCH_HEAD
cd $wt || exit 2
bash $d/demo.sh >/tmp/demo0.log 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/demo0.log; exit 1; }
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
(cargo test --workspace --all-features --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 --skip test_validated::performance_tests > /tmp/tests.log 2>&1
cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 > /tmp/doc.log 2>&1)
python3 /opt/vp/results.py /tmp/seed-out.json cargo:/tmp/tests.log cargo:/tmp/doc.log >/dev/null
python3 - <<'P' || { echo "$id: tests fail"; exit 1; }
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seed-out.json'))
p=o.get('passed',[]); p=set(p if isinstance(p,list) else p.keys())
miss=[x for x in b if x not in p]
print(len(b)-len(miss),'of',len(b)); print(miss[:5]); raise SystemExit(1 if miss else 0)
P
if bash $d/demo.sh >/tmp/demo1.log 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi
tail -3 /tmp/demo1.log; echo "$id: OK"
git reset -q --hard
