# usage: t.sh unit function callees...   (extra defines in D, extra cbmc options in X)
f=$2; u=$1; shift 2
I="-I/verif/harness -I/repo -I/repo/src -I/repo/dt101 -I/repo/gnulib -DHAVE_CONFIG_H -DASM6809_VERIFY -DVH_CBMC $D"
goto-cc $I $u.c -o /tmp/x/$u.g --function vh_main && goto-instrument --dfcc vh_main --enforce-contract $f $(for r in "$@"; do echo --replace-call-with-contract $r; done) --apply-loop-contracts /tmp/x/$u.g /tmp/x/$u.g2 > /tmp/x/$u.log 2>&1; tail -2 /tmp/x/$u.log; time timeout ${T:-200} cbmc /tmp/x/$u.g2 ${U:---unwind 7 --unwindset instr_indexed2.0:25} --no-signed-overflow-check --no-malloc-may-fail --object-bits ${OB:-8} $X >/tmp/x/$u.out 2>&1; grep -E "FAILURE|failed|UNKNOWN|not enough|no body" /tmp/x/$u.out
