#!/bin/bash
# selfcheck.sh: is the simulated Go the same as the real one? A program which
# uses every construct the instrumenter rewrites (sim/torture) runs as it is, and
# again, instrumented, in the simulator, under many schedules, at the start of
# every session of a scratch copy of /repo; the outcome has to be the same.
#
# sim/diskcheck compares the simulated disk with a real one likewise.
set -e
V=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/selfcheck.XXXXXX)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cp -a "${REPO:-/repo}" "$T/repo"
mkdir "$T/repo/internal/torture"
cp "$V/sim/torture/torture.go" "$T/repo/internal/torture/"
cat >"$T/repo/internal/torture/want_test.go" <<E2
package torture

import (
	"os"
	"testing"
)

func TestWant(t *testing.T) { _ = os.WriteFile("$T/want", []byte(Run()), 0o600) }
E2
(cd "$T/repo" && go test -vet=off -count=1 ./internal/torture >/dev/null)
rm "$T/repo/internal/torture/want_test.go"
python3 - "$T" <<'E2'
import sys
t = sys.argv[1]
p = t + '/repo/driver.go'
s = open(p).read()
s = s.replace('	d.init()\n', '''	if got := torture.Run(); got != tortured {
		a, b := strings.Split(got, "|"), strings.Split(tortured, "|")
		for i := range min(len(a), len(b)) {
			if a[i] != b[i] {
				panic(fmt.Sprintf("TORTURE %d: %q, really %q", i, a[i], b[i]))
			}
		}
		panic("TORTURE length")
	}
	d.init()
''', 1)
s = s.replace('internal/third/bus"', 'internal/third/bus"\n	"fmt"\n	"strings"\n	"github.com/snivilised/agenor/internal/torture"', 1)
s += '\nconst tortured = `' + open(t + '/want').read() + '`\n'
open(p, 'w').write(s)
E2
REPO=$T/repo bash "$V/build.sh" "$T/b"
REPO=$T/repo bash "$V/build.sh" "$T/r" race
for p in C01 C02 C06; do
  "$T/b/sim" -prop $p -survey -runs "${RUNS:-3000}" -known "$V/known-findings.jsonl" 2>&1 | grep -v '^cover\|^faults' | cut -c1-1000
done
for p in C19 C21; do
  "$T/r/sim" -prop $p -survey -runs "${RUNS:-300}" -known "$V/known-findings.jsonl" 2>&1 | grep -v '^cover\|^faults' | cut -c1-1000
done
cd "$V/sim/diskcheck" && TMPDIR=$T go run . -runs "${RUNS:-20000}"
