#!/bin/bash
# nothing to install: the checks build the tool from /repo themselves; this warms the build directory and parses the specification
cd "$(dirname "$0")" || exit 1
python3 - <<'P' || exit 1
import sys; sys.path.insert(0, "harness")
import sut
i = sut.Impl(["lts"]); print("build ok", round(i.build_s, 1), "s; driver:", i.driver_ok); i.close()
P
cd spec || exit 1
for f in *.tla; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }; done
rm -f /tmp/sany.$$; echo "specification parses"
