#!/bin/bash
# builds the extensions of /repo in a copy without the local vcheck-pass tag (versioneer cannot parse it), copies them back
set -e
rm -rf /tmp/bx; cp -a /repo /tmp/bx
git -C /tmp/bx tag -d vcheck-pass >/dev/null 2>&1 || true
( . /opt/vp/env.sh; cd /tmp/bx; CYTHON_FORCE_REGEN=1 $PY setup.py build_ext --inplace --force >/tmp/bx.log 2>&1 )
cd /tmp/bx; find skbeam -name '*.so' -exec cp {} /repo/{} \;
rm -rf /tmp/bx
# the stamp /opt/vp/build_ext.sh leaves, so that it does not try again
cd /repo; mkdir -p build
eval "$(sed -n '/^inputs() {/,/^}/p;/^outputs()/p' /opt/vp/build_ext.sh)"
(inputs; echo --; outputs) > build/vp.stamp
