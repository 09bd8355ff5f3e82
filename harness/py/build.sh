#!/bin/bash
# build.sh OUT: a tree of Python modules in OUT: the demo's sources from /repo, its
# messages, and stand-ins for the libraries that are not installed.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
PY=/opt/fcp/pyvenv/bin/python
SITE=$(echo /opt/fcp/pyvenv/lib/python3*/site-packages)
mkdir -p "$OUT"
T=$(mktemp -d "$OUT/tree.XXXXXX")
mkdir -p "$T/fcp/demo"
for f in /repo/fcp/demo/*.py; do
  case $f in
    */__init__.py|*_test.py) ;;
    *) cp "$f" "$T/fcp/demo/" ;;
  esac
done
cd /repo
$PY -m grpc_tools.protoc -I/repo -I"$HERE/../../shim/protos" -I"$HERE/../../shim/py" -I"$SITE" --python_out="$T" \
  fcp/protos/plan.proto fcp/protos/population_eligibility_spec.proto fcp/protos/federated_api.proto \
  fcp/secagg/shared/secagg_messages.proto \
  fcp/protos/federatedcompute/{aggregations,common,eligibility_eval_tasks,task_assignments}.proto \
  $(cd "$HERE/../../shim/protos" && find tensorflow -name '*.proto') \
  verif_gateway.proto \
  $(cd "$HERE/../../shim/py" && find tensorflow_federated -name '*.proto')
cp -r "$HERE"/../../shim/py/. "$T/"
cp "$HERE"/*.py "$T/"
echo "$T"
