#!/bin/sh
# Nothing has to be built ahead: parse the specifications and check that the tool under test can be imported.
cd "$(dirname "$0")" || exit 2
T=$(mktemp -d) || exit 2
cp spec/*.tla "$T"/ && cd "$T" || exit 2
rc=0
for m in MC*.tla Trace*.tla; do
  JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=$T" tla-sany "$m" >"$T/log" 2>&1 || { cat "$T/log"; rc=1; }
done
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import vss_tools, yaml' || rc=1
rm -rf "$T"
exit $rc
