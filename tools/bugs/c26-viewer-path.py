PROPERTY = "C26"
FILE = "tools/fm-viewer/FeatureModelViewer.cpp"
OLD = """  } else if (!Out.empty()) {
"""
NEW = """  } else if (!Out.empty() && Viewer.empty()) {
"""
NEEDS = "both an output file and a viewer on the command line"
BREAKS = "-o does not disable the viewer and writes no file."
DEMO_SH = r"""#!/bin/bash
t=$(mktemp -d) || exit 3
trap 'find "$t" -delete' EXIT
cat >"$t/m.xml" <<'X'
<?xml version="1.0" encoding="UTF-8"?>
<!DOCTYPE vm SYSTEM "vm.dtd">
<vm name="m" root="">
  <binaryOptions>
    <configurationOption><name>root</name><optional>False</optional></configurationOption>
    <configurationOption><name>a</name><parent>root</parent><optional>True</optional></configurationOption>
  </binaryOptions>
</vm>
X
printf '#!/bin/sh\ntouch "%s/seen"\n' "$t" >"$t/view"
chmod +x "$t/view"
viewer=$(find _build -name fm-viewer -type f -perm -u+x | head -1)
[ -n "$viewer" ] || exit 4
TMPDIR="$t" timeout 60 "$viewer" -viewer "$t/view" -o "$t/g.dot" "$t/m.xml" </dev/null || exit 1
sleep 1
[ -s "$t/g.dot" ] || { echo "no graph was written"; exit 1; }
[ ! -e "$t/seen" ] || { echo "the viewer was started"; exit 1; }
exit 0
"""
