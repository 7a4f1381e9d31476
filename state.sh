# Sourced: objects of another state of the sources are never reused, whatever
# their dates.
mkdir -p build
state=$(cd "${REPO:-/repo}" && find include lib tools bindings -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat build/state 2>/dev/null)" != "$state" ]; then
  find "$PWD/build" -name '*.o' -delete
  echo "$state" >build/state
fi
