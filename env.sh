# sourced by check.sh and setup.sh: the toolchain of the sandbox, offline
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off CGO_ENABLED=1 TZ=UTC LC_ALL=C
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOEXPERIMENT GODEBUG GOMEMLIMIT GOGC

# build_check cNN OUT: builds a check, with the race detector when it has a file "race", and with
# the files of its "_overlay" added to the packages of /repo (they open internals to the check)
build_check() {
  local dir=$PWD/harness/checks/$1 opts=() sep= f
  [ -e "$dir/race" ] && opts+=(-race)
  if [ -d "$dir/_overlay" ]; then
    { printf '{"Replace":{'
      for f in $(cd "$dir/_overlay" && find . -name '*.go' -printf '%P\n' | sort); do
        printf '%s"/repo/%s":"%s"' "$sep" "$f" "$dir/_overlay/$f"
        sep=,
      done
      printf '}}'
    } >"$2.overlay.json"
    opts+=(-overlay "$2.overlay.json")
  fi
  (cd harness && go build "${opts[@]}" -o "$2" "./checks/$1")
}
