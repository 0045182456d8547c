#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   build the harness against /repo's working tree and decide one property
# check.sh replay <file>                 re-execute one recorded violation
# check.sh build                         build only
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER

# build <workspace> <package> <packages made of /repo's sources> <directories of /repo they are made of>
# Never trust time stamps alone: when the sources' content differs from what the last build saw, forget the library builds.
build() {
  local ws=$1 pkg=$2 libs=$3 dirs=$4 log stamp now args c
  export CARGO_TARGET_DIR="$PWD/$ws/target"
  log=$(mktemp)
  stamp="$CARGO_TARGET_DIR/repo-sources-$pkg.sha256"
  now=$(cd /repo && find $dirs -path '*/target' -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ -d "$CARGO_TARGET_DIR/release" ] && [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    args=""; for c in $libs; do args="$args -p $c"; done
    cargo clean --release --offline --manifest-path "$ws/Cargo.toml" $args >"$log" 2>&1
  fi
  if ! cargo build --release --offline --locked --manifest-path "$ws/Cargo.toml" -p "$pkg" >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "check.sh: $pkg does not build against /repo" >&2; return 2
  fi
  rm -f "$log"
  printf '%s\n' "$now" > "$stamp"
}
geometry="cv-core cv-geom cv-pinhole cv-optimize eight-point lambda-twist nister-stewenius"
pipeline="cv-core cv-geom cv-pinhole cv-optimize eight-point lambda-twist"
build_vmc()   { build harness vmc "$geometry" "$geometry"; }
build_vmc_k() { build sfm vmc-k "akaze akaze-par cv-core" "akaze cv-core"; }
build_vmc_h() { build sfm vmc-h "akaze-priv cv-core" "akaze cv-core"; }
build_vmc_r() { build sfm vmc-r "akaze cv-sfm $pipeline" "akaze cv-sfm $pipeline"; }

id=$1
[ "$id" = replay ] && id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
case $id in
  build)
    build_vmc || exit 2
    # The checks of akaze and cv-sfm build their own part again; trouble there must not stop the others.
    build_vmc_k; build_vmc_h; build_vmc_r
    exit 0 ;;
  K02) build_vmc_h || exit 2; exec sfm/target/release/vmc-h "$@" ;;
  K*)  build_vmc_k || exit 2; exec sfm/target/release/vmc-k "$@" ;;
  R*)  build_vmc_r || exit 2; exec sfm/target/release/vmc-r "$@" ;;
  *)   build_vmc || exit 2; exec harness/target/release/vmc "$@" ;;
esac
