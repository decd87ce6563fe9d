. /opt/vp/env.sh
NYXMC_ROOT="$(cd "$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")" && pwd)"
export NYXMC_ROOT
export CARGO_TARGET_DIR="$NYXMC_ROOT/target"
export CARGO_PROFILE_DEV_DEBUG=0
