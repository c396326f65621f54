#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE                 run a recorded violation on the compiled code
# check.sh setup                       build the engine
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
bin=$here/out/bin/engine
mkdir -p "$here/out/bin"
(cd "$here/engine" && go build -o "$bin" .) || exit 2
case $1 in
setup) exit 0 ;;
replay) exec "$bin" replay -repo /repo -verif "$here" "$2" ;;
*) exec "$bin" check -repo /repo -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
