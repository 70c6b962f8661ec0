#!/bin/bash
# run.sh ID [options]  - builds the check of property ID from /repo's working tree and runs it.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$V
id=$1
case $id in
	C01|C02|C07) g=request;;
	C03|C04|C05|C06) g=session;;
	C08) g=slow;;
	C09|C10) g=file;;
	C11|C12|C13) g=route;;
	C14|C15) g=proxy;;
	C16|C22) g=parser;;
	C17|C18|C19) g=client;;
	C20) g=nam;;
	C21|C24) g=server;;
	C23) g=script;;
	*) echo "unknown property $id" >&2; exit 3;;
esac
"$V/build.sh" $g || exit 3
export LC_ALL=C.UTF-8
export OPENSSL_CONF=$V/harness/openssl.cnf
exec "${VERIF_BUILD:-$V/build}/check_$g" "$@"
