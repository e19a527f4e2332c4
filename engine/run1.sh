#!/bin/bash
# run1.sh VARIANT SCEN.cc RUN CONF : development helper
V=$1; S=$2; R=$3; CF=$4
B=/verif/build/$V
g++ -std=c++17 -O1 -g -fPIC -shared -U_FORTIFY_SOURCE -o $B/scen_$(basename $S .cc).so $S || exit 1
D=$(mktemp -d /tmp/vxrun.XXXX)
{ echo "load_module $B/objs/ngx_live_module.so; load_module $B/objs/ngx_http_ts_module.so;"; cat $CF; } > $D/nginx.conf
PRE=$B/vx.so; [ $V = asan ] && PRE="$(gcc -print-file-name=libasan.so):$B/vx.so"
export LD_BIND_NOW=1 VX_SCEN=$B/scen_$(basename $S .cc).so VX_RUN=$R VX_ON=1
[ $V = asan ] && export VX_ASAN=1 ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_segv=1:verify_asan_link_order=0:detect_odr_violation=0
cd $D; TZ=UTC LD_PRELOAD=$PRE /usr/sbin/nginx -e stderr -p $D/ -c $D/nginx.conf; echo "exit $?"
[ -n "$KEEP" ] && echo $D || rm -rf "$D"
