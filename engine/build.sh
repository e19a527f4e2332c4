#!/bin/bash
# build.sh VARIANT: builds /repo's modules (current working tree) and the engine
# into /verif/build/VARIANT.  VARIANT: plain | asan
set -e
V=${1:-plain}
export LC_ALL=C
E=/verif/engine
B=/verif/build/$V
mkdir -p /verif/build
exec 9>/verif/build/.lock.$V
flock 9
T=$(cat $E/build.sh $E/shim/collect.sh $E/shim/*/config /repo/modules/*/config /usr/share/nginx/src/conf_flags | sha256sum)
if [ "$(cat $B/.stamp 2>/dev/null)" != "$T" ]; then
    rm -rf "$B"
    mkdir -p $B
    ln -s /usr/share/nginx/src/{auto,configure,src} $B/
    mkdir $B/objs
    . /usr/share/nginx/src/conf_flags
    cd $B
    ./configure "${NGX_CONF_FLAGS[@]}" --with-cc=gcc --with-cc-opt='-g -O1 -Wno-error -MMD -MP' \
        --add-dynamic-module=$E/shim/pingos \
        --add-dynamic-module=/repo/modules/nginx-ts-module > configure.log 2>&1
    P=$(cat objs/pingos.name)
    cat > vx.mk <<EOM
default: objs/$P.so objs/ngx_http_ts_module.so
include objs/Makefile
-include \$(wildcard objs/*.d objs/*/*.d objs/*/*/*.d objs/*/*/*/*.d)
EOM
    echo "$T" > .stamp
fi
cd $B
X="-Dngx_shmtx_lock=vx_shmtx_lock -Dngx_shmtx_unlock=vx_shmtx_unlock -Dngx_shmtx_trylock=vx_shmtx_trylock"
if [ $V = asan ]; then
    X="$X -fsanitize=address -fno-omit-frame-pointer -Dngx_palloc=vx_palloc -Dngx_pnalloc=vx_pnalloc -Dngx_pcalloc=vx_pcalloc"
fi
make -f vx.mk -j8 CC="gcc $X" > make.log 2>&1 || { tail -40 make.log >&2; exit 1; }
INC=$(sed -n 's/^ALL_INCS = //p' objs/Makefile >/dev/null; echo "-I src/core -I src/event -I src/event/modules -I src/os/unix -I src/http -I src/http/modules -I src/http/v2 -I objs -I /repo/modules/nginx-rtmp-module -I /repo/modules/nginx-rtmp-module/hls -I /repo/modules/nginx-rtmp-module/dash -I /repo/modules/nginx-rtmp-module/mpegts -I /repo/modules/nginx-rtmp-module/json -I /repo/modules/nginx-client-module -I /repo/modules/nginx-multiport-module -I /repo/modules/nginx-toolkit-module -I /repo/modules/nginx-rtmp-module/http -I /repo/modules/nginx-ts-module/src")
echo "$INC" > inc
gcc -g -O1 -fPIC $INC -c $E/vxpool.c -o vxpool.o
if [ ! vx.so -nt $E/vx.cc ] || [ ! vx.so -nt $E/vx.h ] || [ ! vx.so -nt $E/vxpool.c ] || [ ! vx.so -nt $E/build.sh ]; then
    g++ -std=c++17 -O1 -g -fPIC -c -fno-builtin -U_FORTIFY_SOURCE $E/vx.cc -o vx.o
    g++ -shared -o vx.so vx.o vxpool.o -ldl
fi
