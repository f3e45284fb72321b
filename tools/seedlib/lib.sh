# Builds the allocator from the working tree (cwd) with a demonstration program; system calls of the allocator go
# through the program's hooks (hm.h).  hm_build OUT SRC "CONFIG_X=y ..." [compiler flags...]
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
ulimit -c 0
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/hmdemo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
hm_build() {
    local out=$1 src=$2 over=$3; shift 3
    local base=config/default.mk flags=() k v d c kv
    while read -r k v; do
        for kv in $over; do [ "${kv%%=*}" = "$k" ] && v=${kv#*=}; done
        d=$(grep -o -- "-D[A-Z_]*=\$($k)" Makefile | head -1); [ -n "$d" ] || continue
        d=${d#-D}; flags+=("-D${d%%=*}=$v")
    done < <(sed -n 's/^\(CONFIG_[A-Z_]*\) *:= *\([^ #]*\).*/\1 \2/p' $base)
    for c in mmap munmap mprotect madvise mremap getrandom write pkey_alloc pkey_set pkey_mprotect prctl pthread_mutex_lock pthread_mutex_unlock; do flags+=("-D$c=hm_$c"); done
    local common=(-O1 -g -w -DH_MALLOC_PREFIX -D_GNU_SOURCE -I include -I . "$@")
    local objs=()
    for c in chacha h_malloc memory pages random util; do
        gcc -std=c17 "${common[@]}" "${flags[@]}" -c $c.c -o "$T/$c.o" || exit 99
        objs+=("$T/$c.o")
    done
    case $src in
    *.cc) g++ -std=c++17 -fsized-deallocation "${common[@]}" -c new.cc -o "$T/new.o" || exit 99
          g++ -std=c++17 -fsized-deallocation "${common[@]}" -I "$D" "$D/$src" "$T/new.o" "${objs[@]}" -o "$out" -lpthread || exit 99;;
    *) gcc -std=gnu17 "${common[@]}" -I "$D" "$D/$src" "${objs[@]}" -o "$out" -lpthread || exit 99;;
    esac
}
