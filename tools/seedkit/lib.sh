# Sourced by demo.sh with the working directory at the repository. Everything happens in a scratch directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
CXX=${CXX:-g++}
LDQ="-no-pie -z noexecstack"
BN_R=21888242871839275222246405745257275088548364400416034343698204186575808495617
BN_Q=21888242871839275222246405745257275088696311157297823662689037894645226208583
P256=115792089210356248762697446949407573530086143415290314195533631308867097853951
P384=39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112319
P192=6277101735386680763835789423207666416083908700390324961279
P64=18446744073709551557
P63=9223372036854775783

gen() {    # gen PRIME NAME
    (cd "$T" && NODE_PATH="$here/shims/node_modules" node "$repo/src/buildzqfield.js" -q "$1" -n "$2" > /dev/null)
    for i in 1 2 3 4 5 6 7 8 9 10; do [ -s "$T/$(echo "$2" | tr A-Z a-z)_raw_arm64.s" ] && break; sleep 0.2; done
}
lower() { echo "$1" | tr A-Z a-z; }
# objs BACKEND NAME [flags]: the objects of a generated field, into $T/NAME.BACKEND.d
objs() {
    b=$1; n=$(lower "$2"); shift 2
    d=$T/$n.$b.d; mkdir -p "$d"
    case $b in
    asm) nasm -felf64 "$T/$n.asm" -o "$d/asm.o"
         $CXX -w -std=c++11 -O1 -g "$@" -DUSE_ASM -DARCH_X86_64 -c "$T/$n.cpp" -o "$d/f.o" ;;
    gen) for f in "" _generic _raw_generic; do $CXX -w -std=c++11 -O1 -g "$@" -c "$T/$n$f.cpp" -o "$d/f$f.o"; done ;;
    arm) for f in "" _generic _raw_generic; do $CXX -w -std=c++11 -O1 -g "$@" -DUSE_ASM -DARCH_ARM64 -c "$T/$n$f.cpp" -o "$d/f$f.o"; done
         $CXX -w -std=c++17 -O2 -I"$T" "-DARM_S=\"$T/${n}_raw_arm64.s\"" -c "$here/armvm.cpp" -o "$d/vm.o" ;;
    esac
}
defs() { case $1 in asm) echo "-DUSE_ASM -DARCH_X86_64" ;; arm) echo "-DUSE_ASM -DARCH_ARM64" ;; *) echo "" ;; esac; }
# field BACKEND PRIME [flags]: generate Fr for PRIME, build the demo's main.cpp against it and run it
field() {
    b=$1; p=$2; shift 2
    rm -rf "$T"/fr*
    gen "$p" Fr
    objs "$b" Fr "$@"
    $CXX -w -std=c++17 -O1 -g "$@" $(defs "$b") -I"$T" -I"$here" "$here/main.cpp" "$T"/fr."$b".d/*.o -lgmpxx -lgmp $LDQ -o "$T/demo"
    timeout 100 "$T/demo"
}
# comp BACKEND "NAME=PRIME ..." "sources under c/" [flags]: build main.cpp with components of the repository and run it
comp() {
    b=$1; fs=$2; src=$3; shift 3
    os=""
    for fp in $fs; do gen "${fp#*=}" "${fp%%=*}"; objs "$b" "${fp%%=*}"; os="$os $T/$(lower "${fp%%=*}").$b.d/*.o"; done
    s=""; for x in $src; do s="$s $repo/c/$x"; done
    $CXX -w -std=c++17 -O1 -g -include stdexcept "$@" $(defs "$b") -I"$T" -I"$here" -I"$repo/c" $os $s "$here/main.cpp" -lgmpxx -lgmp -pthread $LDQ -o "$T/demo"
    timeout 200 "$T/demo"
}
