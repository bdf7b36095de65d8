# sourced; builds /repo and the harnesses
. /opt/vp/env.sh
BUILD=$VERIF_DIR/build
mkdir -p "$BUILD" "$VERIF_DIR/evidence"
FLAGS="-std=c++17 -fopenmp -Wno-psabi -g -O1 -I/repo/src -I$VERIF_DIR/lib -I$VERIF_DIR/mcmpi -Desint=int -D__ESMODE__=RELEASE -DMESIO_INT_WIDTH=32 -DFETI4I_INT_WIDTH=32 -DHAVE_MKL=1 -DMKL_INT=int -DHAVE_METIS=1 -DHAVE_PARMETIS=1 -DHAVE_PTHREAD=1 -DHAVE_SUITESPARSE=1 -DHAVE_BLAS=1 -DHAVE_LAPACK=1 -DESPRESO_USE_WRAPPER_DNBLAS_MKL=1 -DESPRESO_USE_WRAPPER_DNSOLVER_MKL=1 -DESPRESO_USE_WRAPPER_LAPACK_MKL=1 -DESPRESO_USE_WRAPPER_SPBLAS_MKL=1 -DESPRESO_USE_WRAPPER_SPSOLVER_MKL=1 -DESPRESO_USE_WRAPPER_SCSOLVER_MKL=1"

build_repo() {
    ( exec 9>"$BUILD/.lock"; flock 9; bash /opt/vp/build.sh > "$BUILD/repo-build.log" 2>&1 ) || { tail -30 "$BUILD/repo-build.log" >&2; return 1; }
}
# all espreso libraries, in link order tolerant form
espreso_libs() { for f in /repo/build/lib*.so; do b=${f##*/lib}; printf -- "-l%s " "${b%.so}"; done; }

harness_of() {
    case $1 in
    C01|C02) HARNESS=comm ;;
    C03) HARNESS=load ;;
    C04|C05|C06) HARNESS=mesh ;;
    C07|C08|C09|C10) HARNESS=solve ;;
    C11) HARNESS=config ;;
    C12) HARNESS=gen ;;
    C13|C14) HARNESS=output ;;
    *) return 1 ;;
    esac
}
build_harness() {
    local h=$1 extra=""
    rm -f "$BUILD/$h" "$BUILD/$h.o" "$BUILD/mcmpi.$h.o"
    [ -f "$VERIF_DIR/checks/$h.flags" ] && extra=$(cat "$VERIF_DIR/checks/$h.flags")
    (
    cd "$BUILD" || exit 1
    mpic++ $FLAGS -O2 -c "$VERIF_DIR/mcmpi/mcmpi.cpp" -o mcmpi.$h.o &
    mpic++ $FLAGS $extra -c "$VERIF_DIR/checks/$h.cpp" -o $h.o || exit 1
    wait || exit 1
    mpic++ -fopenmp -rdynamic -o $h $h.o mcmpi.$h.o -L/repo/build -Wl,--no-as-needed $(espreso_libs) -Wl,--as-needed -Wl,-rpath,/repo/build -Wl,--allow-shlib-undefined -ldl -lpthread || exit 1
    ) > "$BUILD/$h.log" 2>&1 || { tail -40 "$BUILD/$h.log" >&2; return 1; }
}
