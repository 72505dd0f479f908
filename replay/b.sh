set -e
F="-O1 -g -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer -I/repo -I/verif/replay"
D=${D:-/tmp/w/rb}; mkdir -p $D
clang $F -include alloc_hook.h -c /repo/opm/utility/graph/tarjan.c -o $D/tarjan.o &
clang $F -c alloc_hook.c -o $D/hook.o &
for f in flowdiagnostics/{CellSet,ConnectionValues,ConnectivityGraph,DerivedQuantities,Solution,Toolbox,TracerTofSolver} utility/graph/AssembledConnections utility/numeric/RandomVector; do
clang++ -std=c++11 $F -D_GLIBCXX_ASSERTIONS -c /repo/opm/$f.cpp -o $D/$(basename $f).o &
done; wait
for h in "$@"; do clang++ -std=c++14 $F $h.cpp $D/*.o -o $D/$h.exe & done; wait
