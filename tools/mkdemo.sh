#!/bin/bash
# mkdemo.sh ID NP [config] [args]: writes a demo.sh that runs deck.cc on NP ranks and looks for DEMO OK
d=/tmp/w/seeded/$1; np=${2:-1}; cfg=${3:-ref}; args=$4
cat > $d/demo.sh <<X
#!/bin/bash
# Compiles the deck beside this file against the built library and runs it; the deck prints DEMO OK when the property holds.
here=\$(cd "\$(dirname "\$0")" && pwd); repo=\$(pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/true OMPI_MCA_hwloc_base_binding_policy=none
w=\$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "\$w"' EXIT
cp "\$here"/deck.cc "\$w"/ && cd "\$w" || exit 2
"\$repo"/_build/$cfg/bin/vpic deck.cc > build.log 2>&1 || { tail -20 build.log; exit 2; }
timeout 120 mpirun -np $np ./deck.Linux $args > out.log 2>&1
grep -q "DEMO OK" out.log && ! grep -q "DEMO BAD" out.log && exit 0
grep -a "DEMO" out.log | head; tail -5 out.log
exit 1
X
chmod +x $d/demo.sh
