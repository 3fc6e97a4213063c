# newpy ID "needs" "breaks" <<E  (development tool; source it): a planted change of the Python package, with the small mpi4py
newpy() {
  d=/verif/seeded/$1; mkdir -p $d; rm -rf $d/mpi4py; cp -r /verif/tools/demo_py/mpi4py /verif/tools/demo_py/ranks.py /verif/tools/demo_py/demo.sh $d/
  echo "$2" > $d/needs.txt; echo "$3" > $d/breaks.txt
  cat > $d/demo.py
}
# newgf: with the stand-ins for the compiled modules as well
newgf() {
  newpy "$@"; cp /verif/tools/demo_py/stubs.py /verif/sim/py/pytriqs.py /verif/seeded/$1/
}
# newplain: the same without the small mpi4py
newplain() {
  d=/verif/seeded/$1; mkdir -p $d; cp /verif/tools/demo_py/demo.sh $d/
  echo "$2" > $d/needs.txt; echo "$3" > $d/breaks.txt
  cat > $d/demo.py
}
