# newdemo ID "needs" "breaks" ["repo sources"] <<E  (development tool; source it): a planted change's folder with the kit's stand-ins
newdemo() {
  d=/verif/seeded/$1; mkdir -p $d; rm -rf $d/mini; mkdir $d/mini
  cp -r /verif/sim/stubs/* $d/mini/; cp /verif/tools/demo_kit/sim.hpp $d/mini/; cp -r /verif/tools/demo_mini/triqs $d/mini/
  cp /verif/tools/demo_kit/demo.sh $d/demo.sh
  [ -n "$4" ] && echo "$4" > $d/sources
  echo "$2" > $d/needs.txt; echo "$3" > $d/breaks.txt
  cat > $d/demo.cpp
}
