#!/bin/bash
# compiles the integrators of the repository with stand-ins for pybind11 and GSL and runs demo.cpp
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/pybind11" "$T/gsl"
cp "$H/pybind11_stub.h" "$T/pybind11/pybind11.h"
cp "$H/gsl_stub.h" "$T/gsl/gsl_integration.h"
touch "$T/pybind11/stl.h" "$T/pybind11/numpy.h" "$T/gsl/gsl_errno.h" "$T/gsl/gsl_math.h"
D="$PWD/interactions/WHICH_particle/cpp"
S=("$D/integral.cpp")
[ -f "$D/Ds.cpp" ] && S+=("$D/Ds.cpp")
# the extensions are not buildable here: not being able to compile shows nothing
g++ -std=c++14 -O1 -w -fopenmp -I"$T" -I"$D" "${S[@]}" "$H/demo.cpp" -o "$T/demo" || exit 3
"$T/demo"
