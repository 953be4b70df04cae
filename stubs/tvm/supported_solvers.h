#pragma once
#include <tvm/solver/defaultLeastSquareSolver.h>
