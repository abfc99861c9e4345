// One build of the library with some of its compile-time options, as seen from a harness that links several of them.
#pragma once

#include <Eigen/Core>

#include <string>
#include <vector>

#include "pbt.hpp"

namespace sides {

/// One iteration as a callback saw it
struct Step {
  int iteration;
  Eigen::VectorXd x, s, y, z, g;
  Eigen::MatrixXd H, A_e, A_i;
};

struct Out {
  std::string status;
  std::vector<Step> steps;
  Eigen::VectorXd x;
  std::string printed;
  std::vector<std::string> files;
  // About the problem
  bool bounded = false;     // has inequality constraints that are bounds
  bool nonlinear = false;   // has constraints or a cost beyond quadratic programming
  bool inequalities = false, equalities = false, diagnostics = false;
};

/// How a problem is made and judged
struct Kind {
  bool convex;     // with a known optimum
  bool judge;      // the outcome is judged as well
};

/// Makes a problem from the draws of the case, solves it and reports what happened
using Solve = Out(pbt::Case&, Kind);

}  // namespace sides

sides::Solve side_standard, side_nodiagnostics, side_projection;
