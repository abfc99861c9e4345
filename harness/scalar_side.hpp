// The same statements with different scalar types, as seen from a harness that compares them.
#pragma once

#include <string>
#include <vector>

#include "model.hpp"
#include "refexpr.hpp"

namespace scalars {

using LD = long double;

/// What a program of scalar expressions is asked for
struct ExprJob {
  ref::Prog prog;
  int root;
  std::vector<int> wrt;                     // leaves
  std::vector<std::vector<double>> updates;  // leaf values of each round
  uint64_t forms;                           // how constants are spelled
};

/// A problem and how it is solved
struct ProblemJob {
  model::Model m;
  slp::Options options;
  bool params;
  bool again;  // solve a second time from the result
};

/// Numbers in the order they were asked for, and words about them
struct Out {
  std::vector<LD> v;
  std::vector<std::string> s;
};

}  // namespace scalars

#define SCALAR_SIDES(name)                                  \
  scalars::Out expr_##name(const scalars::ExprJob& job);    \
  scalars::Out problem_##name(const scalars::ProblemJob&);  \
  scalars::Out matrix_##name(pbt::Case& c);                 \
  scalars::Out ocp_##name(pbt::Case& c);

SCALAR_SIDES(double)
SCALAR_SIDES(num)
scalars::Out expr_longdouble(const scalars::ExprJob& job);
scalars::Out expr_float(const scalars::ExprJob& job);
