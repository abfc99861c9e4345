// Eigen main (C++23): multidimensional subscript
decltype(auto) operator[](Index r, Index c) { return derived()(r, c); }
decltype(auto) operator[](Index r, Index c) const { return derived()(r, c); }
