// Eigen main: coefficient-wise helpers
auto cwiseSquare() const { return derived().cwiseProduct(derived()); }
auto cwiseGreater(const Scalar& s) const { return (derived().array() > s); }
auto cwiseLess(const Scalar& s) const { return (derived().array() < s); }
auto cwiseGreaterOrEqual(const Scalar& s) const { return (derived().array() >= s); }
auto cwiseLessOrEqual(const Scalar& s) const { return (derived().array() <= s); }
