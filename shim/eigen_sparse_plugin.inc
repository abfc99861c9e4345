// Eigen main: SparseMatrix::setFromSortedTriplets(). The precondition (sorted in
// storage order) is checked, as an Eigen main debug build does.
template <typename It>
void setFromSortedTriplets(const It& b, const It& e) {
  for (It it = b; it != e; ++it) {
    if (it != b) {
      It p = it;
      --p;
      Index po = IsRowMajor ? p->row() : p->col(), pi = IsRowMajor ? p->col() : p->row();
      Index o = IsRowMajor ? it->row() : it->col(), i = IsRowMajor ? it->col() : it->row();
      if (o < po || (o == po && i < pi)) {
        std::fputs("eigen_compat: setFromSortedTriplets() given unsorted triplets\n", stderr);
        std::abort();
      }
    }
    if (it->row() < 0 || it->row() >= rows() || it->col() < 0 || it->col() >= cols()) {
      std::fputs("eigen_compat: triplet index out of range\n", stderr);
      std::abort();
    }
  }
  setFromTriplets(b, e);
}
