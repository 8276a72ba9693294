// Declarations only: enough of libnabo for the analysis front end.
#pragma once
#include <Eigen/Core>
#include <limits>
namespace Nabo {
template <typename T>
struct NearestNeighbourSearch {
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vector;
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Matrix;
  typedef int Index;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, 1> IndexVector;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, Eigen::Dynamic> IndexMatrix;
  static constexpr T InvalidValue = std::numeric_limits<T>::infinity();
  enum SearchType { BRUTE_FORCE = 0, KDTREE_LINEAR_HEAP, KDTREE_TREE_HEAP };
  enum SearchOptionFlags { ALLOW_SELF_MATCH = 1, SORT_RESULTS = 2 };
  unsigned long knn(const Matrix& query, IndexMatrix& indices, Matrix& dists2,
                    const Index k = 1, const T epsilon = 0,
                    const unsigned optionFlags = 0,
                    const T maxRadius = std::numeric_limits<T>::infinity()) const;
  static NearestNeighbourSearch* create(
      const Matrix& cloud, const Index dim = 3,
      const SearchType preferedType = KDTREE_LINEAR_HEAP,
      const unsigned creationOptionFlags = 0);
  static NearestNeighbourSearch* createKDTreeLinearHeap(
      const Matrix& cloud, const Index dim = 3,
      const unsigned creationOptionFlags = 0);
  virtual ~NearestNeighbourSearch() {}
};
}  // namespace Nabo
