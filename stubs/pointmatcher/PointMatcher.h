// Declarations only: enough of libpointmatcher for the analysis front end.
#pragma once
#include <Eigen/Core>
#include <iomanip>
#include <istream>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace PointMatcherSupport {
struct Parametrizable {
  typedef std::map<std::string, std::string> Parameters;
};
template <typename T>
struct Registrar {
  std::shared_ptr<T> create(
      const std::string& name,
      const Parametrizable::Parameters& p = Parametrizable::Parameters()) const;
};
}  // namespace PointMatcherSupport
template <typename T>
struct PointMatcher {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Matrix;
  typedef Matrix TransformationParameters;
  typedef Matrix OutlierWeights;
  struct DataPoints {
    struct Label {
      Label(const std::string& t, size_t s);
    };
    typedef std::vector<Label> Labels;
    DataPoints();
    DataPoints(const Matrix& f, const Labels& l);
    unsigned getNbPoints() const;
    unsigned getEuclideanDim() const;
    Matrix features;
  };
  struct Matches {
    Matrix dists;
    Eigen::MatrixXi ids;
  };
  struct DataPointsFilter {};
  struct Transformation {};
  struct Inspector {};
  struct TransformationChecker {};
  struct OutlierFilter {};
  struct Matcher {
    virtual void init(const DataPoints&);
    virtual Matches findClosests(const DataPoints&);
  };
  struct ErrorMinimizer {
    struct ErrorElements {
      ErrorElements(const DataPoints&, const DataPoints&, const OutlierWeights&,
                    const Matches&);
      DataPoints reading, reference;
    };
  };
  struct Transformations : std::vector<std::shared_ptr<Transformation>> {
    void apply(DataPoints&, const TransformationParameters&) const;
  };
  struct OutlierFilters : std::vector<std::shared_ptr<OutlierFilter>> {
    OutlierWeights compute(const DataPoints&, const DataPoints&, const Matches&);
  };
  struct ICP {
    TransformationParameters operator()(const DataPoints&, const DataPoints&);
    TransformationParameters compute(const DataPoints&, const DataPoints&,
                                     const TransformationParameters&);
    void loadFromYaml(std::istream&);
    std::vector<std::shared_ptr<DataPointsFilter>> readingDataPointsFilters,
        referenceDataPointsFilters;
    std::shared_ptr<Matcher> matcher;
    OutlierFilters outlierFilters;
    std::shared_ptr<ErrorMinimizer> errorMinimizer;
    std::vector<std::shared_ptr<TransformationChecker>> transformationCheckers;
    std::shared_ptr<Inspector> inspector;
    Transformations transformations;
  };
  static PointMatcher& get();
  PointMatcherSupport::Registrar<DataPointsFilter> DataPointsFilterRegistrar;
  PointMatcherSupport::Registrar<Matcher> MatcherRegistrar;
  PointMatcherSupport::Registrar<OutlierFilter> OutlierFilterRegistrar;
  PointMatcherSupport::Registrar<ErrorMinimizer> ErrorMinimizerRegistrar;
  PointMatcherSupport::Registrar<TransformationChecker> TransformationCheckerRegistrar;
  PointMatcherSupport::Registrar<Transformation> TransformationRegistrar;
  PointMatcherSupport::Registrar<Inspector> InspectorRegistrar;
};
