// C18: Gaussian sampling and sample statistics.
// @quick_scale: 5
#include "gen.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"

namespace {
using namespace gen;
using resim::math::Gaussian;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

Mat orthonormal(Src &s, int n) {
  Mat q = Mat::Identity(n, n);
  if (s.chance(1, 6)) return q;
  for (int i = 0; i < n; ++i) {
    for (int j = i + 1; j < n; ++j) {
      const double a = s.uniform(0, 2 * M_PI);
      Mat g = Mat::Identity(n, n);
      g(i, i) = g(j, j) = std::cos(a);
      g(i, j) = -std::sin(a);
      g(j, i) = std::sin(a);
      q = (q * g).eval();
    }
  }
  return q;
}

struct Params {
  Vec mu;
  Mat cov;
  int rank;
  double top;  // Largest eigenvalue, or a bound on it
  bool graded;
};

// A symmetric positive semi-definite matrix and a mean
Params params(Src &s, int n) {
  Params p{Vec::Zero(n), Mat::Zero(n, n), n, 0, false};
  const double scale = s.pick(std::vector<double>{1., 1e-3, 1e3, 1e6, 1e-6, 1e-12, 1e-18, 1e12});
  for (int i = 0; i < n; ++i) p.mu[i] = s.symmetric(s.coin() ? 10 : 1e3 * scale);
  switch (s.weighted({3, 2, 2, 1, 1, 1})) {
    case 0: {  // Full rank, moderately conditioned
      const Mat q = orthonormal(s, n);
      Vec d(n);
      for (int i = 0; i < n; ++i) d[i] = scale * s.uniform(0.1, 10);
      p.cov = q * d.asDiagonal() * q.transpose();
      break;
    }
    case 1: {  // Some of the variables are combinations of the others
      p.rank = static_cast<int>(s.range(0, n));
      Mat a = Mat::Zero(n, std::max(1, p.rank));
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < p.rank; ++j) a(i, j) = std::sqrt(scale) * s.symmetric(3);
      p.cov = a * a.transpose();
      break;
    }
    case 2: {  // All perfectly correlated
      p.rank = 1;
      p.cov = scale * s.uniform(0.1, 10) * Mat::Ones(n, n);
      break;
    }
    case 3: {  // Diagonal, some without any variance
      p.rank = 0;
      for (int i = 0; i < n; ++i) {
        p.cov(i, i) = s.coin() ? scale * s.uniform(0.1, 10) : 0.;
        p.rank += p.cov(i, i) > 0;
      }
      break;
    }
    case 4: {  // Widely different variances
      const Mat q = orthonormal(s, n);
      Vec d(n);
      for (int i = 0; i < n; ++i) d[i] = log_uniform(s, 1e-9, 1e6);
      p.cov = q * d.asDiagonal() * q.transpose();
      p.graded = true;
      break;
    }
    default:
      p.rank = 0;  // No variance at all
  }
  p.cov = ((p.cov + p.cov.transpose()) / 2).eval();
  p.top = p.cov.trace();
  return p;
}

void construct(Src &s) {
  const int n = s.chance(1, 30) ? static_cast<int>(s.range(9, 40)) : static_cast<int>(s.range(1, 8));
  const Params p = params(s, n);
  s.note("mu=", show(p.mu), " cov=", show(p.cov), " rank=", p.rank);
  s.label(p.rank < n ? "singular" : "regular");
  if (n > 1) s.nontrivial();
  Gaussian g{p.mu, p.cov};  // Refusing a covariance matrix is a failure
  PBT_CHECK(s, g.dimensionality() == static_cast<unsigned>(n), "dimensionality");
  PBT_CHECK(s, g.mu() == p.mu && g.cov() == p.cov, "parameters changed");
  const Mat &v = g.eigenvectors();
  const Vec &l = g.eigenvalues();
  PBT_CHECK(s, l.size() == n && l.minCoeff() >= 0, "eigenvalues ", show(l));
  PBT_CHECK(s, close(v.transpose() * v, Mat::Identity(n, n), 1e-12), "eigenvectors are not orthonormal");
  PBT_CHECK(s, close(v * l.asDiagonal() * v.transpose(), p.cov, 1e-12 * n * p.top), "the decomposition is not of the covariance");
  const Vec sq = g.sqrt_eigenvalues_mat().diagonal();
  PBT_CHECK(s, close(sq.cwiseProduct(sq), l, 1e-14 * (1e-300 + p.top)), "square roots");
  const unsigned count = s.chance(1, 30) ? static_cast<unsigned>(s.range(21, 3000)) : static_cast<unsigned>(s.range(0, 20));
  const Mat x = g.samples(count);
  PBT_CHECK(s, x.rows() == static_cast<int>(count) && x.cols() == n, "shape of the samples: ", x.rows(), "x", x.cols());
  const Mat one = g.sample();
  PBT_CHECK(s, one.rows() == 1 && one.cols() == n, "shape of one sample");
  // No sample leaves the space the covariance spans
  if (!p.graded) {
    const Eigen::SelfAdjointEigenSolver<Mat> es(p.cov);
    for (int k = 0; k < n; ++k) {
      if (k < n - p.rank) {
        const Vec dir = es.eigenvectors().col(k);
        const Vec off = (x.rowwise() - p.mu.transpose()) * dir;
        const double tol = 1e-6 * std::sqrt(p.top) + 1e-13 * n * (1 + p.mu.norm());
        PBT_CHECK(s, count == 0 || off.cwiseAbs().maxCoeff() <= tol, "samples vary in a direction without variance: ", off.cwiseAbs().maxCoeff());
      }
    }
  }
}

void distribution(Src &s) {
  const int n = static_cast<int>(s.range(1, 5));
  Params p = params(s, n);
  const unsigned count = static_cast<unsigned>(s.chance(1, 10) ? s.range(50000, 100000) : s.range(2000, 4000));
  s.note("mu=", show(p.mu), " cov=", show(p.cov), " n=", count);
  Gaussian g{p.mu, p.cov};
  const unsigned skip = static_cast<unsigned>(s.below(50));
  if (skip > 0) g.samples(skip);
  const Mat x = g.samples(count);
  const Mat y = g.samples(count);
  if (n > 1 && p.rank > 0) s.nontrivial();
  // Whitened with a decomposition of our own, samples are standard normal
  const Eigen::SelfAdjointEigenSolver<Mat> es(p.cov);
  const double cut = 1e-9 * es.eigenvalues().maxCoeff();
  std::vector<int> kept;
  for (int k = 0; k < n; ++k)
    if (es.eigenvalues()[k] > std::max(cut, 1e-20 * p.mu.squaredNorm())) kept.push_back(k);
  Mat zx(count, kept.size());
  Mat zy(count, kept.size());
  for (size_t i = 0; i < kept.size(); ++i) {
    const Vec dir = es.eigenvectors().col(kept[i]) / std::sqrt(es.eigenvalues()[kept[i]]);
    zx.col(i) = (x.rowwise() - p.mu.transpose()) * dir;
    zy.col(i) = (y.rowwise() - p.mu.transpose()) * dir;
  }
  const double tol = 7 / std::sqrt(count);
  for (size_t i = 0; i < kept.size(); ++i) {
    PBT_CHECK(s, std::abs(zx.col(i).mean()) <= tol, "the mean of the samples is off by ", zx.col(i).mean(), " sigma");
    for (size_t j = 0; j <= i; ++j) {
      const double c = zx.col(i).dot(zx.col(j)) / count;
      PBT_CHECK(s, std::abs(c - (i == j)) <= 2 * tol, "the covariance of the samples is off: ", c, " for ", i, ",", j);
      const double cross = zx.col(i).dot(zy.col(j)) / count;
      PBT_CHECK(s, std::abs(cross) <= tol, "consecutive draws are correlated: ", cross);
      const double cross2 = zx.col(j).dot(zy.col(i)) / count;
      PBT_CHECK(s, std::abs(cross2) <= tol, "consecutive draws are correlated: ", cross2);
    }
    // Consecutive samples of one draw
    const double serial = zx.col(i).head(count - 1).dot(zx.col(i).tail(count - 1)) / count;
    PBT_CHECK(s, std::abs(serial) <= tol, "consecutive samples are correlated: ", serial);
    // Shape: kurtosis and the share within one sigma
    const double k4 = zx.col(i).array().pow(4).mean();
    PBT_CHECK(s, std::abs(k4 - 3) <= 7 * std::sqrt(96. / count), "fourth moment ", k4);
    const double in = (zx.col(i).array().abs() < 1).cast<double>().mean();
    PBT_CHECK(s, std::abs(in - 0.6827) <= tol, "share within one sigma ", in);
  }
  // No sample is another one again or its mirror image
  if (kept.size() > 1) {
    std::vector<int> order(count);
    for (unsigned k = 0; k < count; ++k) order[k] = static_cast<int>(k);
    std::sort(order.begin(), order.end(), [&](int a, int b) { return std::abs(zx(a, 0)) < std::abs(zx(b, 0)); });
    for (unsigned k = 1; k < count; ++k) {
      for (unsigned j = k; j-- > 0 && std::abs(zx(order[k], 0)) - std::abs(zx(order[j], 0)) < 1e-9;) {
        PBT_CHECK(s, std::abs(std::abs(zx(order[k], 1)) - std::abs(zx(order[j], 1))) > 1e-9, "samples ", order[k], " and ", order[j], " are the same or mirror images");
      }
    }
  }
  // The library's statistics agree with the parameters
  const Vec m = resim::math::mean(x);
  const Mat c = resim::math::covariance(x);
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(s, std::abs(m[i] - p.mu[i]) <= tol * std::sqrt(p.cov(i, i)) + 1e-12 * (1 + p.mu.norm() + std::sqrt(p.top)), "mean of samples");
    for (int j = 0; j < n; ++j) {
      const double d = std::sqrt(std::max(p.cov(i, i), 0.) * std::max(p.cov(j, j), 0.));
      PBT_CHECK(s, std::abs(c(i, j) - p.cov(i, j)) <= 2 * tol * d + 1e-12 * p.top + 1e-20 * (1 + p.mu.squaredNorm()), "covariance of samples");
    }
  }
}

// The same when the samples are drawn in small portions of many sizes
void portions(Src &s) {
  const int n = static_cast<int>(s.range(1, 4));
  Vec mu(n);
  for (int i = 0; i < n; ++i) mu[i] = s.symmetric(10);
  const Mat q = orthonormal(s, n);
  Vec d(n);
  for (int i = 0; i < n; ++i) d[i] = s.uniform(0.1, 10);
  Mat cov = q * d.asDiagonal() * q.transpose();
  cov = ((cov + cov.transpose()) / 2).eval();
  const unsigned size = static_cast<unsigned>(s.range(0, 9));  // 0: one by one
  s.note("mu=", show(mu), " cov=", show(cov), " portions of ", size);
  s.nontrivial();
  Gaussian g{mu, cov};
  const Eigen::SelfAdjointEigenSolver<Mat> es(cov);
  std::vector<Vec> z;
  const unsigned total = 2500;
  while (z.size() < total) {
    const Mat x = size == 0 ? Mat(g.sample()) : Mat(g.samples(size));
    PBT_CHECK(s, x.rows() == std::max(1, static_cast<int>(size)) && x.cols() == n, "shape of the samples");
    for (int r = 0; r < x.rows(); ++r) {
      const Vec c = es.eigenvectors().transpose() * (x.row(r).transpose() - mu);
      z.push_back(c.cwiseQuotient(es.eigenvalues().cwiseSqrt()));
    }
  }
  const double count = static_cast<double>(z.size());
  const double tol = 7 / std::sqrt(count);
  Vec mean = Vec::Zero(n);
  Mat second = Mat::Zero(n, n);
  for (const auto &v : z) {
    mean += v / count;
    second += v * v.transpose() / count;
  }
  PBT_CHECK(s, mean.cwiseAbs().maxCoeff() <= tol, "the mean of samples drawn in portions is off: ", show(mean));
  PBT_CHECK(s, (second - Mat::Identity(n, n)).cwiseAbs().maxCoeff() <= 2 * tol, "the covariance of samples drawn in portions is off: ", show(second));
  for (size_t lag : {1U, 2U, std::max(1U, size), 2 * std::max(1U, size)}) {
    double serial = 0;
    for (size_t k = lag; k < z.size(); ++k) serial += z[k][0] * z[k - lag][0];
    PBT_CHECK(s, std::abs(serial) / count <= tol, "samples ", lag, " apart are correlated: ", serial / count);
  }
}

void relations(Src &s) {
  const int n = static_cast<int>(s.range(1, 6));
  const Params p = params(s, n);
  s.note("mu=", show(p.mu), " cov=", show(p.cov));
  Vec shift(n);
  for (int i = 0; i < n; ++i) shift[i] = s.symmetric(100);
  Gaussian a{p.mu, p.cov};
  Gaussian b{p.mu, p.cov};
  Gaussian c{p.mu + shift, p.cov};
  const size_t rounds = 1 + s.below(4);
  for (size_t r = 0; r < rounds; ++r) {
    const unsigned k = static_cast<unsigned>(1 + s.count(30, 2000));
    const Mat x = a.samples(k);
    PBT_CHECK(s, x == b.samples(k), "equal distributions draw different samples in round ", r);
    const double tol = 1e-12 * (1 + p.mu.norm() + shift.norm() + std::sqrt(p.top) * 10);
    PBT_CHECK(s, close(c.samples(k), x.rowwise() + shift.transpose(), tol), "shifting the mean does not shift the samples");
    if (p.rank > 0 && k > 1) s.nontrivial();
  }
  Gaussian copy{a};
  PBT_CHECK(s, copy.samples(5) == a.samples(5), "a copy continues differently");
}

void refused(Src &s) {
  const int n = static_cast<int>(s.range(1, 6));
  const Params p = params(s, n);
  s.nontrivial();
  Vec mu = p.mu;
  Mat cov = p.cov;
  const double scale = 1 + p.top;
  switch (s.below(4)) {
    case 0: {
      const int rows = static_cast<int>(s.range(1, 7));
      const int cols = static_cast<int>(s.range(1, 7));
      if (rows == n && cols == n) throw pbt::Discard{};
      cov = Mat::Identity(rows, cols);
      break;
    }
    case 1: {
      if (n < 2) throw pbt::Discard{};
      const int i = static_cast<int>(s.range(1, n - 1));
      const int j = static_cast<int>(s.range(0, i - 1));
      cov(i, j) += (s.coin() ? -1 : 1) * scale * log_uniform(s, 1e-9, 10);
      break;
    }
    case 2: {  // A negative eigenvalue
      const Mat q = orthonormal(s, n);
      Vec d(n);
      for (int i = 0; i < n; ++i) d[i] = scale * s.uniform(0, 1);
      d[s.below(n)] = -scale * log_uniform(s, 1e-11, 1);
      cov = q * d.asDiagonal() * q.transpose();
      cov = ((cov + cov.transpose()) / 2).eval();
      break;
    }
    default: {
      const int i = static_cast<int>(s.below(n));
      const int j = static_cast<int>(s.below(n));
      cov(i, j) = cov(j, i) = std::numeric_limits<double>::quiet_NaN();
    }
  }
  s.note("mu=", show(mu), " cov=", show(cov));
  PBT_CHECK(s, pbt::throws<AssertException>([&] { Gaussian g(mu, cov); }), "an invalid covariance is accepted");
}

void statistics(Src &s) {
  const int rows = static_cast<int>(s.chance(1, 6) ? s.range(1, 2) : s.range(2, 60));
  const int cols = static_cast<int>(s.range(1, 6));
  const double scale = s.pick(std::vector<double>{1., 1e-3, 1e4});
  const double offset = s.pick(std::vector<double>{0., 1., 1e3});
  Mat x(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) x(i, j) = scale * (offset + s.symmetric(5));
  s.note("samples=", show(x));
  using L = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
  const L y = x.cast<long double>();
  Eigen::Matrix<long double, Eigen::Dynamic, 1> m(cols);
  for (int j = 0; j < cols; ++j) {
    m[j] = 0;
    for (int i = 0; i < rows; ++i) m[j] += y(i, j);
    m[j] /= rows;
  }
  const Vec got = resim::math::mean(x);
  const double mag = scale * (offset + 5);
  PBT_CHECK(s, got.size() == cols && close(got, m.cast<double>(), 1e-14 * rows * mag), "mean ", show(got));
  if (rows < 2) {
    PBT_CHECK(s, pbt::throws<AssertException>([&] { resim::math::covariance(x); }), "the covariance of one sample is not refused");
    return;
  }
  s.nontrivial();
  Mat c(cols, cols);
  for (int i = 0; i < cols; ++i) {
    for (int j = 0; j < cols; ++j) {
      long double sum = 0;
      for (int k = 0; k < rows; ++k) sum += (y(k, i) - m[i]) * (y(k, j) - m[j]);
      c(i, j) = static_cast<double>(sum / (rows - 1));
    }
  }
  const Mat cov = resim::math::covariance(x);
  PBT_CHECK(s, cov.rows() == cols && cov.cols() == cols && close(cov, c, 1e-12 * rows * scale * mag), "covariance ", show(cov), " expected ", show(c));
  // Whatever the samples, their covariance is one a Gaussian accepts
  Gaussian g(got, cov);
  PBT_CHECK(s, g.dimensionality() == static_cast<unsigned>(cols), "dimensionality");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C18",
      "means and covariance matrices of 1-8 dimensions (full rank, rank deficient, perfectly correlated, diagonal with zero "
      "variances, graded, zero; scales 1e-18..1e12): decomposition, support and shape of samples; moments of thousands of "
      "samples whitened by an independent decomposition; determinism and shift relations; invalid parameters; sample "
      "statistics against extended-precision sums; non-trivial: more than one dimension or a non-zero covariance",
      {
          {"construct", construct, 20000, 500000},
          {"distribution", distribution, 400, 8000},
          {"portions", portions, 300, 6000},
          {"relations", relations, 6000, 200000},
          {"refused", refused, 10000, 300000},
          {"statistics", statistics, 10000, 300000},
      },
      {"distribution checks use bounds of seven standard errors"}};
}
