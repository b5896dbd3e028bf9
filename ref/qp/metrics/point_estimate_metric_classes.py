import numpy as np
from qp.metrics.base_metric_classes import MetricOutputType, PointToPointMetric
from functools import reduce
from operator import add
from qp.lazy_modules import pytdigest

class PointToPointMetricDigester(PointToPointMetric):

    def __init__(self, tdigest_compression: int=1000, **kwargs) -> None:
        super().__init__()
        self._tdigest_compression = tdigest_compression

    def initialize(self):
        pass

    def accumulate(self, estimate, reference):
        ez = (estimate - reference) / (1.0 + reference)
        digest = pytdigest.TDigest.compute(ez, compression=self._tdigest_compression)
        centroids = digest.get_centroids()
        return centroids

    def finalize(self, centroids: np.ndarray=[]):
        digests = (pytdigest.TDigest.of_centroids(np.array(centroid), compression=self._tdigest_compression) for centroid in centroids)
        digest = reduce(add, digests)
        return self.compute_from_digest(digest)

    def compute_from_digest(self, digest):
        raise NotImplementedError

class PointStatsEz(PointToPointMetric):
    metric_name = 'point_stats_ez'
    metric_output_type = MetricOutputType.one_value_per_distribution

    def __init__(self) -> None:
        super().__init__()

    def evaluate(self, estimate, reference):
        return (estimate - reference) / (1.0 + reference)

class PointSigmaIQR(PointToPointMetricDigester):
    metric_name = 'point_stats_iqr'
    metric_output_type = MetricOutputType.single_value

    def __init__(self, **kwargs) -> None:
        super().__init__(**kwargs)

    def evaluate(self, estimate, reference):
        ez = (estimate - reference) / (1.0 + reference)
        x75, x25 = np.percentile(ez, [75.0, 25.0])
        iqr = x75 - x25
        sigma_iqr = iqr / 1.349
        return sigma_iqr

    def compute_from_digest(self, digest):
        x75, x25 = digest.inverse_cdf([0.75, 0.25])
        iqr = x75 - x25
        sigma_iqr = iqr / 1.349
        return sigma_iqr

class PointBias(PointToPointMetricDigester):
    metric_name = 'point_bias'
    metric_output_type = MetricOutputType.single_value

    def __init__(self, **kwargs) -> None:
        super().__init__(**kwargs)

    def evaluate(self, estimate, reference):
        return np.median((estimate - reference) / (1.0 + reference))

    def compute_from_digest(self, digest):
        return digest.inverse_cdf(0.5)

class PointOutlierRate(PointToPointMetricDigester):
    metric_name = 'point_outlier_rate'
    metric_output_type = MetricOutputType.single_value

    def __init__(self, **kwargs) -> None:
        super().__init__(**kwargs)

    def evaluate(self, estimate, reference):
        ez = (estimate - reference) / (1.0 + reference)
        num = len(ez)
        sig_iqr = PointSigmaIQR().evaluate(estimate, reference)
        three_sig = 3.0 * sig_iqr
        cut_criterion = np.maximum(0.06, three_sig)
        mask = np.fabs(ez) > cut_criterion
        outlier = np.sum(mask)
        return float(outlier) / float(num)

    def compute_from_digest(self, digest):
        x75, x25 = digest.inverse_cdf([0.75, 0.25])
        iqr = x75 - x25
        sigma_iqr = iqr / 1.349
        three_sig = 3.0 * sigma_iqr
        cut_criterion = np.maximum(0.06, three_sig)
        centroids = digest.get_centroids()
        mask = np.fabs(centroids[:, 0]) > cut_criterion
        outlier = np.sum(centroids[mask, 1])
        return float(outlier) / digest.weight

class PointSigmaMAD(PointToPointMetricDigester):
    metric_name = 'point_stats_sigma_mad'
    metric_output_type = MetricOutputType.single_value

    def __init__(self, **kwargs) -> None:
        super().__init__(**kwargs)
        self._num_bins = 1000000
        if 'num_bins' in kwargs:
            self._num_bins = kwargs['num_bins']

    def evaluate(self, estimate, reference):
        SCALE_FACTOR = 1.4826
        ez = (estimate - reference) / (1.0 + reference)
        mad = np.median(np.fabs(ez - np.median(ez)))
        return mad * SCALE_FACTOR

    def compute_from_digest(self, digest):
        SCALE_FACTOR = 1.4826
        this_median = digest.inverse_cdf(0.5)
        this_min = digest.inverse_cdf(0)
        this_max = digest.inverse_cdf(1)
        bins = np.linspace(this_min, this_max, self._num_bins)
        bin_cents = (bins[0:-1] + bins[1:]) / 2.0
        this_pdf = digest.cdf(bins[1:]) - digest.cdf(bins[0:-1])
        bin_dist = np.fabs(bin_cents - this_median)
        sorted_bins_dist_idx = np.argsort(bin_dist)
        sorted_bins_dist = bin_dist[sorted_bins_dist_idx]
        cumulative_sorted = this_pdf[sorted_bins_dist_idx].cumsum()
        median_sorted_bin = np.searchsorted(cumulative_sorted, 0.5)
        dist_to_median = sorted_bins_dist[median_sorted_bin]
        return dist_to_median * SCALE_FACTOR
