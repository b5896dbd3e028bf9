import logging
from collections import namedtuple
from functools import partial
import numpy as np
from deprecated import deprecated
from qp.metrics import array_metrics
from qp.metrics.brier import Brier
from qp.metrics.goodness_of_fit import goodness_of_fit_metrics
from qp.utils import epsilon
Grid = namedtuple('Grid', ['grid_values', 'cardinality', 'resolution', 'hist_bin_edges', 'limits'])

def _calculate_grid_parameters(limits, dx: float=0.01) -> Grid:
    cardinality = int((limits[-1] - limits[0]) / dx)
    grid_values = np.linspace(limits[0], limits[1], cardinality)
    resolution = (limits[-1] - limits[0]) / (cardinality - 1)
    hist_bin_edges = np.histogram_bin_edges((limits[0] - resolution / 2, limits[1] + resolution / 2), cardinality)
    return Grid(grid_values, cardinality, resolution, hist_bin_edges, limits)

def calculate_moment(p, N, limits, dx=0.01):
    grid = _calculate_grid_parameters(limits, dx)
    pe = p.gridded(grid.grid_values)[1]
    grid_to_N = grid.grid_values ** N
    M = array_metrics.quick_moment(pe, grid_to_N, grid.resolution)
    return M

def calculate_kld(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError('Cannot calculate KLD between two ensembles with different shapes')
    grid = _calculate_grid_parameters(limits, dx)
    pe = p.gridded(grid.grid_values)
    pn = pe[1]
    qe = q.gridded(grid.grid_values)
    qn = qe[1]
    Dpq = array_metrics.quick_kld(pn, qn, grid.resolution)
    if np.any(Dpq < 0.0):
        print('broken KLD: ' + str((Dpq, pn, qn, grid.resolution)))
        Dpq = epsilon * np.ones(Dpq.shape)
    return Dpq

def calculate_rmse(p, q, limits, dx=0.01):
    if p.shape != q.shape:
        raise ValueError('Cannot calculate RMSE between two ensembles with different shapes')
    grid = _calculate_grid_parameters(limits, dx)
    pe = p.gridded(grid.grid_values)[1]
    qe = q.gridded(grid.grid_values)[1]
    rms = array_metrics.quick_rmse(pe, qe, grid.cardinality)
    return rms

def calculate_rbpe(p, limits=(np.inf, np.inf)):
    rbpes = []

    def evaluate_pdf_at_z(z, dist):
        return dist.pdf(z)[0][0]
    for n in range(0, p.npdf):
        if p[n].npdf != 1:
            raise ValueError('quick_rbpe only handles Ensembles with a single PDF for ensembles with more than one PDF, use the qp.metrics.risk_based_point_estimate function.')
        this_dist_pdf_at_z = partial(evaluate_pdf_at_z, dist=p[n])
        integration_bounds = (p[n].ppf(0.01)[0][0], p[n].ppf(0.99)[0][0])
        rbpes.append(array_metrics.quick_rbpe(this_dist_pdf_at_z, integration_bounds, limits))
    return np.array(rbpes)

def _prepare_for_brier(p, truth, limits, dx=0.01):
    if p.npdf != len(truth):
        raise ValueError('Number of distributions in the Ensemble (%d) is not equal to the number of truth values (%d)' % (p.npdf, len(truth)))
    if np.any(np.less(truth, limits[0])) or np.any(np.greater(truth, limits[1])):
        raise ValueError(f'Input truth values exceed the defined limits ({min(truth)}, {max(truth)}) ({limits[0]} {limits[1]})')
    grid = _calculate_grid_parameters(limits, dx)
    pdf_values = p.gridded(grid.grid_values)[1]
    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
    return Brier(pdf_values, truth_array)

def calculate_brier(p, truth, limits, dx=0.01):
    brier_metric_evaluation = _prepare_for_brier(p, truth, limits, dx)
    return brier_metric_evaluation.evaluate()

def calculate_brier_for_accumulation(p, truth, limits, dx=0.01):
    brier_metric_evaluation = _prepare_for_brier(p, truth, limits, dx)
    brier_sum = brier_metric_evaluation.accumulate()
    return (brier_sum, p.npdf)

@deprecated(reason='\n    This implementation is deprecated for performance reasons and does not accommodate N vs 1 comparisons.\n    Please use calculate_goodness_of_fit instead. This method is for testing purposes only.\n    ', category=DeprecationWarning)
def calculate_anderson_darling(p, scipy_distribution='norm', num_samples=100, _random_state=None):
    logging.warning("This function is deprecated, please use `calculate_goodness_of_fit` with `fit_metric='ad'`")

@deprecated(reason='\n    This implementation is deprecated for performance reasons and does not accommodate N vs 1 comparisons.\n    Please use calculate_goodness_of_fit instead. This method is for testing purposes only.\n    ', category=DeprecationWarning)
def calculate_cramer_von_mises(p, q, num_samples=100, _random_state=None, **kwargs):
    logging.warning("This function is deprecated, please use `calculate_goodness_of_fit` with `fit_metric='cvm'`")

@deprecated(reason='\n    This implementation is deprecated for performance reasons and does not accommodate N vs 1 comparisons.\n    Please use calculate_goodness_of_fit instead. This method is for testing purposes only.\n    ', category=DeprecationWarning)
def calculate_kolmogorov_smirnov(p, q, num_samples=100, _random_state=None):
    logging.warning("This function is deprecated, please use `calculate_goodness_of_fit` with `fit_metric='ks'`")

def calculate_outlier_rate(p, lower_limit=0.0001, upper_limit=0.9999):
    try:
        _check_ensemble_is_not_nested(p)
    except ValueError:
        logging.warning('Each element in the ensemble `p` must be a single distribution.')
    outlier_rates = np.array([(dist.cdf(lower_limit) + (1.0 - dist.cdf(upper_limit)))[0][0] for dist in p])
    return outlier_rates

def calculate_goodness_of_fit(estimate, reference, fit_metric='ks', num_samples=100, _random_state=None):
    try:
        _check_ensembles_contain_correct_number_of_distributions(estimate, reference)
    except ValueError:
        logging.warning('The ensemble `reference` should have 1 or N distributions.  With N = number of distributions in the ensemble `estimate`.')
    try:
        _check_ensemble_is_not_nested(estimate)
    except ValueError:
        logging.warning('Each element in the ensemble `estimate` must be a single distribution.')
    try:
        _check_ensemble_is_not_nested(reference)
    except ValueError:
        logging.warning('Each element in the ensemble `reference` must be a single distribution.')
    if fit_metric not in goodness_of_fit_metrics:
        metrics = list(goodness_of_fit_metrics.keys())
        raise KeyError(f'`fit_metric` should be one of {metrics}.')
    return goodness_of_fit_metrics[fit_metric](reference, np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)))

def _check_ensembles_are_same_size(p, q):
    if p.npdf != q.npdf:
        raise ValueError('Input ensembles should have the same number of distributions')

def _check_ensemble_is_not_nested(p):
    for dist in p:
        if dist.npdf != 1:
            raise ValueError('Each element in the input Ensemble should be a single distribution.')

def _check_ensembles_contain_correct_number_of_distributions(estimate, reference):
    if estimate.npdf == reference.npdf:
        pass
    elif reference.npdf == 1:
        pass
    else:
        raise ValueError('`reference` should contain either 1 distribution or the same number of distributions as `estimate`.')
