import sys
import numpy as np
from scipy import stats as sps
from scipy.interpolate import interp1d
epsilon = sys.float_info.epsilon
infty = sys.float_info.max * epsilon
lims = (epsilon, 1.0)
CASE_PRODUCT = 0
CASE_FACTOR = 1
CASE_2D = 2
CASE_FLAT = 3

def safelog(arr, threshold=epsilon):
    return np.log(np.array(arr).clip(threshold, np.inf))
_ = '\ndef normalize_quantiles(in_data, threshold=epsilon, vb=False):\n    Evaluates PDF from quantiles including endpoints from linear extrapolation\n\n    Parameters\n    ----------\n    in_data: tuple, numpy.ndarray, float\n        tuple of CDF values iy corresponding to quantiles and the points x at\n        which those CDF values are achieved\n    threshold: float, optional\n        optional minimum threshold for PDF\n    vb: boolean, optional\n        be careful and print progress to stdout?\n\n    Returns\n    -------\n    out_data: tuple, ndarray, float\n        tuple of values x at which CDF is achieved, including extrema, and\n        normalized PDF values y at x\n    (iy, x) = in_data\n    (xs, ys) = evaluate_quantiles((iy, x), vb=vb)\n    # xs = xs[1:-1]\n    # ys = ys[1:-1]\n    x_min = xs[0] - 2 * iy[0] / ys[0]\n    x_max = xs[-1] + 2 * (1. - iy[-1]) / ys[-1]\n    xs = sandwich(xs, (x_min, x_max))\n    ys = sandwich(ys, (threshold, threshold))\n    out_data = (xs, ys)\n    return out_data\n'

def edge_to_center(edges):
    return 0.5 * (edges[1:] + edges[:-1])

def bin_widths(edges):
    return edges[1:] - edges[:-1]

def get_bin_indices(bins, x):
    widths = bin_widths(bins)
    n_bins = np.size(bins) - 1
    if np.allclose(widths, widths[0]):
        idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
    else:
        idx = np.atleast_1d(np.searchsorted(bins, x, side='left') - 1)
    mask = (idx >= 0) * (idx < bins.size - 1)
    np.putmask(idx, 1 - mask, 0)
    xshape = np.shape(x)
    return (idx.reshape(xshape).clip(0, n_bins - 1), mask.reshape(xshape))

def normalize_interp1d(xvals, yvals):
    integrals = np.sum(xvals[:, 1:] * yvals[:, 1:] - xvals[:, :-1] * yvals[:, 1:], axis=1)
    return (yvals.T / integrals).T

def build_kdes(samples, **kwargs):
    return [sps.gaussian_kde(row, **kwargs) for row in samples]

def evaluate_kdes(xvals, kdes):
    return np.vstack([kde(xvals) for kde in kdes])

def get_eval_case(x, row):
    nd_x = np.ndim(x)
    nd_row = np.ndim(row)
    if nd_x >= 2 and nd_row != 1:
        return (CASE_2D, x, row)
    if nd_x >= 2 and nd_row == 1:
        raise ValueError('Dimension mismatch: x(%s), row(%s)' % (np.shape(x), np.shape(row)))
    if nd_row >= 2:
        return (CASE_PRODUCT, x, row)
    if np.size(x) == 1 or np.size(row) == 1:
        return (CASE_FLAT, x, row)
    if np.size(x) == np.size(row):
        changes = np.flatnonzero(np.diff(row))
        nx = changes[0] + 1 if np.size(changes) else np.size(row)
    else:
        nx = np.size(x) // np.size(row)
    if nx == 0 or np.size(x) % nx != 0 or np.size(row) * nx % np.size(x) != 0:
        return (CASE_FLAT, x, row)
    xx = np.reshape(x, (-1, nx))
    rr = np.reshape(row, (np.shape(xx)[0], -1))
    if not (np.all(xx == xx[0]) and np.all(rr == rr[:, :1])):
        return (CASE_FLAT, x, row)
    return (CASE_FACTOR, xx[0], rr[:, :1])

def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):
    assert np.ndim(x) < 2 and np.ndim(row) < 2
    idx, mask = get_bin_indices(bins, x)
    if derivs is None:
        deltas = np.zeros(idx.shape)
    else:
        deltas = x - bins[idx]

    def evaluate_row(idxv, maskv, rv, delta):
        if derivs is None:
            return np.where(maskv, vals[rv, idxv], 0)
        return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
    vv = np.vectorize(evaluate_row)
    return vv(idx, mask, row, deltas)

def evaluate_hist_x_multi_y_product(x, row, bins, vals, derivs=None):
    idx, mask0 = get_bin_indices(bins, x)
    mask = np.ones(row.shape) * mask0
    if derivs is None:
        return np.where(mask, vals[:, idx][np.squeeze(row)], 0)
    deltas = x - bins[idx]
    return np.where(mask, vals[:, idx][np.squeeze(row)] + deltas * derivs[:, idx][np.squeeze(row)], 0)

def evaluate_hist_x_multi_y_2d(x, row, bins, vals, derivs=None):
    assert np.ndim(x) >= 2 and np.ndim(row) >= 2
    idx, mask = get_bin_indices(bins, x)
    if derivs is None:
        deltas = np.zeros(idx.shape)
    else:
        deltas = x - bins[idx]

    def evaluate_row(idxv, maskv, rv, delta):
        if derivs is None:
            return np.where(maskv, vals[rv, idxv], 0)
        return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
    vv = np.vectorize(evaluate_row)
    return vv(idx, mask, row, deltas)

def evaluate_hist_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in [CASE_PRODUCT, CASE_FACTOR]:
        return evaluate_hist_x_multi_y_product(xx, rr, bins, vals, derivs)
    if case_idx == CASE_2D:
        return evaluate_hist_x_multi_y_2d(xx, rr, bins, vals, derivs)
    return evaluate_hist_x_multi_y_flat(xx, rr, bins, vals, derivs)

def evaluate_hist_multi_x_multi_y_flat(x, row, bins, vals, derivs=None):

    def evaluate_row(xv, rv):
        bins_row = bins[rv]
        idx, mask = get_bin_indices(bins_row, xv)
        delta = xv - bins_row[idx]
        if derivs is None:
            return np.where(mask, vals[rv, idx], 0)
        return np.where(mask, vals[rv, idx] + delta * derivs[rv, idx], 0)
    vv = np.vectorize(evaluate_row)
    return vv(x, row)

def evaluate_hist_multi_x_multi_y_product(x, row, bins, vals, derivs=None):

    def evaluate_row(rv):
        bins_flat = bins[rv].flatten()
        idx, mask = get_bin_indices(bins_flat, x)
        delta = x - bins_flat[idx]
        if derivs is None:
            return np.where(mask, np.squeeze(vals[rv])[idx], 0).flatten()
        return np.where(mask, np.squeeze(vals[rv])[idx] + delta * np.squeeze(derivs[rv])[idx], 0)
    vv = np.vectorize(evaluate_row, signature='(1)->(%i)' % x.size)
    return vv(row)

def evaluate_hist_multi_x_multi_y_2d(x, row, bins, vals, derivs=None):
    nx = np.shape(x)[-1]

    def evaluate_row(rv, xv):
        flat_bins = bins[rv].flatten()
        idx, mask = get_bin_indices(flat_bins, xv)
        delta = xv - flat_bins[idx]
        if derivs is None:
            return np.where(mask, np.squeeze(vals[rv])[idx], 0).flatten()
        return np.where(mask, np.squeeze(vals[rv])[idx] + delta * np.squeeze(derivs[rv])[idx], 0).flatten()
    vv = np.vectorize(evaluate_row, signature='(1),(%i)->(%i)' % (nx, nx))
    return vv(row, x)

def evaluate_hist_multi_x_multi_y(x, row, bins, vals, derivs=None):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in [CASE_PRODUCT, CASE_FACTOR]:
        return evaluate_hist_multi_x_multi_y_product(xx, rr, bins, vals, derivs)
    if case_idx == CASE_2D:
        return evaluate_hist_multi_x_multi_y_2d(xx, rr, bins, vals, derivs)
    return evaluate_hist_multi_x_multi_y_flat(xx, rr, bins, vals, derivs)

def interpolate_x_multi_y_flat(x, row, xvals, yvals, **kwargs):

    def single_row(xv, rv):
        return interp1d(xvals, yvals[rv], **kwargs)(xv)
    vv = np.vectorize(single_row)
    return vv(x, row)

def interpolate_x_multi_y_product(x, row, xvals, yvals, **kwargs):
    rr = np.squeeze(row)
    return interp1d(xvals, yvals[rr], **kwargs)(x)

def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
    nx = np.shape(x)[-1]

    def evaluate_row(rv, xv):
        return interp1d(xvals, yvals[rv], **kwargs)(xv)
    vv = np.vectorize(evaluate_row, signature='(1),(%i)->(%i)' % (nx, nx))
    return vv(row, x)

def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in [CASE_PRODUCT, CASE_FACTOR]:
        return interpolate_x_multi_y_product(xx, rr, xvals, yvals, **kwargs)
    if case_idx == CASE_2D:
        return interpolate_x_multi_y_2d(xx, rr, xvals, yvals, **kwargs)
    return interpolate_x_multi_y_flat(xx, rr, xvals, yvals, **kwargs)

def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):

    def single_row(xv, rv):
        return interp1d(xvals[rv], yvals[rv], **kwargs)(xv)
    vv = np.vectorize(single_row)
    return vv(x, row)

def interpolate_multi_x_multi_y_product(x, row, xvals, yvals, **kwargs):
    rr = np.squeeze(row)
    nx = np.shape(x)[-1]

    def single_row(rv):
        return interp1d(xvals[rv], yvals[rv], **kwargs)(x)
    vv = np.vectorize(single_row, signature='()->(%i)' % nx)
    return vv(rr)

def interpolate_multi_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
    nx = np.shape(x)[-1]

    def evaluate_row(rv, xv):
        return interp1d(xvals[rv], yvals[rv], **kwargs)(xv)
    vv = np.vectorize(evaluate_row, signature='(),(%i)->(%i)' % (nx, nx))
    return vv(np.squeeze(row), x)

def interpolate_multi_x_multi_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in [CASE_PRODUCT, CASE_FACTOR]:
        return interpolate_multi_x_multi_y_product(xx, rr, xvals, yvals, **kwargs)
    if case_idx == CASE_2D:
        return interpolate_multi_x_multi_y_2d(xx, rr, xvals, yvals, **kwargs)
    return interpolate_multi_x_multi_y_flat(xx, rr, xvals, yvals, **kwargs)

def interpolate_multi_x_y_flat(x, row, xvals, yvals, **kwargs):

    def single_row(xv, rv):
        return interp1d(xvals[rv], yvals, **kwargs)(xv)
    vv = np.vectorize(single_row)
    return vv(x, row)

def interpolate_multi_x_y_product(x, row, xvals, yvals, **kwargs):
    rr = np.squeeze(row)
    nx = np.shape(x)[-1]

    def single_row(rv):
        return interp1d(xvals[rv], yvals, **kwargs)(x)
    vv = np.vectorize(single_row, signature='()->(%i)' % nx)
    return vv(rr)

def interpolate_multi_x_y_2d(x, row, xvals, yvals, **kwargs):
    nx = np.shape(x)[-1]

    def evaluate_row(rv, xv):
        return interp1d(xvals[rv], yvals, **kwargs)(xv)
    vv = np.vectorize(evaluate_row, signature='(),(%i)->(%i)' % (nx, nx))
    return vv(np.squeeze(row), x)

def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
    case_idx, xx, rr = get_eval_case(x, row)
    if case_idx in [CASE_PRODUCT, CASE_FACTOR]:
        return interpolate_multi_x_y_product(xx, rr, xvals, yvals, **kwargs)
    if case_idx == CASE_2D:
        return interpolate_multi_x_y_2d(xx, rr, xvals, yvals, **kwargs)
    return interpolate_multi_x_y_flat(xx, rr, xvals, yvals, **kwargs)

def profile(x_data, y_data, x_bins, std=True):
    idx, mask = get_bin_indices(x_bins, x_data)
    count = np.zeros(x_bins.size - 1)
    vals = np.zeros(x_bins.size - 1)
    errs = np.zeros(x_bins.size - 1)
    for i in range(x_bins.size - 1):
        mask_col = mask * (idx == i)
        count[i] = mask_col.sum()
        if mask_col.sum() == 0:
            vals[i] = np.nan
            errs[i] = np.nan
            continue
        masked_vals = y_data[mask_col]
        vals[i] = masked_vals.mean()
        errs[i] = masked_vals.std()
    if not std:
        errs /= np.sqrt(count)
    return (vals, errs)

def reshape_to_pdf_size(vals, split_dim):
    in_shape = np.shape(vals)
    npdf = np.prod(in_shape[:split_dim]).astype(int)
    per_pdf = in_shape[split_dim:]
    out_shape = np.hstack([npdf, per_pdf])
    return vals.reshape(out_shape)

def reshape_to_pdf_shape(vals, pdf_shape, per_pdf):
    outshape = np.hstack([pdf_shape, per_pdf])
    return vals.reshape(outshape)
