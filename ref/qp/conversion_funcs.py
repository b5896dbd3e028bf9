import numpy as np
from scipy import integrate as sciint
from scipy import interpolate as sciinterp
from .lazy_modules import mixture
from .sparse_rep import build_sparse_representation, decode_sparse_indices, indices2shapes
from .utils import bin_widths

def extract_vals_at_x(in_dist, **kwargs):
    xvals = kwargs.pop('xvals', None)
    if xvals is None:
        raise ValueError('To convert to extract_xy_vals you must specify xvals')
    yvals = in_dist.pdf(xvals)
    return dict(xvals=xvals, yvals=yvals)

def extract_xy_vals(in_dist, **kwargs):
    xvals = kwargs.pop('xvals', None)
    if xvals is None:
        raise ValueError('To convert using extract_xy_vals you must specify xvals')
    yvals = in_dist.pdf(xvals)
    expand_x = np.ones(yvals.shape) * np.squeeze(xvals)
    return dict(xvals=expand_x, yvals=yvals)

def extract_samples(in_dist, **kwargs):
    samples = in_dist.rvs(size=kwargs.pop('size', 1000), random_state=kwargs.pop('random_state', None))
    xvals = kwargs.pop('xvals')
    return dict(samples=samples, xvals=xvals, yvals=None)

def extract_hist_values(in_dist, **kwargs):
    bins = kwargs.pop('bins', None)
    if bins is None:
        raise ValueError('To convert using extract_hist_samples you must specify bins')
    bins, pdfs = in_dist.histogramize(bins)
    return dict(bins=bins, pdfs=pdfs / bin_widths(bins))

def extract_hist_samples(in_dist, **kwargs):
    bins = kwargs.pop('bins', None)
    size = kwargs.pop('size', 1000)
    if bins is None:
        raise ValueError('To convert using extract_hist_samples you must specify bins')
    samples = in_dist.rvs(size=size, random_state=kwargs.pop('random_state', None))

    def hist_helper(sample):
        return np.histogram(sample, bins=bins)[0]
    vv = np.vectorize(hist_helper, signature='(%i)->(%i)' % (samples.shape[-1], bins.size - 1))
    pdfs = vv(samples)
    return dict(bins=bins, pdfs=pdfs / bin_widths(bins))

def extract_quantiles(in_dist, **kwargs):
    quants = kwargs.pop('quants', None)
    if quants is None:
        raise ValueError('To convert using extract_quantiles you must specify quants')
    locs = in_dist.ppf(quants)
    return dict(quants=quants, locs=locs)

def extract_fit(in_dist, **kwargs):
    raise NotImplementedError('extract_fit')

def extract_mixmod_fit_samples(in_dist, **kwargs):
    n_comps = kwargs.pop('ncomps', 3)
    n_sample = kwargs.pop('nsamples', 1000)
    random_state = kwargs.pop('random_state', None)
    samples = in_dist.rvs(size=n_sample, random_state=random_state)
    if isinstance(random_state, np.random.Generator):
        random_state = np.random.RandomState(random_state.bit_generator)

    def mixmod_helper(samps):
        estimator = mixture.GaussianMixture(n_components=n_comps, random_state=random_state)
        estimator.fit(samps.reshape(-1, 1))
        weights = estimator.weights_
        means = estimator.means_[:, 0]
        stdevs = np.sqrt(estimator.covariances_[:, 0, 0])
        ov = np.vstack([weights, means, stdevs])
        return ov
    vv = np.vectorize(mixmod_helper, signature='(%i)->(3,%i)' % (n_sample, n_comps))
    fit_vals = vv(samples)
    return dict(weights=fit_vals[:, 0, :], means=fit_vals[:, 1, :], stds=fit_vals[:, 2, :])

def extract_voigt_mixmod(in_dist, **kwargs):
    objdata = in_dist.objdata()
    means = objdata['means']
    stds = objdata['stds']
    weights = objdata['weights']
    gammas = np.zeros_like(means)
    return dict(means=means, stds=stds, weights=weights, gammas=gammas, **kwargs)

def extract_voigt_xy(in_dist, **kwargs):
    sparse_results = extract_voigt_xy_sparse(in_dist, **kwargs)
    indices = sparse_results['indices']
    meta = sparse_results['metadata']
    w, m, s, g = indices2shapes(indices, meta)
    return dict(means=m, stds=s, weights=w, gammas=g)

def extract_voigt_xy_sparse(in_dist, **kwargs):
    yvals = in_dist.objdata()['yvals']
    default = in_dist.metadata()['xvals'][0]
    z = kwargs.pop('xvals', default)
    nz = kwargs.pop('nz', 300)
    minz = np.min(z)
    _, j = np.where(yvals > 0)
    maxz = np.max(z[j])
    newz = np.linspace(minz, maxz, nz)
    interp = sciinterp.interp1d(z, yvals, assume_sorted=True)
    newpdf = interp(newz)
    newpdf = newpdf / sciint.trapezoid(newpdf, newz).reshape(-1, 1)
    ALL, bigD, _ = build_sparse_representation(newz, newpdf)
    return dict(indices=ALL, metadata=bigD)

def extract_sparse_from_xy(in_dist, **kwargs):
    default = in_dist.objdata()['yvals']
    yvals = kwargs.pop('yvals', default)
    default = in_dist.metadata()['xvals'][0]
    xvals = kwargs.pop('xvals', default)
    nvals = kwargs.pop('nvals', 300)
    xmin = np.min(xvals)
    _, j = np.where(yvals > 0)
    xmax = np.max(xvals[j])
    newx = np.linspace(xmin, xmax, nvals)
    interp = sciinterp.interp1d(xvals, yvals, assume_sorted=True)
    newpdf = interp(newx)
    sparse_indices, metadata, _ = build_sparse_representation(newx, newpdf)
    metadata['xvals'] = newx
    metadata['sparse_indices'] = sparse_indices
    metadata.pop('Ntot')
    return metadata

def extract_xy_sparse(in_dist, **kwargs):
    yvals = in_dist.objdata()['yvals']
    default = in_dist.metadata()['xvals'][0]
    xvals = kwargs.pop('xvals', default)
    nvals = kwargs.pop('nvals', 300)
    xmin = np.min(xvals)
    _, j = np.where(yvals > 0)
    xmax = np.max(xvals[j])
    newx = np.linspace(xmin, xmax, nvals)
    interp = sciinterp.interp1d(xvals, yvals, assume_sorted=True)
    newpdf = interp(newx)
    sparse_indices, sparse_meta, A = build_sparse_representation(newx, newpdf)
    basis_indices, weights = decode_sparse_indices(sparse_indices)
    pdf_y = A[:, basis_indices] * weights
    x = sparse_meta['z']
    y = pdf_y.sum(axis=-1)
    norms = sciint.trapezoid(y.T, x)
    y /= norms
    xvals = x
    yvals = y.T
    return dict(xvals=xvals, yvals=yvals, **kwargs)
