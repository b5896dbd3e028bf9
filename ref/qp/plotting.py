import numpy as np
from .lazy_modules import mpl, plt

def init_matplotlib():
    mpl.rcParams['font.family'] = 'serif'
    mpl.rcParams['font.serif'] = 'Times New Roman'
    mpl.rcParams['axes.titlesize'] = 16
    mpl.rcParams['axes.labelsize'] = 16
    mpl.rcParams['savefig.dpi'] = 250
    mpl.rcParams['savefig.format'] = 'pdf'
    mpl.rcParams['savefig.bbox'] = 'tight'
COLORS = {}
COLORS['truth'] = 'k'
COLORS['mix_mod'] = 'k'
COLORS['gridded'] = 'k'
COLORS['quantiles'] = 'blueviolet'
COLORS['histogram'] = 'darkorange'
COLORS['samples'] = 'forestgreen'
STYLES = {}
STYLES['truth'] = '-'
STYLES['mix_mod'] = ':'
STYLES['gridded'] = '--'
STYLES['quantiles'] = '--'
STYLES['histogram'] = ':'
STYLES['samples'] = '-.'

def make_figure_axes(xlim, **kwargs):
    xlabel = kwargs.pop('xlabel', 'redshift')
    ylabel = kwargs.pop('ylabel', 'p(z)')
    fig = plt.figure()
    axes = fig.add_subplot(111)
    axes.set_xlim(xlim[0], xlim[-1])
    axes.set_xlabel(xlabel, fontsize=16)
    axes.set_ylabel(ylabel, fontsize=16)
    return (fig, axes)

def get_axes_and_xlims(**kwargs):
    axes = kwargs.pop('axes', None)
    xlim = kwargs.pop('xlim', None)
    if axes is None:
        if xlim is None:
            raise ValueError('Either xlim or axes must be provided')
        _, axes = make_figure_axes(xlim, **kwargs)
    else:
        if xlim is not None:
            raise ValueError('Only one of xlim and axes should be provided')
        xlim = axes.get_xlim()
    return (axes, xlim, kwargs)

def plot_pdf_on_axes(axes, pdf, xvals, **kwargs):
    yvals = pdf.pdf(xvals)
    axes.plot(np.squeeze(xvals), np.squeeze(yvals), **kwargs)
    return axes

def plot_dist_pdf(pdf, **kwargs):
    axes, xlim, kw = get_axes_and_xlims(**kwargs)
    npoints = kw.pop('npts', 101)
    xvals = np.linspace(xlim[0], xlim[1], npoints)
    return plot_pdf_on_axes(axes, pdf, xvals, **kw)

def plot_pdf_quantiles_on_axes(axes, xvals, yvals, quantiles, **kwargs):
    kwargs.setdefault('label', 'Quantiles')
    kwargs.setdefault('color', COLORS['quantiles'])
    axes.scatter(quantiles[1], np.zeros(np.shape(quantiles[1])), marker='|', s=100, alpha=0.75, **kwargs)
    kwargs.setdefault('label', 'Quantile Interpolated PDF')
    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES['quantiles'], **kwargs)
    return axes

def plot_pdf_histogram_on_axes(axes, hist, **kwargs):
    kwargs.setdefault('color', COLORS['histogram'])
    axes.scatter(hist[0], np.zeros(np.shape(hist[0])), marker='|', s=100, label='Histogram Bin Ends', alpha=0.75)
    bin_centers = (hist[0][0:-1] + hist[0][1:]) / 2.0
    kwargs.setdefault('label', 'Histogram Interpolated PDF')
    axes.hist(bin_centers, bins=hist[0], weights=np.squeeze(hist[1]), lw=None, alpha=1.0, **kwargs)
    return axes

def plot_pdf_samples_on_axes(axes, pdf, samples, **kwargs):
    kwargs.setdefault('label', 'Samples')
    kwargs.setdefault('color', COLORS['samples'])
    axes.scatter(samples, np.zeros(np.shape(samples)), marker='|', s=100, alpha=0.75, **kwargs)
    npoints = kwargs.pop('npoints', 101)
    xlim = axes.get_xlim()
    xvals = np.linspace(xlim[0], xlim[1], npoints)
    yvals = np.squeeze(pdf.pdf(xvals))
    kwargs.setdefault('label', 'Samples Interpolated PDF')
    plt.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES['samples'], **kwargs)
    return axes

def plot_native(pdf, **kwargs):
    if hasattr(pdf, 'plot_native'):
        axes = pdf.plot_native(**kwargs)
    else:
        axes = pdf.dist.plot_native(pdf, **kwargs)
    return (axes.figure, axes)

def plot(pdf, **kwargs):
    if hasattr(pdf, 'plot_native'):
        axes = pdf.plot(**kwargs)
    else:
        axes = pdf.dist.plot(pdf, **kwargs)
    return (axes.figure, axes)
