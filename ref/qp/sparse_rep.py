__author__ = 'Matias Carrasco Kind'
import numpy as np
from scipy.special import voigt_profile
from scipy import linalg as sla
from scipy import integrate as sciint

def shapes2pdf(wa, ma, sa, ga, meta, cut=1e-05):
    x = meta['xvals']
    pdf = np.zeros_like(x)
    for w, m, s, g in zip(wa, ma, sa, ga):
        pdft = voigt_profile(x - m, s, g)
        pdft = np.where(pdft >= cut, pdft, 0.0)
        pdft = w * pdft / sla.norm(pdft)
        pdf += pdft
    pdf = np.where(pdf >= cut, pdf, 0.0)
    return pdf / sciint.trapezoid(pdf, x)

def create_basis(metadata, cut=1e-05):
    mu = metadata['mu']
    Nmu = metadata['dims'][0]
    sigma = metadata['sig']
    Nsigma = metadata['dims'][1]
    Nv = metadata['dims'][2]
    xvals = metadata['xvals']
    return create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=cut)

def create_voigt_basis(xvals, mu, Nmu, sigma, Nsigma, Nv, cut=1e-05):
    means = np.linspace(mu[0], mu[1], Nmu)
    sig = np.linspace(sigma[0], sigma[1], Nsigma)
    gamma = np.linspace(0, 0.5, Nv)
    NA = Nmu * Nsigma * Nv
    Npdf = len(xvals)
    A = np.zeros((Npdf, NA))
    kk = 0
    for i in range(Nmu):
        for j in range(Nsigma):
            for k in range(Nv):
                pdft = voigt_profile(xvals - means[i], sig[j], gamma[k])
                pdft = np.where(pdft >= cut, pdft, 0.0)
                A[:, kk] = pdft / sla.norm(pdft)
                kk += 1
    return A

def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
    a_n = np.zeros(dictionary.shape[1])
    machine_eps = np.finfo(dictionary.dtype).eps
    alpha = np.dot(dictionary.T, query_vec)
    res = query_vec
    idxs = np.arange(dictionary.shape[1])
    L = np.zeros((n_basis, n_basis), dtype=dictionary.dtype)
    L[0, 0] = 1.0
    for n_active in range(n_basis):
        lam = np.argmax(abs(np.dot(dictionary.T, res)))
        if lam < n_active or alpha[lam] ** 2 < machine_eps:
            n_active -= 1
            break
        if n_active > 0:
            L[n_active, :n_active] = np.dot(dictionary[:, :n_active].T, dictionary[:, lam])
            sla.solve_triangular(L[:n_active, :n_active], L[n_active, :n_active], lower=True, overwrite_b=True)
            v = sla.norm(L[n_active, :n_active]) ** 2
            if 1 - v <= machine_eps:
                print('Selected basis are dependent or normed are not unity')
                break
            L[n_active, n_active] = np.sqrt(1 - v)
        dictionary[:, [n_active, lam]] = dictionary[:, [lam, n_active]]
        alpha[[n_active, lam]] = alpha[[lam, n_active]]
        idxs[[n_active, lam]] = idxs[[lam, n_active]]
        gamma = sla.cho_solve((L[:n_active + 1, :n_active + 1], True), alpha[:n_active + 1], overwrite_b=False)
        res = query_vec - np.dot(dictionary[:, :n_active + 1], gamma)
        if tolerance is not None and sla.norm(res) ** 2 <= tolerance:
            break
    a_n[idxs[:n_active + 1]] = gamma
    del dictionary
    return (idxs[:n_active + 1], gamma)

def combine_int(Ncoef, Nbase):
    return Ncoef << 16 | Nbase

def get_N(longN):
    return (longN >> 16, longN & 2 ** 16 - 1)

def decode_sparse_indices(indices):
    Ncoef = 32001
    sp_ind = np.array(list(map(get_N, indices)))
    spi = sp_ind[:, 0, :]
    dVals = 1.0 / (Ncoef - 1)
    vals = spi * dVals
    vals[:, 0] = 1.0
    return (sp_ind[:, 1, :], vals)

def indices2shapes(sparse_indices, meta):
    Nmu = meta['dims'][0]
    Nsigma = meta['dims'][1]
    Nv = meta['dims'][2]
    Ncoef = meta['dims'][3]
    mu = meta['mu']
    sigma = meta['sig']
    means_array = np.linspace(mu[0], mu[1], Nmu)
    sig_array = np.linspace(sigma[0], sigma[1], Nsigma)
    gam_array = np.linspace(0, 0.5, Nv)
    sp_ind = np.array(list(map(get_N, sparse_indices)))
    spi = sp_ind[:, 0, :]
    dVals = 1.0 / (Ncoef - 1)
    vals = spi * dVals
    vals[:, 0] = 1.0
    Dind2 = sp_ind[:, 1, :]
    means = means_array[np.array(Dind2 / (Nsigma * Nv), int)]
    sigmas = sig_array[np.array(Dind2 % (Nsigma * Nv) / Nv, int)]
    gammas = gam_array[np.array(Dind2 % (Nsigma * Nv) % Nv, int)]
    return (vals, means, sigmas, gammas)

def build_sparse_representation(x, P, mu=None, Nmu=None, sig=None, Nsig=None, Nv=3, Nsparse=20, tol=1e-10, verbose=True):
    Ntot = len(P)
    if verbose:
        print('Total Galaxies = ', Ntot)
    dx = x[1] - x[0]
    if mu is None:
        mu = [min(x), max(x)]
    if Nmu is None:
        Nmu = len(x)
    if sig is None:
        max_sig = (max(x) - min(x)) / 12.0
        min_sig = dx / 6.0
        sig = [min_sig, max_sig]
    if Nsig is None:
        Nsig = int(np.ceil(2.0 * (sig[1] - sig[0]) / dx))
    if verbose:
        print('dx = ', dx)
        print('Nmu, Nsig, Nv = ', '[', Nmu, ',', Nsig, ',', Nv, ']')
        print('Total bases in dictionary', Nmu * Nsig * Nv)
        print('Nsparse (number of bases) = ', Nsparse)
        print('Creating Dictionary...')
    A = create_voigt_basis(x, mu, Nmu, sig, Nsig, Nv)
    bigD = {}
    Ncoef = 32001
    AA = np.linspace(0, 1, Ncoef)
    Da = AA[1] - AA[0]
    bigD['xvals'] = x
    bigD['mu'] = mu
    bigD['sig'] = sig
    bigD['dims'] = [Nmu, Nsig, Nv, Ncoef, Nsparse]
    bigD['Ntot'] = Ntot
    if verbose:
        print('Creating Sparse representation...')
    Sparse_Array = np.zeros((Ntot, Nsparse), dtype='int')
    for k in range(Ntot):
        pdf0 = P[k]
        first_columns = A[:, :Nsparse].copy()
        Dind, Dval = sparse_basis(A, pdf0, Nsparse, tolerance=tol)
        if len(Dind) < 1:
            continue
        dval0 = Dval[0]
        if dval0 != 0:
            Dvalm = Dval / dval0
            index = np.array(list(map(round, Dvalm / Da)), dtype='int')
            index0 = int(round(dval0 / Da))
            index[0] = index0
        else:
            index = np.zeros(len(Dind), dtype='int')
        sparse_ind = np.array(list(map(combine_int, index, Dind)))
        Sparse_Array[k, 0:len(sparse_ind)] = sparse_ind
        A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
        A[:, :Nsparse] = first_columns
    if verbose:
        print('done')
    return (Sparse_Array, bigD, A)

def pdf_from_sparse(sparse_indices, A, xvals, cut=1e-05):
    indices, vals = decode_sparse_indices(sparse_indices)
    pdf_y = (A[:, indices] * vals).sum(axis=-1)
    pdf_y = np.where(pdf_y >= cut, pdf_y, 0.0)
    pdf_x = xvals
    norms = sciint.trapezoid(pdf_y.T, pdf_x)
    pdf_y /= norms
    return pdf_y
