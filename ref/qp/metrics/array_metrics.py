import numpy as np
from scipy import stats
from scipy.integrate import quad
from scipy.optimize import minimize_scalar
from qp.utils import safelog

def quick_anderson_ksamp(p_random_variables, q_random_variables, **kwargs):
    return stats.anderson_ksamp([p_random_variables, q_random_variables], **kwargs)

def quick_kld(p_eval, q_eval, dx=0.01):
    logquotient = safelog(p_eval) - safelog(q_eval)
    Dpq = dx * np.sum(p_eval * logquotient, axis=-1)
    return Dpq

def quick_moment(p_eval, grid_to_N, dx):
    M = np.dot(p_eval, grid_to_N) * dx
    return M

def quick_rmse(p_eval, q_eval, N):
    rms = np.sqrt(np.sum((p_eval - q_eval) ** 2, axis=-1) / N)
    return rms

def quick_rbpe(pdf_function, integration_bounds, limits=(np.inf, np.inf)):

    def calculate_loss(x):
        return 1.0 - 1.0 / (1.0 + pow(x / 0.15, 2))
    lower = integration_bounds[0]
    upper = integration_bounds[1]

    def find_z_risk(zp):

        def integrand(z):
            return pdf_function(z) * calculate_loss((zp - z) / (1.0 + z))
        return quad(integrand, lower, upper)[0]
    if limits[0] == np.inf:
        return minimize_scalar(find_z_risk).x
    return minimize_scalar(find_z_risk, bounds=(limits[0], limits[1]), method='bounded').x
