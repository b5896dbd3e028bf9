import logging
import numpy as np
from scipy import stats
import qp
from qp.metrics.array_metrics import quick_anderson_ksamp
from qp.metrics.metrics import calculate_outlier_rate
DEFAULT_QUANTS = np.linspace(0, 1, 100)

class PIT:

    def __init__(self, qp_ens, true_vals, eval_grid=DEFAULT_QUANTS):
        self._pit_samps = self._gather_pit_samples(qp_ens, true_vals)
        n_pit = np.min([len(self._pit_samps), len(eval_grid)])
        if n_pit < len(eval_grid):
            logging.warning('Number of pit samples is smaller than the evaluation grid size. Will create a new evaluation grid with size = number of pit samples')
            eval_grid = np.linspace(0, 1, n_pit)
        data_quants = np.quantile(self._pit_samps, eval_grid)
        self._pit = self._produce_output_ensemble(data_quants, eval_grid)

    @property
    def pit_samps(self):
        return self._pit_samps

    @property
    def pit(self):
        return self._pit

    def calculate_pit_meta_metrics(self):
        pit_meta_metrics = {}
        pit_meta_metrics['ad'] = self.evaluate_PIT_anderson_ksamp()
        pit_meta_metrics['cvm'] = self.evaluate_PIT_CvM()
        pit_meta_metrics['ks'] = self.evaluate_PIT_KS()
        pit_meta_metrics['outlier_rate'] = self.evaluate_PIT_outlier_rate()
        return pit_meta_metrics

    def evaluate_PIT_anderson_ksamp(self, pit_min=0.0, pit_max=1.0):
        trimmed_pit_values = self._trim_pit_values(pit_min, pit_max)
        uniform_yvals = np.linspace(pit_min, pit_max, len(trimmed_pit_values))
        return quick_anderson_ksamp(trimmed_pit_values, uniform_yvals)

    def evaluate_PIT_CvM(self):
        return stats.cramervonmises(self._pit_samps, stats.uniform.cdf)

    def evaluate_PIT_KS(self):
        return stats.kstest(self._pit_samps, stats.uniform.cdf)

    def evaluate_PIT_outlier_rate(self, pit_min=0.0001, pit_max=0.9999):
        return calculate_outlier_rate(self._pit, pit_min, pit_max)[0]

    @classmethod
    def _gather_pit_samples(cls, qp_ens, true_vals):
        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
        sample_mask = np.isfinite(pit_samples)
        pit_samples[~sample_mask] = 0
        if not np.all(sample_mask):
            logging.warning('Some PIT samples were `NaN`. They have been replacd with 0.')
        return pit_samples

    @classmethod
    def _produce_output_ensemble(cls, data_quants, eval_grid):
        _, unique_indices = np.unique(data_quants, return_index=True)
        unique_data_quants = data_quants[unique_indices]
        unique_eval_grid = eval_grid[unique_indices]
        quant_mask = cls._create_quant_mask(unique_data_quants)
        return qp.Ensemble(qp.quant, data=dict(quants=unique_eval_grid[quant_mask], locs=np.atleast_2d(unique_data_quants[quant_mask])))

    @classmethod
    def _create_quant_mask(cls, data_quants):
        return np.bitwise_and(data_quants > 0.0, data_quants < 1)

    def _trim_pit_values(self, cdf_min, cdf_max):
        mask = (self._pit_samps >= cdf_min) & (self._pit_samps <= cdf_max)
        pits_clean = self._pit_samps[mask]
        diff = len(self._pit_samps) - len(pits_clean)
        if diff > 0:
            logging.warning('Removed %d PITs from the sample.', diff)
        return pits_clean
