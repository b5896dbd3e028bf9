import logging
import numpy as np

class Brier:

    def __init__(self, prediction, truth):
        self._prediction = prediction
        self._truth = truth
        self._axis_for_summation = None

    def evaluate(self):
        self._manipulate_data()
        self._validate_data()
        return self._calculate_metric()

    def accumulate(self):
        self._manipulate_data()
        self._validate_data()
        return self._calculate_metric_for_accumulation()

    def _manipulate_data(self):
        self._prediction = np.array(self._prediction)
        self._truth = np.array(self._truth)

    def _validate_data(self):
        if not np.issubdtype(self._prediction.dtype, np.number):
            raise TypeError('Input prediction array could not be converted to a Numpy array')
        if not np.issubdtype(self._truth.dtype, np.number):
            raise TypeError('Input truth array could not be converted to a Numpy array')
        if self._prediction.shape != self._truth.shape:
            raise ValueError('Input prediction and truth arrays do not have the same shape')
        self._axis_for_summation = 0 if self._prediction.ndim == 1 else 1
        if not np.allclose(np.sum(self._prediction, axis=self._axis_for_summation), 1.0):
            logging.warning('Input predictions do not sum to 1.')

    def _calculate_metric(self):
        return np.mean(np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation))

    def _calculate_metric_for_accumulation(self):
        return np.sum(np.sum((self._prediction - self._truth) ** 2, axis=self._axis_for_summation))
