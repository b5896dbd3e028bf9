from typing import List
import numpy as np
from scipy.interpolate import interp1d
from qp.quantile_pdf_constructors.abstract_pdf_constructor import AbstractQuantilePdfConstructor

class DualSplineAverage(AbstractQuantilePdfConstructor):

    def __init__(self, quantiles: List[float], locations: List[List[float]]) -> None:
        self._quantiles = quantiles
        self._locations = np.atleast_2d(locations)
        self._p_of_zs = None
        self.y1 = None
        self.y2 = None

    def prepare_constructor(self) -> None:
        self._p_of_zs = np.zeros(self._locations.shape)
        zeros_for_comparison = np.zeros(self._locations.shape[0])
        first_term = 2 * np.diff(self._quantiles) / np.diff(self._locations)
        for i in range(1, np.shape(self._p_of_zs)[-1]):
            self._p_of_zs[:, i] = np.maximum(zeros_for_comparison, first_term[:, i - 1] - self._p_of_zs[:, i - 1])
        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), self._p_of_zs)

    def construct_pdf(self, grid: List[float], row: List[int]=None) -> List[List[float]]:
        if self._p_of_zs is None:
            self.prepare_constructor()
        filtered_p_of_zs = self._p_of_zs
        filtered_locations = self._locations
        if row is not None:
            filtered_p_of_zs = list(map(self._p_of_zs.__getitem__, np.unique(row)))
            filtered_locations = list(map(self._locations.__getitem__, np.unique(row)))
        f1 = np.asarray([interp1d(np.squeeze(specific_locations[0::2]), np.squeeze(specific_p_of_zs[0::2]), bounds_error=False, fill_value=0.0, kind='cubic') for specific_p_of_zs, specific_locations in zip(filtered_p_of_zs, filtered_locations)])
        f2 = np.asarray([interp1d(np.squeeze(specific_locations[1::2]), np.squeeze(specific_p_of_zs[1::2]), bounds_error=False, fill_value=0.0, kind='cubic') for specific_p_of_zs, specific_locations in zip(filtered_p_of_zs, filtered_locations)])
        self.y1 = np.asarray([func_1(grid) for func_1 in f1])
        self.y2 = np.asarray([func_2(grid) for func_2 in f2])
        return (self.y1 + self.y2) / 2

    def debug(self):
        return (self._quantiles, self._locations, self._p_of_zs, self.y1, self.y2)
