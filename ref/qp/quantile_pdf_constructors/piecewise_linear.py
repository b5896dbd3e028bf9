from typing import List
import numpy as np
from qp.quantile_pdf_constructors.abstract_pdf_constructor import AbstractQuantilePdfConstructor
from qp.utils import interpolate_multi_x_multi_y

class PiecewiseLinear(AbstractQuantilePdfConstructor):

    def __init__(self, quantiles: List[float], locations: List[List[float]]) -> None:
        self._quantiles = quantiles
        self._locations = np.atleast_2d(locations)
        self._cdf_derivatives = None
        self._adjusted_locations = None

    def prepare_constructor(self) -> None:
        self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1]) / (self._locations[:, 1:] - self._locations[:, 0:-1])
        self._adjusted_locations = self._locations[:, 1:] - np.diff(self._locations) / 2

    def construct_pdf(self, grid: List[float], row: List[int]=None) -> List[List[float]]:
        if self._cdf_derivatives is None:
            self.prepare_constructor()
        if row is None:
            row = np.asarray([0])
        return interpolate_multi_x_multi_y(grid, row, self._adjusted_locations, self._cdf_derivatives, bounds_error=False, fill_value=(0.0, 0.0), kind='linear').ravel()

    def debug(self):
        return (self._quantiles, self._locations, self._cdf_derivatives, self._adjusted_locations)
