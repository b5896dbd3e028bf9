from typing import List
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
from qp.quantile_pdf_constructors.abstract_pdf_constructor import AbstractQuantilePdfConstructor

class CdfSplineDerivative(AbstractQuantilePdfConstructor):

    def __init__(self, quantiles: List[float], locations: List[List[float]]) -> None:
        self._quantiles = quantiles
        self._locations = np.atleast_2d(locations)
        self._interpolation_functions = None

    def prepare_constructor(self, spline_order: int=3) -> None:
        number_of_locations = len(self._locations[:, 0])
        self._interpolation_functions = [InterpolatedUnivariateSpline(self._locations[i, :], self._quantiles, k=spline_order, ext=1).derivative() for i in range(0, number_of_locations)]

    def construct_pdf(self, grid: List[float], row: List[int]=None) -> List[List[float]]:
        if self._interpolation_functions is None:
            self.prepare_constructor()
        selected_interpolation_functions = self._interpolation_functions
        if row is not None:
            selected_interpolation_functions = map(self._interpolation_functions.__getitem__, np.unique(row))
        return np.asarray([func(grid) for func in selected_interpolation_functions])

    def debug(self):
        return (self._quantiles, self._locations, self._interpolation_functions)
