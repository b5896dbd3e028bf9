from .abstract_pdf_constructor import AbstractQuantilePdfConstructor
from .cdf_spline_derivative import CdfSplineDerivative
from .dual_spline_average import DualSplineAverage
from .piecewise_constant import PiecewiseConstant
from .piecewise_linear import PiecewiseLinear
