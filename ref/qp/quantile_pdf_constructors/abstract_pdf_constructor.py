from typing import List

class AbstractQuantilePdfConstructor:

    def __init__(self, quantiles: List[float], locations: List[List[float]]) -> None:
        pass

    def prepare_constructor(self) -> None:
        pass

    def construct_pdf(self, grid: List[float], row: List[int]=None) -> List[List[float]]:
        pass
