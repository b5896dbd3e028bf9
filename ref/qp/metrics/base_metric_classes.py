import enum
from abc import ABC

class MetricInputType(enum.Enum):
    unknown = -1
    single_ensemble = 0
    dist_to_point = 1
    dist_to_dist = 2
    point_to_point = 3
    point_to_dist = 4

    def uses_distribution_for_estimate(self) -> bool:
        return self in [MetricInputType.single_ensemble, MetricInputType.dist_to_point, MetricInputType.dist_to_dist]

    def uses_distribution_for_reference(self) -> bool:
        return self in [MetricInputType.dist_to_dist, MetricInputType.point_to_dist]

    def uses_point_for_estimate(self) -> bool:
        return self in [MetricInputType.point_to_dist, MetricInputType.point_to_point]

    def uses_point_for_reference(self) -> bool:
        return self in [MetricInputType.dist_to_point, MetricInputType.point_to_point]

class MetricOutputType(enum.Enum):
    unknown = -1
    single_value = 0
    single_distribution = 1
    one_value_per_distribution = 2

class BaseMetric(ABC):
    metric_name = None
    metric_input_type = MetricInputType.unknown
    metric_output_type = MetricOutputType.unknown

    def __init__(self, limits: tuple=(0.0, 3.0), dx: float=0.01) -> None:
        self._limits = limits
        self._dx = dx

    def initialize(self):
        pass

    def finalize(self):
        pass

    @classmethod
    def uses_distribution_for_estimate(cls) -> bool:
        return cls.metric_input_type.uses_distribution_for_estimate()

    @classmethod
    def uses_distribution_for_reference(cls) -> bool:
        return cls.metric_input_type.uses_distribution_for_reference()

    @classmethod
    def uses_point_for_estimate(cls) -> bool:
        return cls.metric_input_type.uses_point_for_estimate()

    @classmethod
    def uses_point_for_reference(cls) -> bool:
        return cls.metric_input_type.uses_point_for_reference()

class SingleEnsembleMetric(BaseMetric):
    metric_input_type = MetricInputType.single_ensemble
    metric_output_type = MetricOutputType.one_value_per_distribution

    def evaluate(self, estimate):
        raise NotImplementedError()

class DistToDistMetric(BaseMetric):
    metric_input_type = MetricInputType.dist_to_dist

    def evaluate(self, estimate, reference):
        raise NotImplementedError()

class DistToPointMetric(BaseMetric):
    metric_input_type = MetricInputType.dist_to_point

    def evaluate(self, estimate, reference):
        raise NotImplementedError()

    def initialize(self):
        pass

    def accumulate(self, estimate, reference):
        raise NotImplementedError()

    def finalize(self):
        raise NotImplementedError()

class PointToPointMetric(BaseMetric):
    metric_input_type = MetricInputType.point_to_point

    def eval_from_iterator(self, estimate, reference):
        self.initialize()
        centroids = [self.accumulate(est, ref) for est, ref in zip(estimate, reference)]
        return self.finalize(centroids)

    def evaluate(self, estimate, reference):
        raise NotImplementedError()

    def initialize(self):
        pass

    def accumulate(self, estimate, reference):
        raise NotImplementedError()

    def finalize(self):
        raise NotImplementedError()

class PointToDistMetric(BaseMetric):
    metric_input_type = MetricInputType.point_to_dist

    def evaluate(self, estimate, reference):
        raise NotImplementedError()
