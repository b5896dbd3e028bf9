from .array_metrics import *
from .metrics import *
from .goodness_of_fit import *
from .base_metric_classes import *
from .concrete_metric_classes import *
from .point_estimate_metric_classes import *
from .metrics import _calculate_grid_parameters, _check_ensemble_is_not_nested, _check_ensembles_are_same_size
from .metrics import _check_ensembles_contain_correct_number_of_distributions
from .factory import MetricFactory
create_metric = MetricFactory.create_metric
print_metrics = MetricFactory.print_metrics
list_metrics = MetricFactory.list_metrics
update_metrics = MetricFactory.update_metrics
