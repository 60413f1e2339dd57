from .annotation import Classification
from .evaluator import Evaluator
from .loader import Loader
from .metric import Metric, MetricType
from .shared import EvaluatorInfo

__all__ = [
    "Classification",
    "MetricType",
    "Loader",
    "Evaluator",
    "Metric",
    "EvaluatorInfo",
]
