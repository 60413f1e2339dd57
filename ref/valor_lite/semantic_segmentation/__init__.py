from .annotation import Bitmask, Segmentation
from .evaluator import Builder, Evaluator, EvaluatorInfo
from .loader import Loader
from .metric import Metric, MetricType

__all__ = [
    "Builder",
    "Loader",
    "Evaluator",
    "Segmentation",
    "Bitmask",
    "Metric",
    "MetricType",
    "EvaluatorInfo",
]
