from .annotation import Bitmask, BoundingBox, Detection, Polygon
from .evaluator import Evaluator
from .loader import Loader
from .metric import Metric, MetricType
from .shared import EvaluatorInfo

__all__ = [
    "Bitmask",
    "BoundingBox",
    "Detection",
    "Polygon",
    "Metric",
    "MetricType",
    "Loader",
    "Evaluator",
    "EvaluatorInfo",
]
