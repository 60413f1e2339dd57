from .annotation import Context, QueryResponse
from .llm.integrations import ClientWrapper, MistralWrapper, OpenAIWrapper
from .manager import Evaluator
from .metric import Metric, MetricType

__all__ = [
    "QueryResponse",
    "Context",
    "Evaluator",
    "Metric",
    "MetricType",
    "ClientWrapper",
    "OpenAIWrapper",
    "MistralWrapper",
]
