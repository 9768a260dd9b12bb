from ..core import AnalysisException, SparkError
