"""A small, strict, pure-Python stand-in for the part of PySpark that generated code and the
spl_transpiler runtime use.  It is bound to real Spark by the golden conformance corpus
(/verif/golden, regenerated and compared by the thorough tiers)."""
__version__ = "0-model"
