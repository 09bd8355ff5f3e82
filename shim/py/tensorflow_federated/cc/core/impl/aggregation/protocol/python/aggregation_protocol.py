"""Stand-in for the compiled module: only the name of the interface."""


class AggregationProtocol:
  pass
