"""Stand-in for the few TensorFlow names the demo's services use."""
import sys
import types


class DType:

  def __init__(self, name, number):
    self.name, self.number = name, number

  def __eq__(self, other):
    return isinstance(other, DType) and self.number == other.number

  def __hash__(self):
    return self.number


float32 = DType('float32', 1)
double = float64 = DType('float64', 2)
int32 = DType('int32', 3)
string = DType('string', 7)
int64 = DType('int64', 9)
bool = DType('bool', 10)  # pylint:disable=redefined-builtin
uint64 = DType('uint64', 23)

dtypes = types.SimpleNamespace(
    as_dtype=lambda n: {
        d.number: d
        for d in (float32, double, int32, string, int64, bool, uint64)
    }[int(n)])
