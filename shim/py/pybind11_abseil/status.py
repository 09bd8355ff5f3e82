"""Stand-in for pybind11_abseil.status."""
import enum


class StatusCode(enum.Enum):
  OK = 0
  CANCELLED = 1
  UNKNOWN = 2
  INVALID_ARGUMENT = 3
  DEADLINE_EXCEEDED = 4
  NOT_FOUND = 5
  ALREADY_EXISTS = 6
  PERMISSION_DENIED = 7
  RESOURCE_EXHAUSTED = 8
  FAILED_PRECONDITION = 9
  ABORTED = 10
  OUT_OF_RANGE = 11
  UNIMPLEMENTED = 12
  INTERNAL = 13
  UNAVAILABLE = 14
  DATA_LOSS = 15
  UNAUTHENTICATED = 16

  # The compiled module compares codes with plain numbers.
  def __eq__(self, other):
    if isinstance(other, int):
      return self.value == other
    return self is other

  def __hash__(self):
    return hash(self.value)

  def __int__(self):
    return self.value


def StatusCodeFromInt(code):  # pylint:disable=invalid-name
  try:
    return StatusCode(code)
  except ValueError:
    return StatusCode.UNKNOWN


class Status:
  """A code and a message."""

  def __init__(self, code=StatusCode.OK, msg=''):
    self._code, self._message = code, msg if code != StatusCode.OK else ''

  @staticmethod
  def OkStatus():  # pylint:disable=invalid-name
    return Status()

  def ok(self):
    return self._code == StatusCode.OK

  def code(self):
    return self._code

  def code_int(self):
    return self._code.value

  def raw_code(self):
    return self._code.value

  def message(self):
    return self._message

  def __eq__(self, other):
    return (isinstance(other, Status) and self._code == other._code and
            self._message == other._message)

  def __hash__(self):
    return hash((self._code, self._message))


class StatusNotOk(Exception):

  def __init__(self, status):
    super().__init__(status.message())
    self._status = status

  @property
  def status(self):
    return self._status

  @property
  def code(self):
    return self._status.raw_code()

  @property
  def message(self):
    return self._status.message()


def _maker(code):
  return lambda message='': Status(code, message)


invalid_argument_error = _maker(StatusCode.INVALID_ARGUMENT)
internal_error = _maker(StatusCode.INTERNAL)
failed_precondition_error = _maker(StatusCode.FAILED_PRECONDITION)
not_found_error = _maker(StatusCode.NOT_FOUND)
aborted_error = _maker(StatusCode.ABORTED)
unavailable_error = _maker(StatusCode.UNAVAILABLE)
unknown_error = _maker(StatusCode.UNKNOWN)
