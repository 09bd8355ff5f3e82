"""Stand-in for the compiled aggregation protocol.

It follows the interface of the simple aggregation protocol: clients are added,
each sends one input or leaves, and completing or aborting closes those left over.
Instead of adding tensors it keeps the inputs.  `observer(protocol, event, ...)`
hears of every step; `pause()` is called at the beginning of every method.
"""
from pybind11_abseil import status as absl_status
from tensorflow_federated.cc.core.impl.aggregation.protocol import aggregation_protocol_messages_pb2 as messages
from tensorflow_federated.cc.core.impl.aggregation.protocol.python import aggregation_protocol

observer = lambda *args, **kwargs: None
pause = lambda: None

Code = absl_status.StatusCode


def _fail(code, message):
  raise absl_status.StatusNotOk(absl_status.Status(code, message))


class SimpleAggregation(aggregation_protocol.AggregationProtocol):
  """One session's protocol."""

  def __init__(self, config):
    self.config = config
    self.state = 'created'
    self.clients = []     # pending, completed, failed, aborted
    self.outbox = {}      # client -> ServerMessage
    self.inputs = []      # (client, bytes) aggregated
    self.discarded = 0
    self.result = None

  def _need(self, *states):
    if self.state not in states:
      _fail(Code.FAILED_PRECONDITION, 'The protocol is ' + self.state)

  def _client(self, client_id):
    if not 0 <= client_id < len(self.clients):
      _fail(Code.INVALID_ARGUMENT, 'no such client')

  def _close(self, client_id, code, message):
    m = messages.ServerMessage()
    m.simple_aggregation.close_message.code = code.value
    m.simple_aggregation.close_message.message = message
    self.outbox[client_id] = m

  def _stop(self):
    for i, state in enumerate(self.clients):
      if state == 'pending':
        self.clients[i] = 'aborted'
        self._close(i, Code.ABORTED, 'The session has ended')

  def Start(self, num_clients):
    pause()
    self._need('created')
    self.state = 'started'
    self.clients = ['pending'] * num_clients
    observer(self, 'start')

  def AddClients(self, num_clients):
    pause()
    self._need('started')
    first = len(self.clients)
    self.clients += ['pending'] * num_clients
    observer(self, 'add', client=first)
    return first

  def ReceiveClientMessage(self, client_id, message):
    pause()
    self._need('started')
    self._client(client_id)
    if self.clients[client_id] != 'pending':
      _fail(Code.FAILED_PRECONDITION, 'The client is gone')
    data = message.simple_aggregation.input.inline_bytes
    if data.startswith(b'fatal'):
      observer(self, 'receive', client=client_id, data=data, result='fatal')
      self.state = 'aborted'
      self._stop()
      _fail(Code.INTERNAL, 'The protocol has failed')
    if data.startswith(b'bad'):
      self.clients[client_id] = 'failed'
      self.discarded += 1
      self._close(client_id, Code.INVALID_ARGUMENT, 'not a checkpoint')
      observer(self, 'receive', client=client_id, data=data, result='bad')
      return
    self.clients[client_id] = 'completed'
    self.inputs.append((client_id, data))
    self._close(client_id, Code.OK, '')
    observer(self, 'receive', client=client_id, data=data, result='ok')

  def CloseClient(self, client_id, message, code):
    pause()
    self._client(client_id)
    if self.clients[client_id] == 'pending':
      self.clients[client_id] = 'completed' if code == 0 else 'failed'
      observer(self, 'close', client=client_id, code=code)

  def PollServerMessage(self, client_id):
    pause()
    self._client(client_id)
    return self.outbox.pop(client_id, None)

  def Complete(self):
    pause()
    self._need('started')
    self.state = 'completed'
    self._stop()
    self.result = b'sum:' + b','.join(sorted(d for _, d in self.inputs))
    observer(self, 'complete')

  def Abort(self):
    pause()
    if self.state == 'aborted':
      return
    self._need('started')
    self.state = 'aborted'
    self._stop()
    observer(self, 'abort')

  def GetStatus(self):
    pause()
    count = self.clients.count
    return messages.StatusMessage(
        num_clients_completed=count('completed'),
        num_clients_failed=count('failed'),
        num_clients_pending=count('pending'),
        num_clients_aborted=count('aborted'),
        num_inputs_aggregated_and_included=len(self.inputs),
        num_inputs_aggregated_and_pending=0,
        num_inputs_discarded=self.discarded)

  def GetResult(self):
    pause()
    if self.state != 'completed':
      _fail(Code.FAILED_PRECONDITION, 'The protocol is ' + self.state)
    observer(self, 'result')
    return self.result


def create_simple_aggregation_protocol(config):
  return SimpleAggregation(config)
