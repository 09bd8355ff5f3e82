"""Drives fcp/demo/aggregations.py: sessions, tokens, uploads, waits.

Batches of operations run under a controlled schedule; every call, every return and
every step taken on the (stand-in) aggregation protocol is recorded.
"""
import asyncio
import threading

import vdrv
from fcp.demo import aggregations
from fcp.demo import http_actions
from fcp.demo import media
from fcp.protos import plan_pb2
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import common_pb2
from tensorflow_federated.cc.core.impl.aggregation.tensorflow.python import aggregation_protocols

_thread = threading.local()


def counts(status):
  return dict(
      completed=status.num_clients_completed, failed=status.num_clients_failed,
      pending=status.num_clients_pending, aborted=status.num_clients_aborted,
      included=status.num_inputs_aggregated_and_included,
      waiting=status.num_inputs_aggregated_and_pending,
      discarded=status.num_inputs_discarded)


NO_COUNTS = dict(completed=0, failed=0, pending=0, aborted=0, included=0, waiting=0,
                 discarded=0)


class World:

  def __init__(self, trace, rng):
    self.trace, self.rng = trace, rng
    self.names = vdrv.Names()
    self.protocols = {}
    forwarding = lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://h/')
    with vdrv.controlled_locks():
      self.media = media.Service(forwarding)
      self.service = aggregations.Service(forwarding, self.media)
    aggregation_protocols.observer = self.observe
    aggregation_protocols.pause = vdrv.point
    self.sessions = []    # ids
    self.tokens = []      # (session, token)
    self.clients = []     # (session, client token, resource)
    self.waits = []       # (call id, loop, task)
    self.calls = 0
    self.bodies = 0

  def close(self):
    for _, loop, task in self.waits:
      task.cancel()
      loop.run_until_complete(asyncio.sleep(0))
      loop.close()

  def observe(self, protocol, event, **args):
    if event == 'result':
      return
    p = self.protocols.setdefault(id(protocol), 'p%d' % (len(self.protocols) + 1))
    self.keep = getattr(self, 'keep', []) + [protocol]
    data = args.get('data', b'')
    self.trace.add('p', t=getattr(_thread, 'call', 0), k=event, p=p,
                   c=args.get('client', -1), data=data.decode('latin-1'),
                   r=args.get('result', ''), code=args.get('code', 0))

  def call(self, op, fn, *, sid='', key='', res='', n=0, data=''):
    """Runs fn, which returns the fields of the return event."""
    self.calls += 1
    t = self.calls
    _thread.call = t
    fields = dict(r='ok', id='', toks=[], ct='', res='', st='', counts=NO_COUNTS,
                  has=False, items=[])
    self.trace.add('call', t=t, op=op, id=sid, key=key, res=res, n=n, data=data)
    try:
      more = fn()
      if more is None:
        return t            # goes on
      fields.update(more)
    except http_actions.HttpError as e:
      fields['r'] = str(int(e.code))
    except (KeyError, ValueError):
      fields['r'] = 'error'
    except Exception as e:  # pylint:disable=broad-except
      fields['r'] = 'failed'
      fields['st'] = type(e).__name__
    self.trace.add('ret', t=t, **fields)
    return t

  # ---- operations
  def create(self, minimum, valid=True):
    plan = plan_pb2.Plan()
    if valid:
      phase = plan.phase.add().server_phase_v2
      config = phase.aggregations.add(intrinsic_uri='federated_sum')
      config.intrinsic_args.add().input_tensor.dtype = 1
      config.output_tensors.add().dtype = 1
    def fn():
      sid = self.service.create_session(
          aggregations.AggregationRequirements(minimum, plan))
      self.sessions.append(sid)
      return dict(id=self.names('s', sid))
    self.call('create', fn, n=minimum, key='' if valid else 'invalid')

  def preauth(self, sid, n):
    def fn():
      tokens = self.service.pre_authorize_clients(sid, n)
      self.tokens += [(sid, t) for t in tokens]
      return dict(toks=[self.names('t', t) for t in tokens])
    self.call('preauth', fn, sid=self.names('s', sid), n=n)

  def start(self, sid, token):
    def fn():
      op = self.service.start_aggregation_data_upload(
          aggregations_pb2.StartAggregationDataUploadRequest(
              aggregation_id=sid, authorization_token=token))
      response = aggregations_pb2.StartAggregationDataUploadResponse()
      if not op.done or not op.response.Unpack(response):
        return dict(r='failed')
      self.clients.append(
          (sid, response.client_token, response.resource.resource_name))
      return dict(ct=self.names('c', response.client_token),
                  res=self.names('u', response.resource.resource_name))
    self.call('start', fn, sid=self.names('s', sid), key=self.names('t', token))

  def up(self, res, kind):
    self.bodies += 1
    body = '%s%d' % (kind, self.bodies)
    def fn():
      self.media.upload(body.encode(), res)
      return {}
    self.call('up', fn, res=self.names('u', res), data=body)

  def submit(self, sid, client_token, res):
    def fn():
      self.service.submit_aggregation_result(
          aggregations_pb2.SubmitAggregationResultRequest(
              aggregation_id=sid, client_token=client_token, resource_name=res))
      return {}
    self.call('submit', fn, sid=self.names('s', sid),
              key=self.names('c', client_token), res=self.names('u', res))

  def drop(self, sid, client_token, code):
    def fn():
      request = aggregations_pb2.AbortAggregationRequest(
          aggregation_id=sid, client_token=client_token)
      request.status.code = code
      request.status.message = 'left'
      self.service.abort_aggregation(request)
      return {}
    self.call('drop', fn, sid=self.names('s', sid),
              key=self.names('c', client_token), n=code)

  def status(self, sid):
    def fn():
      s = self.service.get_session_status(sid)
      return dict(st=s.status.name, counts=counts(s))
    self.call('status', fn, sid=self.names('s', sid))

  def complete(self, sid):
    def fn():
      s, result = self.service.complete_session(sid)
      items = []
      if result is not None:
        text = result.decode('latin-1')
        items = text[4:].split(',') if text[4:] else []
        if not text.startswith('sum:'):
          items = ['?']
      return dict(st=s.status.name, counts=counts(s), has=result is not None,
                  items=items)
    self.call('complete', fn, sid=self.names('s', sid))

  def abort(self, sid):
    def fn():
      s = self.service.abort_session(sid)
      return dict(st=s.status.name, counts=counts(s))
    self.call('abort', fn, sid=self.names('s', sid))

  def wait(self, sid, n):
    def fn():
      loop = asyncio.new_event_loop()
      loop.set_exception_handler(
          lambda loop, context: self.trace.add('looperr', what=str(context)))
      task = loop.create_task(self.service.wait(
          sid, num_inputs_aggregated_and_included=None if n < 0 else n))
      for _ in range(2):
        loop.run_until_complete(asyncio.sleep(0))
      if not task.done():
        self.waits.append((_thread.call, loop, task))
        return None
      try:
        s = task.result()
        return dict(st=s.status.name, counts=counts(s))
      finally:
        loop.close()
    self.call('wait', fn, sid=self.names('s', sid), n=n)

  def poll(self):
    """Records the waits that have ended; everything else has returned."""
    still = []
    for t, loop, task in self.waits:
      for _ in range(3):
        loop.run_until_complete(asyncio.sleep(0))
      if not task.done():
        still.append((t, loop, task))
        continue
      fields = dict(r='ok', id='', toks=[], ct='', res='', st='',
                    counts=NO_COUNTS, has=False, items=[])
      try:
        s = task.result()
        fields.update(st=s.status.name, counts=counts(s))
      except Exception as e:  # pylint:disable=broad-except
        fields.update(r='failed', st=type(e).__name__)
      self.trace.add('ret', t=t, **fields)
      loop.close()
    self.waits = still
    self.trace.add('quiet')

  # ---- choices
  def choose(self, weights):
    rng = self.rng
    kind = rng.choices(list(weights), list(weights.values()))[0]
    sid = rng.choice(self.sessions[-2:]) if rng.random() > .04 else 'strange'
    if kind == 'preauth':
      n = rng.choice((0, 1, 2, 3))
      return lambda: self.preauth(sid, n)
    if kind == 'start':
      if not self.tokens:
        return lambda: self.preauth(sid, 1)
      session, token = rng.choice(self.tokens[-4:])
      if rng.random() < .1:
        session = sid
      if rng.random() < .05:
        token = rng.choice(('strange', self.clients[-1][1] if self.clients else ''))
      return lambda: self.start(session, token)
    if kind in ('up', 'submit', 'drop'):
      if not self.clients:
        return lambda: self.status(sid)
      session, client, res = rng.choice(self.clients[-4:])
      if kind == 'up':
        body = 'd' if rng.random() < .85 else rng.choice(('bad', 'fatal'))
        return lambda: self.up(res, body)
      if rng.random() < .06:
        session = sid
      if rng.random() < .05:
        client = rng.choice(('strange', self.tokens[-1][1] if self.tokens else ''))
      if kind == 'drop':
        code = rng.choice((0, 1, 13))
        return lambda: self.drop(session, client, code)
      if rng.random() < .1:
        res = rng.choice([c[2] for c in self.clients] + ['strange'])
      return lambda: self.submit(session, client, res)
    if kind == 'status':
      return lambda: self.status(sid)
    if kind == 'wait':
      n = rng.choice((-1, 0, 1, 1, 2, 2, 3, 4))
      return lambda: self.wait(sid, n)
    if kind == 'complete':
      return lambda: self.complete(sid)
    if kind == 'abort':
      return lambda: self.abort(sid)
    minimum = rng.choice((0, 1, 2, 2, 3))
    valid = rng.random() > .05
    return lambda: self.create(minimum, valid)

  def one_client(self, sid, token):
    """A whole visit of a client."""
    def fn():
      before = len(self.clients)
      self.start(sid, token)
      mine = [c for c in self.clients[before:] if c[0] == sid]
      if mine and not getattr(_thread, 'gone', False):
        self.up(mine[0][2], 'd')
        self.submit(*mine[0])
    return fn


WEIGHTS = dict(preauth=2, start=4, up=4, submit=5, drop=1, status=2, wait=2,
               complete=.6, abort=.3, create=.4)


def batch(w, rng, ops):
  vdrv.Schedule(rng, rng.choice((.2, .5, .8))).run(ops)
  w.poll()


def mix(trace, rng):
  trace.add('reset')
  w = World(trace, rng)
  w.create(rng.choice((0, 1, 2, 3)))
  w.preauth(w.sessions[0], rng.choice((1, 3, 5)))
  for _ in range(rng.randint(8, 20)):
    batch(w, rng, [w.choose(WEIGHTS) for _ in range(rng.choice((1, 1, 2, 3)))])
  finish(w, rng)


def finish(w, rng):
  """Ends what is still open and checks that everything is refused then."""
  for sid in w.sessions:
    batch(w, rng, [rng.choice((lambda: w.complete(sid), lambda: w.abort(sid)))])
  for sid in w.sessions[-2:]:
    batch(w, rng, [lambda: w.status(sid)])
    batch(w, rng, [lambda: w.preauth(sid, 1)])
    batch(w, rng, [lambda: w.wait(sid, 1)])
    batch(w, rng, [lambda: w.complete(sid)])
    batch(w, rng, [lambda: w.abort(sid)])
  for session, token in w.tokens[-3:]:
    batch(w, rng, [lambda: w.start(session, token)])
  for session, client, res in w.clients[-4:]:
    batch(w, rng, [lambda: w.up(res, 'd')])
    batch(w, rng, [lambda: w.submit(session, client, res)])
  w.trace.add('end')
  w.close()


def crowd(trace, rng):
  """Clients visit while the session is waited for and ended."""
  trace.add('reset')
  w = World(trace, rng)
  k = rng.choice((2, 3, 4))
  w.create(rng.choice((0, 1, k - 1, k)))
  sid = w.sessions[0]
  w.preauth(sid, k)
  ready = []
  tokens = [t for _, t in w.tokens]
  # Some clients are further along than others.
  for token in tokens[:rng.randint(0, k)]:
    w.start(sid, token)
    if rng.random() < .8:
      w.up(w.clients[-1][2], rng.choices(('d', 'bad', 'fatal'), (10, 1, 1))[0])
    ready.append(w.clients[-1])
  ops = [lambda c=c: w.submit(*c) for c in ready]
  ops += [lambda t=t: w.start(sid, t) for t in tokens[len(ready):]]
  extra = [lambda: w.wait(sid, rng.choice((1, 2, k))), lambda: w.complete(sid),
           lambda: w.abort(sid), lambda: w.status(sid), lambda: w.preauth(sid, 1)]
  if ready:
    c = rng.choice(ready)
    extra += [lambda: w.submit(*c), lambda: w.drop(c[0], c[1], 1),
              lambda: w.up(c[2], 'd')]
  if rng.random() < .5:
    w.wait(sid, rng.choice((1, k)))
  ops += rng.sample(extra, rng.choice((1, 2)))
  if rng.random() < .6:
    ops.append(lambda: w.complete(sid))
  rng.shuffle(ops)
  batch(w, rng, ops[:5])
  for op in ops[5:]:
    batch(w, rng, [op])
  finish(w, rng)


vdrv.main({'mix': mix, 'crowd': crowd})
