"""Drives fcp/demo/task_assignments.py, eligibility_eval_tasks.py and server.py.

mix: tasks are published and removed while clients check in, under a controlled
schedule; the tokens handed to clients are tried on the (real) aggregations service.

server: the in-process server runs computations one after another and side by side,
and clients take part in them over HTTP.
"""
import asyncio
import gzip
import http.client
import http.server
import sys
import threading
import time
import types
import urllib.parse

from google.longrunning import operations_pb2

import vdrv
from fcp.demo import aggregations
from fcp.demo import eligibility_eval_tasks
from fcp.demo import http_actions
from fcp.demo import media
from fcp.demo import task_assignments
from fcp.protos import plan_pb2
from fcp.protos import population_eligibility_spec_pb2
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import common_pb2
from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
from fcp.protos.federatedcompute import task_assignments_pb2
from tensorflow_federated.cc.core.impl.aggregation.tensorflow.python import aggregation_protocols

Spec = population_eligibility_spec_pb2.PopulationEligibilitySpec
Mode = Spec.TaskInfo.TaskAssignmentMode
MODES = {'one': Mode.TASK_ASSIGNMENT_MODE_SINGLE,
         'many': Mode.TASK_ASSIGNMENT_MODE_MULTIPLE,
         'none': Mode.TASK_ASSIGNMENT_MODE_UNSPECIFIED}
POPULATION = 'people/here'
INFO = common_pb2.ForwardingInfo(target_uri_prefix='http://h/')
NAMES = ('n1', 'n2', 'n3')


class World:

  def __init__(self, trace, rng):
    self.trace, self.rng = trace, rng
    self.names = vdrv.Names()
    aggregation_protocols.observer = lambda *a, **k: None
    aggregation_protocols.pause = vdrv.point
    with vdrv.controlled_locks():
      self.media = media.Service(lambda: INFO)
      self.aggregations = aggregations.Service(lambda: INFO, self.media)
      self.service = task_assignments.Service(
          POPULATION, lambda: INFO, self.aggregations)
      self.eligibility = eligibility_eval_tasks.Service(POPULATION, lambda: INFO)
    self.tasks = {}       # k -> dict
    self.by_session = {}  # session -> k
    self.known = []       # k added at least once
    self.removing = set()
    self.tokens = []      # (k, token)
    self.calls = 0

  def call(self, op, fn, *, k='', name='', mode='', names=()):
    self.calls += 1
    t = self.calls
    fields = dict(r='ok', v=[], toks=[])
    self.trace.add('call', t=t, op=op, k=k, name=name, mode=mode, names=list(names))
    try:
      fields.update(fn() or {})
    except http_actions.HttpError as e:
      fields['r'] = str(int(e.code))
    except (KeyError, ValueError) as e:
      # Only methods that are not called over HTTP may end like this.
      fields['r'] = 'error' if op in ('add', 'rem', 'erem') else 'failed'
    self.trace.add('ret', t=t, **fields)

  # ---- publishing
  def make(self, name, mode):
    plan = plan_pb2.Plan()
    plan.phase.add().server_phase_v2.aggregations.add(intrinsic_uri='sum')
    session = self.aggregations.create_session(
        aggregations.AggregationRequirements(1, plan))
    k = 'k%d' % (len(self.tasks) + 1)
    self.tasks[k] = dict(
        name=name, mode=mode, session=session,
        plan=common_pb2.Resource(uri='http://h/plan/' + k),
        checkpoint=common_pb2.Resource(uri='http://h/checkpoint/' + k),
        template='http://h/%s/{served_at_id}_{key_base10}' % k)
    self.by_session[session] = k
    return k

  def add(self, k):
    task = self.tasks[k]
    self.call('add', lambda: self.service.add_task(
        task['name'], MODES[task['mode']], task['session'], task['plan'],
        task['checkpoint'], task['template']), k=k, name=task['name'],
              mode=task['mode'])
    self.known.append(k)

  def retire(self, k, end):
    session = self.tasks[k]['session'] if k in self.tasks else 'strange'
    self.call('rem', lambda: self.service.remove_task(session), k=k)
    if end and k in self.tasks:
      self.trace.add('ended', k=k)
      try:
        self.aggregations.abort_session(session)
      except KeyError:
        pass

  def eadd(self, name, mode):
    self.call('eadd', lambda: self.eligibility.add_task(name, MODES[mode]),
              name=name, mode=mode)

  def erem(self, name):
    self.call('erem', lambda: self.eligibility.remove_task(name), name=name)

  # ---- clients
  def describe(self, assignment, session_id):
    """The task an assignment is for, marked if anything in it is not that task's."""
    k = self.by_session.get(assignment.aggregation_id)
    if k is None:
      return '?'
    task = self.tasks[k]
    right = (
        assignment.task_name == task['name'] and
        assignment.session_id == session_id and
        assignment.plan == task['plan'] and
        assignment.init_checkpoint == task['checkpoint'] and
        assignment.federated_select_uri_info.uri_template == task['template'] and
        assignment.aggregation_data_forwarding_info == INFO and
        assignment.HasField('aggregation_info') and
        assignment.authorization_token)
    return k if right else k + '!'

  def take(self, assignments, session_id):
    v, toks = [], []
    for a in assignments:
      v.append(self.describe(a, session_id))
      toks.append(self.names('t', a.authorization_token))
      self.tokens.append((v[-1], a.authorization_token))
    return dict(v=v, toks=toks)

  def checkin(self, population):
    session_id = 'session%d' % self.rng.randint(0, 10**6)
    def fn():
      op = self.service.start_task_assignment(
          task_assignments_pb2.StartTaskAssignmentRequest(
              population_name=population, session_id=session_id))
      response = task_assignments_pb2.StartTaskAssignmentResponse()
      if not op.done or not op.response.Unpack(response):
        return dict(r='unpack')
      if response.HasField('task_assignment'):
        return self.take([response.task_assignment], session_id)
      return {} if response.HasField('rejection_info') else dict(r='empty')
    self.call('checkin', fn, mode=self.right(population))

  def checkins(self, population, names):
    session_id = 'session%d' % self.rng.randint(0, 10**6)
    def fn():
      response = self.service.perform_multiple_task_assignments(
          task_assignments_pb2.PerformMultipleTaskAssignmentsRequest(
              population_name=population, session_id=session_id,
              task_names=names))
      return self.take(response.task_assignments, session_id)
    self.call('checkins', fn, mode=self.right(population), names=names)

  def list(self, population, several):
    def fn():
      request = eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest(
          population_name=population)
      caps = request.eligibility_eval_task_capabilities
      caps.supports_multiple_task_assignment = several
      response = self.eligibility.request_eligibility_eval_task(request)
      if not response.session_id or (
          response.task_assignment_forwarding_info != INFO):
        return dict(r='incomplete')
      if not response.HasField('eligibility_eval_task'):
        plain = response.HasField('no_eligibility_eval_configured')
        return dict(v=[] if plain and not several else ['?'])
      spec = Spec.FromString(response.eligibility_eval_task
                             .population_eligibility_spec.inline_resource.data)
      back = {v: k for k, v in MODES.items()}
      return dict(v=['%s/%s' % (i.task_name, back[i.task_assignment_mode])
                     for i in spec.task_info])
    self.call('list', fn, mode=self.right(population),
              name='' if several else 'plain')

  def report(self, population):
    def fn():
      self.service.report_task_result(
          task_assignments_pb2.ReportTaskResultRequest(
              population_name=population, session_id='s', task_name='n1'))
    self.call('report', fn, mode=self.right(population))

  def use(self, k, token):
    session = self.tasks[k]['session'] if k in self.tasks else 'strange'
    try:
      self.aggregations.start_aggregation_data_upload(
          aggregations_pb2.StartAggregationDataUploadRequest(
              aggregation_id=session, authorization_token=token))
      ok = True
    except http_actions.HttpError:
      ok = False
    self.trace.add('use', k=k, tok=self.names('t', token), ok=ok)

  def right(self, population):
    return 'right' if population == POPULATION else 'wrong'

  # ---- choices
  def choose(self):
    rng = self.rng
    kind = rng.choices(
        ('add', 'rem', 'checkin', 'checkins', 'eadd', 'erem', 'list', 'report'),
        (3, 3, 6, 5, 2, 1.5, 2, .3))[0]
    population = POPULATION if rng.random() > .05 else rng.choice(
        ('', 'people', 'people/there'))
    name = rng.choice(NAMES)
    if kind == 'add':
      k = self.make(name, rng.choices(('one', 'many', 'none'), (5, 5, .3))[0])
      return lambda: self.add(k)
    if kind == 'rem':
      left = [k for k in self.known if k not in self.removing]
      k = rng.choice(left) if left and rng.random() > .04 else 'strange'
      self.removing.add(k)
      end = rng.random() < .8
      return lambda: self.retire(k, end)
    if kind == 'checkin':
      return lambda: self.checkin(population)
    if kind == 'checkins':
      names = [rng.choice(NAMES + ('other',)) for _ in range(rng.randint(0, 3))]
      return lambda: self.checkins(population, names)
    if kind == 'eadd':
      mode = rng.choice(('one', 'many'))
      return lambda: self.eadd(name, mode)
    if kind == 'erem':
      return lambda: self.erem(name)
    if kind == 'list':
      several = rng.random() < .8
      return lambda: self.list(population, several)
    return lambda: self.report(population)


def mix(trace, rng):
  trace.add('reset')
  w = World(trace, rng)
  for _ in range(rng.randint(0, 3)):
    w.add(w.make(rng.choice(NAMES), rng.choice(('one', 'many'))))
  for _ in range(rng.randint(6, 14)):
    ops = [w.choose() for _ in range(rng.choice((1, 2, 2, 3)))]
    vdrv.Schedule(rng, rng.choice((.2, .5, .8))).run(ops)
    if w.tokens and rng.random() < .3:
      w.use(*rng.choice(w.tokens))
  for k, token in w.tokens[-8:]:
    w.use(k, token)
    if rng.random() < .5:
      w.use(rng.choice(list(w.tasks)), token)
  trace.add('end')


# ---- computations run by the server
class PlanSession:
  """Stand-in for plan_utils.Session, which runs TensorFlow graphs."""

  def __init__(self, plan, checkpoint):
    self._name = checkpoint.decode()
    del plan

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    pass

  @property
  def client_plan(self):
    return (self._name + '/plan').encode()

  @property
  def client_checkpoint(self):
    return (self._name + '/checkpoint').encode()

  @property
  def slices(self):
    return {'s': [(self._name + '/s_0').encode(), (self._name + '/s_1').encode()]}

  def finalize(self, result):
    return self._name.encode() + b'=' + result


class Client:
  """A client of the server, over HTTP."""

  def __init__(self, run, number, seed):
    self.run, self.number = run, number
    self.rng = vdrv.random.Random(seed)
    self.sent = 0

  def http(self, method, path, body=None):
    conn = http.client.HTTPConnection('127.0.0.1', self.run.port, timeout=20)
    try:
      conn.request(method, path, body=body)
      r = conn.getresponse()
      return r.status, r.read()
    finally:
      conn.close()

  def rpc(self, path, request, response):
    status, body = self.http('POST', '/v1/%s?%%24alt=proto' % path,
                             request.SerializeToString())
    return status, response.FromString(body) if status == 200 else None

  def operation(self, path, request, response):
    status, op = self.rpc(path, request, operations_pb2.Operation)
    if status == 200:
      message = response()
      if not op.done or not op.response.Unpack(message):
        return 'unpack', None
      return status, message
    return status, None

  def checkin(self):
    rng, run = self.rng, self.run
    pop = urllib.parse.quote(POPULATION, safe='')
    session_id = 's%d' % rng.randint(0, 10**9)
    several = rng.random() < .5
    names = [rng.choice(NAMES) for _ in range(rng.randint(1, 2))] if several else []
    n = run.number()
    run.trace.add('cin', n=n, names=names, mode='many' if several else 'one')
    if several:
      status, response = self.rpc(
          'populations/%s/taskassignments/%s:performmultiple' % (pop, session_id),
          task_assignments_pb2.PerformMultipleTaskAssignmentsRequest(
              task_names=names),
          task_assignments_pb2.PerformMultipleTaskAssignmentsResponse)
      found = list(response.task_assignments) if response else []
    else:
      status, response = self.operation(
          'populations/%s/taskassignments/%s:start' % (pop, session_id),
          task_assignments_pb2.StartTaskAssignmentRequest(),
          task_assignments_pb2.StartTaskAssignmentResponse)
      found = [response.task_assignment] if (
          response and response.HasField('task_assignment')) else []
    ks = []
    for a in found:
      k = run.session(a.aggregation_id)
      ks.append(dict(s=k, name=a.task_name, sid=a.session_id == session_id))
    run.trace.add('got', n=n, r=str(status), v=ks)
    return found

  def fetch(self, a, what):
    run = self.run
    uri = {'plan': a.plan.uri, 'checkpoint': a.init_checkpoint.uri}.get(what)
    if uri is None:
      uri = a.federated_select_uri_info.uri_template.replace(
          '{served_at_id}', what.split('_')[0]).replace(
              '{key_base10}', what.split('_')[1])
    n = run.number()
    run.trace.add('get', n=n, s=run.session(a.aggregation_id), what=what)
    status, body = self.http('GET', urllib.parse.urlsplit(uri).path)
    data = ''
    if status == 200:
      try:
        data = gzip.decompress(body).decode('ascii', 'replace')
      except OSError:
        data = 'not gzip'
    run.trace.add('gave', n=n, r=str(status), data=data)
    return data

  def take_part(self, a):
    rng, run = self.rng, self.run
    for what in rng.sample(('plan', 'checkpoint', 's_0', 's_1'), rng.randint(0, 2)):
      self.fetch(a, what)
    time.sleep(rng.choice((0, 0, .001, .005)))
    s = run.session(a.aggregation_id)
    status, response = self.operation(
        'aggregations/%s/clients/%s:startdataupload' % (
            a.aggregation_id, a.authorization_token),
        aggregations_pb2.StartAggregationDataUploadRequest(),
        aggregations_pb2.StartAggregationDataUploadResponse)
    run.trace.add('started', s=s, r=str(status))
    if response is None or rng.random() < .1:
      return
    resource = response.resource
    self.sent += 1
    data = 'c%d.%d' % (self.number, self.sent)
    if rng.random() < .1:
      data = 'bad' + data
    path = '/upload/v1/media/%s?upload_protocol=raw' % urllib.parse.quote(
        resource.resource_name, safe='')
    status, _ = self.http('POST', path, data.encode())
    n = run.number()
    run.trace.add('sub', n=n, s=s, d=data)
    request = aggregations_pb2.SubmitAggregationResultRequest(
        resource_name=resource.resource_name)
    status, _ = self.rpc(
        'aggregations/%s/clients/%s:submit' % (
            a.aggregation_id, response.client_token), request,
        aggregations_pb2.SubmitAggregationResultResponse)
    run.trace.add('subd', n=n, r=str(status))

  def main(self):
    while not self.run.over:
      found = self.checkin()
      if self.rng.random() < .3:
        self.rng.shuffle(found)
      for a in found:
        if self.rng.random() < .9:
          self.take_part(a)
      if not found:
        time.sleep(.002)


class Run:
  """One server with its computations and clients."""

  def __init__(self, trace, rng, server):
    self.trace, self.rng = trace, rng
    self.server = server
    self.port = server.server_port
    self.over = False
    self._names = vdrv.Names()
    self._lock = threading.Lock()
    self._count = 0

  def number(self):
    with self._lock:
      self._count += 1
      return self._count

  def session(self, aggregation_id):
    with self._lock:
      return self._names('s', aggregation_id)

  async def compute(self, k, wait):
    rng = self.rng
    name = rng.choice(NAMES)
    mode = rng.choices(('one', 'many', 'none'), (5, 5, .5))[0]
    n = rng.randint(1, 4)
    plan = plan_pb2.Plan()
    plan.phase.add().server_phase_v2.aggregations.add(intrinsic_uri='sum')
    await asyncio.sleep(wait)
    self.trace.add('run', k=k, name=name, mode=mode, n=n)
    try:
      result = await asyncio.wait_for(
          self.server.run_computation(name, plan, k.encode(), MODES[mode], n), 20)
      head, _, items = result.decode().partition('=sum:')
      r, v = head, [i for i in items.split(',') if i]
    except asyncio.TimeoutError:
      r, v = 'hang', []
    except ValueError as e:
      r, v = 'ValueError', []
    except Exception as e:  # pylint:disable=broad-except
      r, v = type(e).__name__, []
    self.trace.add('done', k=k, r=r, v=v)

  async def computations(self):
    rng = self.rng
    count = rng.randint(1, 5)
    await asyncio.gather(*[
        self.compute('k%d' % i, rng.choice((0, 0, .01, .03, .06)))
        for i in range(count)])


def serve(trace, rng):
  trace.add('reset')
  aggregation_protocols.observer = lambda *a, **k: None
  aggregation_protocols.pause = lambda: None
  from fcp.demo import server as server_lib
  server = server_lib.InProcessServer(
      population_name=POPULATION, host='127.0.0.1', port=0)
  server.daemon_threads = True
  thread = threading.Thread(target=server.serve_forever, args=(.02,), daemon=True)
  thread.start()
  run = Run(trace, rng, server)
  clients = [Client(run, i, rng.random()) for i in range(rng.randint(1, 4))]
  threads = [threading.Thread(target=c.main, daemon=True) for c in clients]
  for t in threads:
    t.start()
  try:
    asyncio.run(run.computations())
  finally:
    run.over = True
    for t in threads:
      t.join(60)
    # Nothing is published any more.
    pop = urllib.parse.quote(POPULATION, safe='')
    request = eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest()
    request.eligibility_eval_task_capabilities.supports_multiple_task_assignment = True
    client = clients[0]
    status, response = client.rpc(
        'eligibilityevaltasks/%s:request' % pop, request,
        eligibility_eval_tasks_pb2.EligibilityEvalTaskResponse)
    left = ['?']
    if response:
      left = [i.task_name for i in Spec.FromString(
          response.eligibility_eval_task.population_eligibility_spec
          .inline_resource.data).task_info]
    for _ in range(4):
      client.checkin()
    server.shutdown()
    server.server_close()
  trace.add('left', v=left)


http.server.BaseHTTPRequestHandler.log_message = lambda *args: None
plan_utils = types.ModuleType('fcp.demo.plan_utils')
plan_utils.Session = PlanSession
sys.modules['fcp.demo.plan_utils'] = plan_utils

vdrv.main({'mix': mix, 'server': serve})
