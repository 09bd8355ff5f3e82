"""Drives fcp/demo/http_actions.py: requests against handlers for every rule.

Requests are written byte by byte to a real server; each is recorded with what it
carries, followed by what a handler was given and what came back.  `mix` makes up
requests, `file` takes targets enumerated from the specification (env REQUESTS).
"""
import gzip
import hashlib
import http
import http.server
import json
import os
import re
import socket
import threading
import zlib

from google.protobuf import text_format

import vdrv
import verif_gateway_pb2
from fcp.demo import http_actions
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
from fcp.protos.federatedcompute import task_assignments_pb2

V1 = 'google.internal.federatedcompute.v1.'
A, T, E = aggregations_pb2, task_assignments_pb2, eligibility_eval_tasks_pb2
G = verif_gateway_pb2
from google.longrunning import operations_pb2  # pylint:disable=g-import-not-at-top

# name: (service, method, request, response, path variables, target)
RPCS = {
    'start': (V1 + 'Aggregations', 'StartAggregationDataUpload',
              A.StartAggregationDataUploadRequest, operations_pb2.Operation,
              ('aggregation_id', 'authorization_token'),
              '/v1/aggregations/{0}/clients/{1}:startdataupload'),
    'submit': (V1 + 'Aggregations', 'SubmitAggregationResult',
               A.SubmitAggregationResultRequest,
               A.SubmitAggregationResultResponse,
               ('aggregation_id', 'client_token'),
               '/v1/aggregations/{0}/clients/{1}:submit'),
    'abort': (V1 + 'Aggregations', 'AbortAggregation', A.AbortAggregationRequest,
              A.AbortAggregationResponse, ('aggregation_id', 'client_token'),
              '/v1/aggregations/{0}/clients/{1}:abort'),
    'eligibility': (V1 + 'EligibilityEvalTasks', 'RequestEligibilityEvalTask',
                    E.EligibilityEvalTaskRequest, E.EligibilityEvalTaskResponse,
                    ('population_name',), '/v1/eligibilityevaltasks/{0}:request'),
    'assign': (V1 + 'TaskAssignments', 'StartTaskAssignment',
               T.StartTaskAssignmentRequest, operations_pb2.Operation,
               ('population_name', 'session_id'),
               '/v1/populations/{0}/taskassignments/{1}:start'),
    'assigns': (V1 + 'TaskAssignments', 'PerformMultipleTaskAssignments',
                T.PerformMultipleTaskAssignmentsRequest,
                T.PerformMultipleTaskAssignmentsResponse,
                ('population_name', 'session_id'),
                '/v1/populations/{0}/taskassignments/{1}:performmultiple'),
    'report': (V1 + 'TaskAssignments', 'ReportTaskResult',
               T.ReportTaskResultRequest, T.ReportTaskResultResponse,
               ('population_name', 'session_id'),
               '/v1/populations/{0}/taskassignments/{1}:reportresult'),
    'get': ('verif.Shelves', 'Get', G.Item, G.Item, ('shelf', 'name'),
            '/shelves/{0}/items/{1}'),
    'replace': ('verif.Shelves', 'Replace', G.Item, G.Item, ('shelf', 'name'),
                '/shelves/{0}/items/{1}'),
    'move': ('verif.Shelves', 'Move', G.Item, G.Item, ('shelf',),
             '/shelves/{0}:move'),
    'ping': ('verif.Shelves', 'Ping', G.Item, G.Item, (), '/ping.v1'),
}
ALT = '?%24alt=proto'
PLAIN = {
    'download': ('GET', ('group', 'name'), '/data/{0}/{1}'),
    'upload': ('POST', ('name',), '/upload/v1/media/{0}?upload_protocol=raw'),
}
VALUES = ('a', '', 'b7-x_~.', 'x:submit', 'x:abort', ':move', '%2F', 'a%2Fb', '%41',
          '%25', '%3Fq', '%20', '%C3%A9', '%zz', 'a+b', 'items', '%FF', '%C3%28',
          'p%2fq%26', '0', 'name.ext', '(a)*')
ESCAPE = re.compile('%C3%A9|%C3%28|%[0-9A-Za-z]{2}|.', re.S)
ERRORS = (400, 401, 403, 404, 409, 500, 503)


def plain(text):
  return ''.join(c if 32 <= ord(c) < 127 else '<%x>' % ord(c) for c in text)


def blob(data):
  if len(data) <= 8:
    return 'x' + data.hex()
  return 'h%d.%s' % (len(data), hashlib.sha256(data).hexdigest()[:16])


def rest_of(message, drop):
  m = type(message)()
  m.CopyFrom(message)
  for field in drop:
    m.ClearField(field)
  return hashlib.sha256(text_format.MessageToString(
      m, as_one_line=True).encode()).hexdigest()[:16] + (
          '' if m.ByteSize() else '-empty')


class Handlers:
  """One handler for each rule: records what it is given, replies as told."""

  def __init__(self, trace):
    self.trace = trace
    self.plan = None

  def rpc(self, name, request):
    drop = RPCS[name][4]
    if name == 'replace':
      rest, drop = blob(request.data), drop + ('data',)
    elif name in ('get', 'ping'):
      rest = ''
    else:
      rest = rest_of(request, drop)
    if name in ('get', 'ping', 'replace') and not rest_of(
        request, drop).endswith('-empty'):
      rest += 'more'
    plan = self.plan
    reply = plan['reply'](RPCS[name][3])
    status = plan['status']
    self.trace.add(
        'handled', h=name, rest=rest, status=status,
        vars={f: plain(getattr(request, f)) for f in RPCS[name][4]},
        type='application/x-protobuf', data=blob(reply.SerializeToString()))
    if not isinstance(request, RPCS[name][2]):
      raise http_actions.HttpError(http.HTTPStatus.IM_A_TEAPOT)
    if status != 200:
      raise http_actions.HttpError(http.HTTPStatus(status))
    return reply

  def plain(self, name, body, values):
    plan = self.plan
    status = plan['status']
    reply = plan['raw']
    self.trace.add(
        'handled', h=name, rest=blob(body) if name == 'upload' else '',
        status=status, vars={k: plain(v) for k, v in values.items()},
        type=plan['type'], data=blob(reply))
    if status != 200:
      raise http_actions.HttpError(http.HTTPStatus(status))
    return http_actions.HttpResponse(
        body=reply, headers={'Content-Length': len(reply),
                             'Content-Type': plan['type']})


def _rpc(name):
  def fn(self, request):
    return self.rpc(name, request)
  return http_actions.proto_action(
      service=RPCS[name][0], method=RPCS[name][1])(fn)


def _plain(name):
  def fn(self, body, **values):
    return self.plain(name, body, values)
  return http_actions.http_action(
      method=PLAIN[name][0],
      pattern=PLAIN[name][2].format(*['{%s}' % v for v in PLAIN[name][1]]))(fn)


# Spread over several objects, as the server does.
PARTS = (('start', 'submit', 'abort'), ('assign', 'assigns', 'report'),
         ('eligibility', 'get', 'download'), ('replace', 'move', 'ping', 'upload'))


def make_parts(handlers):
  parts = []
  for i, names in enumerate(PARTS):
    members = {n: (_rpc(n) if n in RPCS else _plain(n)) for n in names}
    cls = type('Part%d' % i, (), members)
    part = cls()
    part.rpc, part.plain = handlers.rpc, handlers.plain
    parts.append(part)
  return parts


class World:

  def __init__(self, trace, rng):
    self.trace, self.rng = trace, rng
    self.handlers = Handlers(trace)
    parts = make_parts(self.handlers)
    rng.shuffle(parts)
    cls = http_actions.create_handler(*parts)
    cls.log_message = lambda *a: None
    self.server = http.server.ThreadingHTTPServer(('127.0.0.1', 0), cls)
    self.server.handle_error = lambda *a: None
    self.server.shutdown_request = self.hang_up
    threading.Thread(target=self.server.serve_forever, args=(0.01,),
                     daemon=True).start()

  def close(self):
    self.server.shutdown()
    self.server.server_close()

  def hang_up(self, sock):
    """Closes after the peer has: what it did not get read must not reset it."""
    try:
      sock.settimeout(20)
      sock.shutdown(socket.SHUT_WR)
      while sock.recv(65536):
        pass
    except OSError:
      pass
    sock.close()

  def exchange(self, data, half_close):
    sock = socket.create_connection(('127.0.0.1', self.server.server_port), 20)
    try:
      sock.sendall(data)
      if half_close:
        sock.shutdown(socket.SHUT_WR)
      got = b''
      while True:
        more = sock.recv(65536)
        if not more:
          return got
        got += more
    except OSError:
      return b''
    finally:
      sock.close()

  # ---- one request
  def send(self, name, method, target):
    """Sends a request for `target` whose body would suit handler `name`."""
    rng = self.rng
    rest, body, garbled = '', b'', False
    if name in RPCS and name not in ('get', 'ping', 'replace'):
      message = self.message(name)
      body = message.SerializeToString()
      rest = rest_of(message, RPCS[name][4])
    elif name in ('replace', 'upload'):
      body = rng.choice((b'', b'a', b'\x0a\x05', b'\xff' * 20, b'q' * 100000))
    elif rng.random() < .3:
      body = b'not looked at'
    kind = 'good'
    trouble = rng.random()
    if trouble < .06:
      garbled, body = True, rng.choice((b'\x0a\xff', b'\x0f', b'\xff\xff\xff'))
      kind = 'garbled'
    raw = blob(body)
    enc, header = '', None
    choice = rng.random()
    if choice < .3:
      enc = header = 'gzip'
      body = self.zip(body)
      if rng.random() < .25:
        kind = rng.choice(('badzip', 'cutzip'))
        if kind == 'cutzip':
          body = body[:rng.choice((1, 5, 12, len(body) - 1, len(body) - 8))]
        else:
          body = rng.choice((b'plain', b'\x1f\x8b\x08\x00garbage........',
                             body[:-8] + b'\0\0\0\0\0\0\0\1'))
    elif choice < .38:
      enc, header = 'other', rng.choice(('deflate', 'br', 'x-unknown', 'gzip, br'))
      if header == 'deflate':
        body = zlib.compress(body)
    length, announced = 'ok', str(len(body))
    half = rng.random() < .3
    if method == 'POST':
      choice = rng.random()
      if choice < .03:
        length, announced, half = 'none', None, True
      elif choice < .06:
        length, announced, half = 'bad', rng.choice(('many', '', '0x4')), True
      elif choice < .08:
        length, announced, half = 'negative', '-1', True
      elif choice < .12 and kind == 'good':
        kind, announced, half = 'short', str(len(body) + rng.choice((1, 40))), True
    lines = ['%s %s HTTP/1.%d' % (method, target, rng.choice((0, 1))),
             'Host: h']
    if header:
      lines.append('Content-Encoding: ' + header)
    if announced is not None and (method != 'GET' or body):
      lines.append('Content-Length: ' + announced)
    if rng.random() < .3:
      lines.append('Content-Type: application/x-protobuf')
    rng.shuffle(lines[1:])
    self.handlers.plan = {
        'status': 200 if rng.random() < .75 else rng.choice(ERRORS),
        'reply': self.reply,
        'raw': rng.choice((b'', b'r', b'\x00\xff', b'w' * 70000)),
        'type': rng.choice(('text/plain', 'application/octet-stream+gzip')),
    }
    self.trace.add('req', h=name, method=method, path=ESCAPE.findall(target),
                   enc=enc, length=length, body=kind, rest=rest, raw=raw)
    got = self.exchange('\r\n'.join(lines + ['', '']).encode('latin-1') + body, half)
    self.trace.add('resp', **self.parse(got, method))

  def parse(self, got, method):
    head, sep, body = got.partition(b'\r\n\r\n')
    m = re.match(rb'HTTP/1\.[01] (\d\d\d)', head)
    if not sep or not m:
      return dict(status=0, type='', data='', len=False)
    headers = {}
    for line in head.split(b'\r\n')[1:]:
      k, _, v = line.partition(b':')
      headers[k.strip().lower()] = v.strip()
    return dict(
        status=int(m.group(1)),
        type=headers.get(b'content-type', b'').decode(),
        data=blob(body) if int(m.group(1)) == 200 else '',
        len=headers.get(b'content-length') == str(len(body)).encode())

  def zip(self, data):
    rng = self.rng
    if rng.random() < .15 and len(data) > 1:
      k = len(data) // 2
      return gzip.compress(data[:k]) + gzip.compress(data[k:])
    return gzip.compress(data, compresslevel=rng.choice((1, 9)))

  def message(self, name):
    rng = self.rng
    m = RPCS[name][2]()
    # Fields that the path also sets: the path decides.
    for f in RPCS[name][4]:
      if rng.random() < .3:
        setattr(m, f, 'from the body')
    text = lambda: rng.choice(('', 'x', '/a/b?c', 'é', 'long' * 5000))
    if name == 'submit':
      m.resource_name = text()
    elif name == 'abort':
      m.status.code, m.status.message = rng.choice((0, 1, 13)), text()
    elif name == 'eligibility':
      m.client_version.version_code = text()
      m.eligibility_eval_task_capabilities.supports_multiple_task_assignment = (
          rng.random() < .5)
    elif name in ('assign', 'assigns'):
      m.client_version.version_code = text()
      if name == 'assigns':
        m.task_names.extend([text() for _ in range(rng.randint(0, 3))])
    elif name == 'report':
      m.aggregation_id, m.task_name = text(), text()
      m.computation_status_code = rng.choice((0, 3))
    elif name == 'move':
      m.name, m.number, m.data = text(), rng.choice((0, -1, 7)), b'\xff\x00'
      m.tags.extend(['t', ''])
    return m

  def reply(self, cls):
    rng = self.rng
    m = cls()
    if rng.random() < .3:
      return m
    if cls is operations_pb2.Operation:
      m.name, m.done = 'operations/%d' % rng.randint(0, 99), True
    elif cls is G.Item:
      m.name, m.data, m.number = 'é', b'\xfe' * rng.choice((1, 50000)), -3
    elif cls is E.EligibilityEvalTaskResponse:
      m.session_id = 's%d' % rng.randint(0, 99)
    elif cls is T.PerformMultipleTaskAssignmentsResponse:
      m.task_assignments.add().task_name = 'é' * 3
    return m

  def target(self, name):
    rng = self.rng
    pattern = RPCS[name][5] + ALT if name in RPCS else PLAIN[name][2]
    values = [rng.choice(VALUES[:1] if rng.random() < .4 else VALUES)
              for _ in range(2)]
    target = pattern.format(*values)
    if rng.random() < .35:
      # A little off.
      k = rng.randrange(len(target) + 1)
      target = rng.choice((
          target + 'x', target + '/', target + '&a=b', target.replace('?', '/?'),
          target.split('?')[0], target.split('?')[0] + '?alt=json', '/x' + target,
          target.replace(':', ''), target.upper(),
          target.replace('v1', 'v2'), target[:-1], target[1:] or '/',
          target.replace('.', '-'), target.replace('clients', 'client'), '/',
          target.replace('?', '%3F'), target + '?',
          target[:k] + '/' + target[k:]))
      # http.server itself drops doubled slashes in front.
      target = '/' + target.lstrip('/')
    # A lone percent sign would be read together with what follows.
    if any(t == '%' for t in ESCAPE.findall(target)):
      return pattern.format('a', 'b')
    return target


def method_of(name):
  return PLAIN[name][0] if name in PLAIN else 'GET' if name == 'get' else 'POST'


def mix(trace, rng):
  trace.add('reset')
  w = World(trace, rng)
  for _ in range(40):
    name = rng.choice(list(RPCS) + list(PLAIN))
    method = method_of(name)
    if rng.random() < .1:
      method = rng.choice(('GET', 'POST', 'PUT', 'HEAD', 'DELETE'))
    w.send(name, method, w.target(name))
  trace.add('end')
  w.close()


def from_file(trace, rng):
  lines = [json.loads(l) for l in open(os.environ['REQUESTS'])]
  rng.shuffle(lines)
  trace.add('reset')
  w = World(trace, rng)
  for q in lines[:int(os.environ.get('LIMIT', '1000'))]:
    w.send(q['h'], q['method'], ''.join(q['path']))
  trace.add('end')
  w.close()


vdrv.main({'mix': mix, 'file': from_file})
