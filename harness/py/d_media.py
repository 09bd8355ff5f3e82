"""Drives fcp/demo/media.py: uploads and download groups under many schedules.

Each operation is recorded as a call and a return; `sched` interleaves operations at
every lock operation, `http` sends transfers through a real server from real threads.
"""
import hashlib
import http
import http.client
import http.server
import threading
import urllib.parse

import vdrv
from fcp.demo import http_actions
from fcp.demo import media
from fcp.protos.federatedcompute import common_pb2


def text(data):
  if data is None:
    return 'nothing'
  if len(data) < 12:
    return 'x' + data.hex()
  return 'h%d.%s' % (len(data), hashlib.sha256(data).hexdigest()[:16])


class World:

  def __init__(self, trace, rng, over_http):
    self.trace, self.rng, self.http = trace, rng, over_http
    self.names = vdrv.Names()
    self.lock = threading.Lock()
    self.server = None
    forwarding = lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://h/')
    if over_http:
      self.service = media.Service(forwarding)
      self.server = http.server.ThreadingHTTPServer(
          ('127.0.0.1', 0), http_actions.create_handler(self.service))
      self.server.RequestHandlerClass.log_message = lambda *a: None
      threading.Thread(target=self.server.serve_forever, args=(0.01,),
                       daemon=True).start()
    else:
      with vdrv.controlled_locks():
        self.service = media.Service(forwarding)
    self.uploads = []    # real names known so far
    self.groups = []     # (context manager, DownloadGroup)
    self.closing = set()

  def close(self):
    if self.server:
      self.server.shutdown()
      self.server.server_close()

  def op(self, t, op, fn, **args):
    self.trace.add('call', t=t, op=op, **args)
    try:
      r, v = fn()
    except http_actions.HttpError as e:
      r, v = str(int(e.code)), ''
    except KeyError:
      r, v = 'error', ''
    self.trace.add('ret', t=t, r=r, v=v)

  # ---- one operation each
  def reg(self, t):
    def fn():
      name = self.service.register_upload()
      with self.lock:
        again = self.names.known('u', name)
        self.uploads.append(name)
        return 'twice' if again else 'ok', self.names('u', name)
    self.op(t, 'reg', fn, n='', f='', b='')

  def up(self, t, name, body):
    def fn():
      if not self.http:
        self.service.upload(body, name)
        return 'ok', ''
      r = self.request(
          'POST', '/upload/v1/media/%s?upload_protocol=raw' % name, body)
      return ('ok', '') if r.status == 200 else (str(r.status), '')
    self.op(t, 'up', fn, n=self.names('u', name), f='', b=text(body))

  def fin(self, t, name):
    def fn():
      data = self.service.finalize_upload(name)
      return 'ok', text(data)
    self.op(t, 'fin', fn, n=self.names('u', name), f='', b='')

  def open(self, t):
    def fn():
      cm = self.service.create_download_group()
      group = cm.__enter__()
      with self.lock:
        gid = group.prefix[len('http://h/data/'):-1]
        ok = group.prefix.startswith('http://h/data/') and gid and '/' not in gid
        again = self.names.known('g', gid)
        self.groups.append((cm, group, gid))
        return 'ok' if ok and not again else 'twice', self.names('g', gid)
    self.op(t, 'open', fn, n='', f='', b='')

  def add(self, t, group, name, data, ctype):
    def fn():
      if ctype is None:
        path = group[1].add(name, data)
      else:
        path = group[1].add(name, data, ctype)
      return 'ok', '' if path == group[1].prefix + name else 'other path'
    self.op(t, 'add', fn, n=self.names('g', group[2]), f=name, b='%s|%s' % (
        text(data), ctype or 'application/octet-stream'))

  def get(self, t, gid, name):
    def fn():
      if not self.http:
        r = self.service.download(b'', gid, name)
        headers = {k.lower(): str(v) for k, v in r.headers.items()}
        body = r.body
      else:
        r = self.request('GET', '/data/%s/%s' % (
            gid, urllib.parse.quote(name, safe='')), None)
        if r.status != 200:
          return str(r.status), ''
        headers = {k.lower(): v for k, v in r.getheaders()}
        body = r.data
      if 'content-encoding' in headers:
        return 'ok', 'encoded'
      if headers.get('content-length') != str(len(body)):
        return 'ok', 'length'
      return 'ok', '%s|%s' % (text(body), headers.get('content-type'))
    self.op(t, 'get', fn, n=self.names('g', gid), f=name, b='')

  def shut(self, t, group):
    def fn():
      group[0].__exit__(None, None, None)
      return 'ok', ''
    self.op(t, 'close', fn, n=self.names('g', group[2]), f='', b='')

  def request(self, method, path, body):
    conn = http.client.HTTPConnection('127.0.0.1', self.server.server_port,
                                      timeout=60)
    conn.request(method, path, body=body)
    r = conn.getresponse()
    r.data = r.read()
    conn.close()
    return r

  # ---- choices
  BODIES = (b'', b'a', b'bb', b'\x00', b'\x1f\x8b\x08\x00', b'z' * 70000)
  FILES = ('plan', 'checkpoint', '1_0', 'a b%', 'é')
  TYPES = (None, 'application/x-protobuf+gzip', 'text/plain')

  def choose(self, t):
    """Picks one operation; all choices are made before anything runs."""
    rng = self.rng
    kind = rng.choice(('up', 'up', 'up', 'fin', 'fin', 'reg', 'add', 'add', 'get',
                       'get', 'get', 'close', 'open'))
    if kind == 'reg':
      return lambda: self.reg(t)
    if kind == 'open':
      return lambda: self.open(t)
    if kind in ('up', 'fin'):
      name = 'strange' if rng.random() < .07 or not self.uploads else rng.choice(
          self.uploads[-3:])
      if kind == 'fin':
        return lambda: self.fin(t, name)
      body = rng.choice(self.BODIES)
      return lambda: self.up(t, name, body)
    if not self.groups:
      return lambda: self.open(t)
    group = rng.choice(self.groups[-3:])
    name = rng.choice(self.FILES[:rng.choice((1, 2, 5))])
    if kind == 'add':
      data, ctype = rng.choice(self.BODIES), rng.choice(self.TYPES)
      return lambda: self.add(t, group, name, data, ctype)
    if kind == 'get':
      gid = 'strange' if rng.random() < .07 else group[2]
      return lambda: self.get(t, gid, name)
    if group[2] in self.closing:
      return lambda: self.get(t, group[2], name)
    self.closing.add(group[2])
    return lambda: self.shut(t, group)


def run(trace, rng, over_http):
  trace.add('reset')
  w = World(trace, rng, over_http)
  w.reg(1)
  w.open(1)
  for _ in range(rng.randint(6, 14)):
    k = rng.choice((1, 2, 2, 3, 3))
    ops = [w.choose(t + 1) for t in range(k)]
    if over_http:
      threads = [threading.Thread(target=op) for op in ops]
      for t in threads:
        t.start()
      for t in threads:
        t.join()
    else:
      vdrv.Schedule(rng, rng.choice((.2, .6))).run(ops)
  # Everything that was ever named is looked at once more.
  for name in w.uploads:
    w.fin(1, name)
  for group in w.groups:
    for name in w.FILES[:2]:
      w.get(1, group[2], name)
    if group[2] not in w.closing:
      w.shut(1, group)
    for name in w.FILES[:2]:
      w.get(1, group[2], name)
  trace.add('end')
  w.close()


vdrv.main({
    'sched': lambda trace, rng: run(trace, rng, False),
    'http': lambda trace, rng: run(trace, rng, True),
})
