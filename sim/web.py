"""A simulated web: urllib's default opener answers from a table of pages.

urlopen and urlretrieve stay real; only the connection is simulated.
"""
import email.message
import io
import urllib.error
import urllib.request
import urllib.response


class Body(io.BytesIO):
  """A response body that may end early and lets others run between reads."""

  def __init__(self, data, on_read=None):
    super().__init__(data)
    self.on_read = on_read
    self.reads = 0

  def read(self, n=-1):
    self.reads += 1
    if self.on_read is not None:
      self.on_read(self.reads)
    return super().read(n)


class Web(urllib.request.BaseHandler):
  """pages: url -> bytes. fault: what happens to the next request."""

  def __init__(self):
    self.pages = {}
    self.fault = None
    self.cut = 0.5
    self.on_read = None
    self.requests = []
    self.fired = None

  def answer(self, req):
    url = req.full_url
    self.requests.append(url)
    fault, self.fault = self.fault, None
    on_read, self.on_read = self.on_read, None
    if fault:
      self.fired = fault
    if fault == 'refused':
      raise urllib.error.URLError(ConnectionRefusedError(111, 'refused'))
    if url not in self.pages or fault == 'http':
      raise urllib.error.HTTPError(url, 503, 'unavailable', {}, io.BytesIO())
    data = self.pages[url]
    headers = email.message.Message()
    headers['Content-Length'] = str(len(data))
    if fault == 'garbage':
      data = b'<html>Please log in to this network</html>'
      del headers['Content-Length']
    elif fault == 'cut':
      data = data[:int(len(data) * self.cut)]
      del headers['Content-Length']
    elif fault == 'short':
      data = data[:int(len(data) * self.cut)]
    elif fault == 'reset':
      n = int(self.cut * 3)

      def boom(k):
        if k > n:
          raise ConnectionResetError(104, 'connection reset')

      on_read = boom
    r = urllib.response.addinfourl(Body(data, on_read), headers, url, 200)
    r.msg = 'OK'
    return r

  def http_open(self, req):
    return self.answer(req)

  https_open = http_open

  def install(self):
    self.old = urllib.request._opener
    urllib.request.install_opener(urllib.request.build_opener(_only(self)))

  def remove(self):
    urllib.request._opener = self.old


def _only(web):
  """A handler instance that build_opener prefers over the real ones."""

  class Handler(urllib.request.HTTPHandler, urllib.request.HTTPSHandler):
    handler_order = 0

    def http_open(self, req):
      return web.answer(req)

    def https_open(self, req):
      return web.answer(req)

  return Handler()
