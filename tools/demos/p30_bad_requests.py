"""Bodies and names that are not what is documented give 400 and nothing else."""
import sys
sys.path.insert(0, "src")
from io import BytesIO
from twisted.web.test.requesthelper import DummyRequest
from twisted.web.http_headers import Headers
from _zkapauthorizer.resource import _CalculatePrice, _VoucherCollection

class Calc:
    calls = []
    def calculate(self, sizes):
        self.calls.append(sizes)
        return sum(sizes)

def post(body):
    r = DummyRequest([b""])
    r.requestHeaders = Headers({"content-type": ["application/json"]})
    r.content = BytesIO(body)
    try:
        _CalculatePrice(Calc(), 1).render_POST(r)
    except Exception as e:
        return repr(e)[:60]
    return r.responseCode

bad = 0
for b in [b"[" * 200000, b'{"version": 1, "sizes": [true]}']:
    got = post(b)
    if got != 400:
        print(b[:40], got); bad = 1
if Calc.calls:
    print("calculated", Calc.calls); bad = 1
try:
    res = _VoucherCollection(None, None).getChild(b"\xff" * 44, DummyRequest([b""]))
    if res.code != 400:
        bad = 1
except Exception as e:
    print("getChild", repr(e)[:60]); bad = 1
sys.exit(bad)
