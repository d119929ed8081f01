"""The text of a Tahoe API error has no capability; neither has what is logged
about a recovery request that cannot be parsed."""
import sys
sys.path.insert(0, "src")
from hyperlink import DecodedURL
from twisted.logger import globalLogPublisher, formatEvent, eventAsText
from _zkapauthorizer.resource import RecoverProtocol
from _zkapauthorizer.tahoe import TahoeAPIError

bad = 0
cap = "URI:DIR2-RO:aaaaaaaaaaaaaaaaaaaaaaaaaa:bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"
e = TahoeAPIError("get", DecodedURL.from_text("http://x/").child("uri").child(cap), 500, "body")
if "aaaaaaaa" in str(e) or "aaaaaaaa" in repr(e):
    print(str(e)); bad = 1
seen = []
globalLogPublisher.addObserver(lambda event: seen.append(eventAsText(event)))
p = RecoverProtocol()
p.sendClose = lambda **kw: None
p.onMessage(('{"recovery-capability": "%s",}' % cap).encode("ascii"), False)
if any("aaaaaaaa" in s for s in seen):
    print("logged"); bad = 1
sys.exit(bad)
