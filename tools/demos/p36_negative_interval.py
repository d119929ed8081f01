"""
P36: with "lease.crawl-interval.mean" shorter than half of
"lease.crawl-interval.range" (4 days unless configured) the sampled interval
can be negative and the reactor refuses to schedule it: the node fails to
start or maintenance stops for good.
"""
import sys, tempfile, os
sys.path.insert(0, "src")
from datetime import timedelta
from random import Random
from twisted.internet.task import Clock
from twisted.python.filepath import FilePath
from _zkapauthorizer.lease_maintenance import LeaseMaintenanceConfig, lease_maintenance_service

runs = []
async def maintain():
    runs.append(1)

class Low(Random):
    n = 0

    def uniform(self, a, b):
        self.n += 1
        return a if self.n < 3 else b

class RealisticClock(Clock):
    # what twisted.internet.base.ReactorBase does
    def callLater(self, delay, f, *a, **kw):
        assert delay >= 0, f"{delay} is not greater than or equal to 0 seconds"
        return Clock.callLater(self, delay, f, *a, **kw)

with tempfile.TemporaryDirectory() as d:
    c = RealisticClock()
    s = lease_maintenance_service(maintain, c, FilePath(os.path.join(d, "last")), Low(), LeaseMaintenanceConfig(timedelta(days=1), timedelta(days=4), timedelta(0)))
    try:
        s.startService()
    except AssertionError as e:
        print("cannot start:", e)
        sys.exit(1)
    c.advance(0)
    assert len(c.getDelayedCalls()) == 1, "not scheduled again"
    s.stopService()
print("ok", len(runs))
