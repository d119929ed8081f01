"""A write to one byte of a big share without unexpired lease must cost a whole lease."""
import sys
from time import time
from challenge_bypass_ristretto import random_signing_key
from twisted.internet.task import Clock
from _zkapauthorizer.api import MorePassesRequired, ZKAPAuthorizerStorageServer
from _zkapauthorizer.server.spending import RecordingSpender
from _zkapauthorizer.storage_common import slot_testv_and_readv_and_writev_message
from _zkapauthorizer.tests.fixtures import AnonymousStorageServer
from _zkapauthorizer.tests.storage_common import get_passes

clock = Clock()
clock.advance(time())
fix = AnonymousStorageServer(clock)
fix.setUp()
key = random_signing_key()
recorder, spender = RecordingSpender.make()
server = ZKAPAuthorizerStorageServer(fix.storage_server, 1024, key, spender, clock=clock)
si, secrets = b"s" * 16, (b"w" * 32, b"r" * 32, b"c" * 32)


def write(n, data):
    passes = get_passes(slot_testv_and_readv_and_writev_message(si), n, key)
    return server.remote_slot_testv_and_readv_and_writev(
        [p.pass_bytes for p in passes], si, secrets, {0: ([], [(0, data)], None)}, []
    )


write(8, b"x" * 8 * 1024)
clock.advance(32 * 24 * 60 * 60)
try:
    write(1, b"y")
except MorePassesRequired as e:
    print("ok", e.required_count)
    sys.exit(0 if e.required_count == 8 else 1)
print("the lease on 8 units was renewed for one pass")
sys.exit(1)
