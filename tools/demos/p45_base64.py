"""Tokens, passes and vouchers which are not base64 are refused; both alphabets are accepted."""
from base64 import b64encode, urlsafe_b64encode

from _zkapauthorizer.model import Pass, RandomToken, UnblindedToken, Voucher

for make, n in ((UnblindedToken, 128), (RandomToken, 128), (lambda b: Voucher(b, 1), 44)):
    try:
        bad = make(b"!" * n)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted: %r" % (bad,))
UnblindedToken(b64encode(b"\xfb\xff" * 48))
RandomToken(b64encode(b"\xfb\xff" * 48))
Pass(b64encode(b"\xfb" * 64), b64encode(b"\xff" * 64))
Voucher(urlsafe_b64encode(b"\xfb" * 32), 1)
print("ok")
