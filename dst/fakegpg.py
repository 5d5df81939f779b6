"""
Stands in for the python "gpg" module: same calls, same results and exceptions, over toy signatures
whose state (valid, unknown key, expired, ...) the plan decides and whose digest really binds the data.
"""

import hashlib
import json
import types

MARK = b"-----BEGIN PGP SIGNATURE-----\n"
END = b"-----END PGP SIGNATURE-----\n"
CLEAR = b"-----BEGIN PGP SIGNED MESSAGE-----\n"

STATUS = {"good": 0, "bad": 8, "nokey": 9, "expired": 3, "keyexpired": 153, "revoked": 94, "untrusted": 0,
          "tofu": 0, "crlmissing": 0, "marginal": 0}
SUMS = {"VALID": 1, "GREEN": 2, "RED": 4, "KEY_REVOKED": 0x10, "KEY_EXPIRED": 0x20, "SIG_EXPIRED": 0x40, "KEY_MISSING": 0x80,
        "CRL_MISSING": 0x100, "CRL_TOO_OLD": 0x200, "BAD_POLICY": 0x400, "SYS_ERROR": 0x800, "TOFU_CONFLICT": 0x1000}
# what gpgme reports: "valid" only if nothing at all is to be said against the signature
SUMMARY = {"good": 1 | 2, "bad": 4, "nokey": 0x80, "expired": 2 | 0x40, "keyexpired": 2 | 0x20, "revoked": 0x10, "untrusted": 0,
           "marginal": 0, "tofu": 2 | 0x1000, "crlmissing": 2 | 0x100}


def make_sig(data, sigs):
    """sigs: list of states; 'bad' signs other data."""
    out = []
    for i, s in enumerate(sigs):
        d = hashlib.sha256(data).hexdigest()
        if s == "bad":
            d = hashlib.sha256(data + b"x").hexdigest()
        out.append({"state": "good" if s == "bad" else s, "digest": d, "fpr": "%040X" % (0xABC0 + i)})
    body = json.dumps(out).encode()
    return MARK + body + b"\n=" + hashlib.sha256(body).hexdigest()[:16].encode() + b"\n" + END


def make_clear(text, sigs):
    return CLEAR + b"Hash: SHA256\n\n" + text + b"\n" + make_sig(text, sigs)


def build(k):
    gpg = types.ModuleType("gpg")
    errors = types.ModuleType("gpg.errors")
    constants = types.ModuleType("gpg.constants")
    sigsum = types.ModuleType("gpg.constants.sigsum")

    class GpgError(Exception):
        pass

    class GPGMEError(GpgError):
        def __init__(self, msg="No data", code=58):
            super().__init__(msg)
            self.msg, self.code = msg, code

        def getstring(self):
            return "gpgme: " + self.msg

        def getcode(self):
            return self.code

        def getsource(self):
            return 7

    class VerificationError(GpgError):
        def __init__(self, result, results=None):
            super().__init__(result)
            self.result, self.results = result, results

    class BadSignatures(VerificationError):
        def __str__(self):
            return ", ".join("%s: %s" % (s.fpr, s.status) for s in self.result.signatures if s.status)

    class MissingSignatures(VerificationError):
        pass

    errors.GpgError, errors.GPGMEError, errors.VerificationError = GpgError, GPGMEError, VerificationError
    errors.BadSignatures, errors.MissingSignatures, errors.NO_ERROR = BadSignatures, MissingSignatures, 0
    for mod in (constants, sigsum):
        pre = "SIGSUM_" if mod is constants else ""
        for name, bit in SUMS.items():
            setattr(mod, pre + name, bit)
    constants.sigsum = sigsum
    gpg.errors, gpg.constants = errors, constants

    def read(obj):
        if isinstance(obj, (bytes, bytearray)):
            return bytes(obj)
        if isinstance(obj, str):
            return obj.encode()
        if hasattr(obj, "read"):
            d = obj.read()
            return d if isinstance(d, bytes) else d.encode()
        raise TypeError("cannot make Data from %r" % (obj,))

    class Data:
        def __init__(self, string=None, file=None):
            self.b = string or b""

        def read(self, n=-1):
            return self.b

        def write(self, d):
            self.b += d

        def seek(self, *a):
            pass

    class Context:
        def __init__(self, **kw):
            k.op("gpg", "gpg")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def _parse(self, blob, data):
            if MARK not in blob or END not in blob:
                raise GPGMEError("No data", 58)
            a = blob.index(MARK) + len(MARK)
            b = blob.index(END)
            try:
                body, _, crc = blob[a:b].rstrip(b"\n").rpartition(b"\n=")
                if hashlib.sha256(body).hexdigest()[:16].encode() != crc:
                    raise ValueError
                items = json.loads(body)
                out = []
                for it in items:
                    s = types.SimpleNamespace()
                    st = it["state"]
                    if it["digest"] != hashlib.sha256(data).hexdigest():
                        st = "bad"
                    s.fpr, s.state = it["fpr"], st
                    s.status = STATUS[st]
                    s.summary = SUMMARY[st]
                    s.validity = {"good": 4, "tofu": 4, "crlmissing": 4, "expired": 4, "keyexpired": 4, "marginal": 3}.get(st, 0)
                    s.validity_reason, s.wrong_key_usage, s.notations = 0, False, []
                    s.exp_timestamp = s.timestamp = 0
                    out.append(s)
            except (ValueError, KeyError, TypeError):
                raise GPGMEError("Invalid packet", 14)
            return out

        def verify(self, signed_data, signature=None, sink=None, verify=[]):
            k.op("gpg", "gpg")
            blob = read(signed_data)
            if signature:
                sigs = self._parse(read(signature), blob)
                data = None
            else:
                if not blob.startswith(CLEAR) or MARK not in blob:
                    raise GPGMEError("No data", 58)
                body = blob[:blob.rindex(MARK)]
                parts = body.split(b"\n\n", 1)
                if len(parts) != 2:
                    raise GPGMEError("No data", 58)
                text = parts[1]
                if text.endswith(b"\n"):
                    text = text[:-1]
                sigs = self._parse(blob[blob.rindex(MARK):], text)
                if sink:
                    sink.write(text)
                    data = None
                else:
                    data = text
            res = types.SimpleNamespace(signatures=sigs, file_name=None)
            results = (data, res)
            if any(s.status != 0 for s in sigs):
                raise BadSignatures(res, results=results)
            return results

        def get_key(self, fpr, secret=False):
            if k.plan.get("sig", {}).get("key_gone"):
                raise GPGMEError("Key not found", 9)
            uid = types.SimpleNamespace(name="A", email="a@b", uid="A <a@b>")
            return types.SimpleNamespace(uids=[uid], fpr=fpr, subkeys=[types.SimpleNamespace(fpr=fpr, can_sign=True)])

    Context.GPGMEError = GPGMEError
    gpg.Context, gpg.Data = Context, Data
    return {"gpg": gpg, "gpg.errors": errors, "gpg.constants": constants, "gpg.constants.sigsum": sigsum}
