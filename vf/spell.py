"""The former names of calls and attributes: they still answer, and have to answer the same."""
import warnings
import zlib

warnings.simplefilter("ignore")
FORMER = {
    "encode": ["Encode", "GetBytes"], "decode": ["PopulateFromFileStream", "Decode"], "write": ["Write"], "add_cert_data": ["AddCertData"],
    "get_certificate": ["GetCertificate"], "set_payload": ["SetPayload"], "get_canonical_and_dupes": ["GetCanonicalAndDupes"], "get_canonical": ["GetCanonical"],
    "get_duplicates": ["GetDuplicates"], "factory": ["Factory"], "create": ["Create"], "get_total_size": ["GetTotalSize"], "signature_owner": ["SignatureOwner"],
    "signature_data": ["SignatureData"], "signature_data_list": ["SignatureData_List"], "esl_list": ["EslList"], "cert_data": ["CertData"], "cert_type": ["CertType"],
    "hash_algorithm": ["HashAlgorithm"],
}


class Former:
    """Answers as the object behind it does, by the former names where there are some."""

    def __init__(self, x, pick=0):
        object.__setattr__(self, "_x", x)
        object.__setattr__(self, "_pick", pick)

    def _name(self, n):
        x = self._x
        c = [m for m in FORMER.get(n, []) if hasattr(x if isinstance(x, type) else type(x), m)]
        return c[self._pick % len(c)] if c else n

    def __getattr__(self, n):
        return getattr(self._x, self._name(n))

    def __setattr__(self, n, v):
        setattr(self._x, self._name(n), v)


def speaker(case):
    """How this history spells calls: the identity, or by the former names."""
    k = case.get("old", 0)
    return (lambda x: Former(x, k)) if k else (lambda x: x)


def ends(text):
    """How the lines of a description file end: its content decides, a quarter of the files come from Windows."""
    return "\r\n" if zlib.crc32(text.encode()) % 4 == 0 else "\n"
