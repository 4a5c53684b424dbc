"""Builds a parser in a fresh interpreter (another hash seed); stdin/stdout pickles."""

import os
import pickle
import sys

req = pickle.load(sys.stdin.buffer)
sys.dont_write_bytecode = True
sys.path.insert(0, req["repo"])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import pyparsing  # noqa: E402

from pyclibrary import CParser  # noqa: E402
from pyclibrary import utils  # noqa: E402
from sim import canon as C  # noqa: E402
from sim import cacheworld as W  # noqa: E402

os.chdir(req["dir"])
utils.add_header_locations([os.path.join(req["dir"], "inc")])
scans = 0
real = pyparsing.ParserElement.scan_string


def scan_string(self, instring, *a, **k):
    global scans
    if "mark_h" in instring:
        scans += 1
    return real(self, instring, *a, **k)


pyparsing.ParserElement.scan_string = scan_string
pyparsing.ParserElement.scanString = scan_string


def base(v):
    p = W.base_path(req["dir"], v)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(W.base_text(v))
    return CParser([p])


o = req["opts"]
kw = W.build_kwargs(o, base)
names = [W.HEADERS[h] for h in o["files"]]
try:
    p = CParser([os.path.join(req["dir"], "inc", n) for n in names],
                cache=os.path.join(req["dir"], "cache", "c.cache"), **kw)
    res = ("ok", C.canon_parser(p), scans)
except Exception as e:
    res = ("exc", repr(e), scans)
sys.stdout.buffer.write(pickle.dumps(res))
