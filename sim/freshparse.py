"""Parses headers in a fresh interpreter, for C15; stdin/stdout pickles."""

import os
import pickle
import sys

req = pickle.load(sys.stdin.buffer)
sys.dont_write_bytecode = True
sys.path.insert(0, req["repo"])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import logging  # noqa: E402

if req["debug"]:
    logging.basicConfig(level=logging.DEBUG, stream=open(os.devnull, "w"))
from sim import parsework as W  # noqa: E402

os.chdir(req["cwd"])
sys.stdout.buffer.write(pickle.dumps(W.build(req["spec"], req["dir"])))
