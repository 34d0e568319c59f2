# encoding: utf-8
"""Runs jobs in a process of its own, whose hash seed the caller chose."""
import json
import logging
import sys

from . import jobs, loader


def main():
    logging.disable(logging.CRITICAL)
    loader.install()
    loader.preload()
    todo = json.load(sys.stdin)
    out = [jobs.outcome(loader.Lib(), j) for j in todo]
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
