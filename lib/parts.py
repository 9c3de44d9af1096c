"""Runs independent parts of a check in processes of their own; their verdicts come back in order."""
import multiprocessing
import sys


class Tape:
    """stands in for a report and remembers what was said"""
    def __init__(self):
        self.said = []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a: self.said.append((name, a))


def _one(job):
    f, args = job
    sys.setrecursionlimit(20000)
    t = Tape()
    f(t, *args)
    return t.said


def run(r, jobs, workers=8):
    """jobs: (function(report, *args), args)"""
    global _jobs
    _jobs = jobs
    if len(jobs) < 2:
        said = [_one(j) for j in jobs]
    else:
        with multiprocessing.get_context("fork").Pool(min(workers, len(jobs))) as p:
            said = p.map(_nth, range(len(jobs)), 1)
    for s in said:
        for name, a in s:
            getattr(r, name)(*a)


def _nth(i):
    return _one(_jobs[i])
