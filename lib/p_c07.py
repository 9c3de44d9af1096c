import dimcheck
def run(r):
    dimcheck.run(r, 0, "time")
