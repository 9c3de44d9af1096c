import dimcheck
def run(r):
    dimcheck.run(r, 1, "charge")
