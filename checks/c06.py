"""C06: smoothers are fixed linear operators on the free unknowns, backward transposes forward."""
import c05


def run(c):
    tr = c05.traces(c, 6, c.pick(1500, 15000), 0.45, 3)
    for k in range(0, len(tr), 1500):
        c.validate("SmoothTrace", tr[k:k + 1500], "smoother", env={"PROPERTY": "C06"}, heap="8g")
    c05.report(c, tr)
    c.finish()
