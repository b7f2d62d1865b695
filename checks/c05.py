"""C05: see checks/fmt.py"""
from checks import fmt


def run(cx):
    fmt.report(cx, 'C05')
