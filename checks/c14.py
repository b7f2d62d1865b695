"""C14: see checks/fmt.py; the uniqueness of members also relies on comparison and hashing by parts (checks/equality.py)"""
from checks import equality, fmt


def run(cx):
    for key, ok, title, detail, where in equality.run(cx, cx.program('')):
        if key.split(':')[0] in ('eq', 'ne', 'hash'):
            cx.check(ok, key, 'members are told apart by a comparison that is not by parts: ' + title, detail, where)
    fmt.report(cx, 'C14')
