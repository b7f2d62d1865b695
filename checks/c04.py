from checks import fmt
def run(cx):
    fmt.report(cx,'C04')
