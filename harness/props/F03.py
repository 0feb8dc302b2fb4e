from props import filep
def run(c):
    filep.run_pod(c)
