from props import filep
def run(c):
    filep.run_xyz(c)
