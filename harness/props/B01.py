from props import region
def run(c):
    region.run_meet(c, 'ico')
