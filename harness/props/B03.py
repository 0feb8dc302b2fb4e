from props import region
def run(c):
    region.run_convex(c)
