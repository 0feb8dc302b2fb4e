from props import geom
def run(c):
    geom.run_pred(c)
