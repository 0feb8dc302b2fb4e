from props import meas
def run(c):
    meas.run_vol(c)
