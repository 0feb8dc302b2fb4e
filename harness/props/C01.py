from props import comb
def run(c):
    comb.run_dedup(c)
