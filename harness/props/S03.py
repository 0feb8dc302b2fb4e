from props import sym
def run(c):
    sym.run_expand(c)
