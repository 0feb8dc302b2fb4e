from props import arith
def run(c):
    arith.run(c, 'dode')
