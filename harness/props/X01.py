from props import pure
def run(c):
    pure.run(c)
