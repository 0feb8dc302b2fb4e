from props import guard
def run(c):
    guard.run(c)
