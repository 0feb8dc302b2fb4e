from props import sess
def run(c):
    sess.run(c)
