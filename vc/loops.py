class Inductive:
    def __init__(self, ex):
        self.ex = ex

    def enter(self, st, fr, f, bb, prev, work, outs):
        return False
