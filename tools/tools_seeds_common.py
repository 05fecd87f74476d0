P = 'src/repast4py/'
AG = '''
from repast4py import core, context, random, schedule, space, network
from repast4py.space import DiscretePoint as DPt, ContinuousPoint as CPt


class A(core.Agent):
    def __init__(self, id, type, rank, v=0):
        super().__init__(id, type, rank)
        self.v = v

    def save(self):
        return (self.uid, self.v)

    def update(self, v):
        self.v = v


def make(d):
    return A(d[0][0], d[0][1], d[0][2], d[1])

'''
