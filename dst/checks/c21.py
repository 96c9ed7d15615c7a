"""C21: linked instances share imported state coherently."""
from ..vm import VMCheck


class C21(VMCheck):
    id = 'C21'
    runs = {'quick': 2500, 'thorough': 50000}
    nops = (20, 40)
    rule = ('All parties of every link graph see the objects of the reference: after every call, write, grow, table '
            'update, segment initialisation, failed instantiation or trap through any party, the contents read through '
            'every instance and by the embedder are equal to the one object of the reference interpreter, and calls '
            'across instances run against the state of the instance that defined the function.')

    def conf(self, rng):
        k = rng.choice(['graph', 'graph', 'failing', 'embedder'])
        c = {'name': k, 'insts': 8, 'link_f': .8, 'link_t': .7, 'link_m': .7, 'link_g': .7, 'callhost': 1,
             'ops': {'mod': 4, 'again': 2, 'poke': 1, 'access': .5, 'hgrow': .6, 'gset': 1.2, 'tset': 1.2},
             'w': {'call': 4, 'calli': 4, 'callm': 3, 'callim': 2, 'mgrow': 1.2, 'tgrow': 1, 'gg': 3, 'gs': 4, 'tset': 2},
             'opts': {'stmts': [1, 4]}}
        if k == 'failing':
            c['opts'] = {'start': .6, 'badseg': .25, 'stmts': [1, 4]}
            c['badlink'] = .15
            c['w'].update(trap=.8, oob=.06)
        if k == 'embedder':
            c['ops'].update(host=4)
            c['behs'] = {'poke': 4, 'growm': 3, 'setg': 4, 'reenter': 4, 'reenter_catch': 3}
            c['newhost'] = .8
        return c


CHECK = C21()
