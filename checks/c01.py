from . import generated


def run(rep):
    generated.run(rep, 'C01', ('stub', 'skeleton'))
