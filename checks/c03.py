from . import generated


def run(rep):
    generated.run(rep, 'C03', ('stub', 'skeleton'))
