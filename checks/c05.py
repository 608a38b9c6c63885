from . import generated


def run(rep):
    generated.run(rep, 'C05', ('stub', 'skeleton', 'refs'))
