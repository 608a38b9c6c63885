from . import generated


def run(rep):
    generated.run(rep, 'C04', ('skeleton', 'refs'))
