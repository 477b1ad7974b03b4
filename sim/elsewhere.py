"""One reference evaluation in an interpreter of its own (other hash seed, other
directory, other environment): reads a pickled request, writes a pickled answer."""

import pickle
import sys


def main():
    name, args = pickle.load(sys.stdin.buffer)
    out, sys.stdout = sys.stdout, sys.stderr
    from .main import prepare

    prepare()
    from . import registry

    pickle.dump(registry.scenario('P18').oracle_functions()[name](*args), out.buffer)


if __name__ == '__main__':
    main()
