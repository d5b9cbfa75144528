"""python -m simtal C01 [--replay FILE | --seed SEED]"""
import sys


def main():
    from . import checks, core
    check = checks.find(sys.argv[1])
    return core.main(check, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
