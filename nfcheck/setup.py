"""setup: the machinery is pure standard-library Python; only check that it loads and that the source parses."""
from . import core, registry


def main():
    p = core.Program()
    print("nfcheck ready: %d checks, %d modules" % (len(registry.CHECKS), len(p.modules)))


if __name__ == "__main__":
    main()
