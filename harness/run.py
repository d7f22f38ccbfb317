import sys

from harness.lib import main

if __name__ == '__main__':
    sys.exit(main(sys.argv))
