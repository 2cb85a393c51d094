import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import cli
if __name__ == "__main__":
    sys.exit(cli.main(sys.argv[1:]))
